#!/usr/bin/env python3
"""Writes DESIGN.md from the prose below, plan.py (technique, bounds), properties.jsonl, known_findings.txt,
the seeded bugs and tools/catches.txt (what the checks reported for them)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import plan
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
LARGE = { # the sections that leave the complete small scope: what is enumerated there, and why it is still exhaustive over something stated
 "V02": "Tokens with up to thousands of decimals: every count around the powers of two and the settings' limits.",
 "V06": "Batches far longer than any internal buffer, with the fault placed at every position class (first, around powers of two, last).",
 "V09": "Hundreds of names, every ordered pair of event kinds on one name.",
 "V12": "Long strings differing in exactly one position, for every position around the powers of two.",
 "V13": "Long sequences that violate a predicate at exactly one place or between exactly one pair, for pairs at all distance classes.",
 "V14": "Results with more than 2^16 elements, compared element by element.",
 "V15": "All 256 bytes including NUL inside strings, long joins compared byte by byte.",
 "I03": "Documents with thousands of shapes and shapes with thousands of points.",
 "M02": "Wide windows far from zero (up to 3*10^5 numbers beyond 2^40), where every sieving prime has to strike out its multiples.",
 "M03": "Polygons of up to thousands of vertices, each damaged at every vertex; figures of eight in which exactly one pair of edges crosses, at every distance along the boundary; star polygons and repeated traversals with up to 70000 rotations.",
 "R03": "Laws for up to 10^6 draws on the quantile grid (the grid is enumerated completely, nothing is sampled).",
 "R04": "For up to 300 elements the number of equally likely engine histories is counted per draw and must be divisible by the number of outcomes; beyond that (2000 to 70000 elements) a fixed, enumerated set of engine streams is run and the joint table position-eighth x value-eighth must stay within nine standard deviations. This last part covers the listed streams only and is the weakest evidence of the check.",
 "R06": "Bracket sequences of up to 70000 pairs along extreme paths (half or three quarters opened first), where products of the remaining counts leave 32 bits.",
 "R07": "Eight ranges with exactly one prime at the end of a gap of up to 1475 composites; runs with up to four times as many composite candidates as there are odd numbers before the prime is drawn.",
 "R08": "Up to 65536 points, where intermediate products leave 32 bits; collinearity decided exactly from 20 base points against all pairs.",
 "G01": "Graphs grown to 300, 3000 and 8000 edges and emptied again in four orders, checked after every phase; joins whose id ranges are far apart.",
 "G02": "Shapes with up to 260 vertices (complete comparison) and products with 40000 and more vertices, edge by edge.",
 "G03": "Family members far beyond the small sizes, including every edge cost of the flow worst case while it fits 64 bits.",
 "G04": "Large impossible degree sequences, large growing graphs, the law of sub-graphs of large graphs, leaf/degree statistics of large random trees over a fixed list of engine streams (nine standard deviations; weakest evidence of the check).",
 "G05": "In-stars, out-stars and nine more shapes with several hundred edges, checked after every insertion around multiples of 128.",
}
D = {}  # id -> (specification and oracle, what makes the enumeration decide it)
D["V01"] = ("A hand-written acceptor for canonical decimals compares digit strings with the 64-bit limits as text; it shares nothing with std::regex / from_chars.", "Each token is fed to a fresh real InputStream; outcome is the value, a verdict, or an escaped exception. Tests contain no token that must be rejected.")
D["V02"] = ("A hand-written grammar for lenient and strict reals plus strtold for values; tolerance ranges are decided in exact arithmetic.", "All short tokens cover every transition of the grammar several times over (sign, zero, point, exponent in every order); windows of the decimals range sit on both sides of the token's count.")
D["V03"] = ("A reference automaton on the raw bytes: position, strict/insensitive, case. It says for each operation whether it succeeds and where the stream stands afterwards.", "State = (input, position, mode). Successful operation prefixes form a tree; every edge is executed on a fresh real stream by replaying its prefix.")
D["V04"] = ("The report is parsed (line, column, excerpt, marker) and compared with positions computed from the raw text; failures must end in the stream's verdict.", "The excerpt code has thresholds (20, 60, 80, ellipsis): the grid crosses each of them in every combination of column, token length and rest of line.")
D["V05"] = ("Strings by definition, integers exactly, reals by 113-bit (__float128) evaluation of the tolerance rule on dyadic values, for which the comparison is exact.", "Value/tolerance grids contain exact boundary cases (error equal to the tolerance), where < and <= differ.")
D["V06"] = ("Differential: the batch call and the same single reads on a second stream over the same bytes, comparing values, verdict, report, remaining input and constraint log.", "Every separator arrangement of up to 4 tokens is present, so a separator that is skipped, doubled or required after the last token shows.")
D["V07"] = ("A table of the documented defaults per role and stream, of flags over presets, and of exit codes and feedback files.", "Each combination is a real process (fork, real argv, files, pipes); exit status and files are observed from outside.")
D["V08"] = ("A model with pass number, previous state, next state and nextpass.in.", "Histories are sequences of real processes sharing a directory; after every process the directory and what the process saw are compared with the model. Alternating-file bugs need at least three hand-overs.")
D["V09"] = ("An aggregate model (order of first use, extremes, widest bounds, hit flags) from which the expected file is derived and compared line by line.", "All event sequences up to the depth, including later events that widen bounds after a hit, and kind conflicts.")
D["V10"] = ("A list model of argv.", "All argument vectors up to the length over commands, look-alikes and parameters; every lookup and accessor is called on each.")
D["V11"] = ("The documented rule evaluated in 113-bit arithmetic.", "All pairs and tolerances from grids of special, adjacent and exactly-on-the-boundary values.")
D["V12"] = ("Tables for all 256 bytes; strings by definition.", "Character tests are finite: the enumeration is complete, not bounded. String forms: all short strings.")
D["V13"] = ("Quadratic brute force by definition; the witness is checked for validity, not for equality with a particular one.", "All short sequences over 4 values, offsets at both ends of six integer types (overflow of offset arithmetic).")
D["V14"] = ("Definitions evaluated in 128-bit arithmetic; priority queues against sorted vectors.", "End points and steps include both ends of the 64-bit type, where increments overflow.")
D["V15"] = ("A reference printer.", "Every nesting of small containers; sizes 0, 1, 2 and more decide separators.")
D["V16"] = ("A life-cycle automaton (uninitialised / initialised by role / settings frozen).", "Each action sequence is run in a fresh process and its exit status and outputs compared with the automaton.")
D["V17"] = ("Differential between delivery schedules: whole file, string, and a custom stream buffer handing out every chunking, byte-wise and interleaved with a second stream.", "The schedule (where chunks end, whose turn it is) is the explored nondeterminism: all of them for short inputs.")
D["V19"] = ("Six compilations with different Settings; a reference parameterised by the same settings (printf for the precision, the definition of the tolerance away from the last bit, an own grammar and strtold for reals).", "A use that ignores the setting, or a hard-coded default, only shows with another value of the setting; every use is reached by enumerating short inputs.")
D["M01"] = ("Portable shift-and-add arithmetic on two 64-bit halves and a search-based inverse.", "Boxes around zero are complete; the boundary grid contains every power-of-two neighbourhood at which an intermediate product can overflow; also run as a 32-bit build, which has no 128-bit integers.")
D["M02"] = ("A sieve for the complete lower range, a 12-base deterministic Miller-Rabin (proven for 64 bits) elsewhere.", "Strong pseudoprime families (Carmichael 6k+1, p(k(p-1)+1)) are enumerated, since those are where a witness set fails.")
D["M03"] = ("Definition-level brute force: pairwise segment intersection, turning angles, shoelace formula in 128 bits.", "All vertex sequences on small lattices contain every order type of few points, degenerate ones included; stretched copies reach the coordinate limit.")
D["R01"] = ("The engine is replaced through the documented Settings::RandomEngine by a controlled one. For each range the exact number of 64-bit words mapped to each value is found by bisection of the monotone map, so uniformity is decided over all 2^64 engine outputs, rejections included.", "Complete choice trees for the selection functions: every leaf has equal weight and the outcome counts must be equal.")
D["R02"] = ("The interval, and the distribution function of the named law evaluated independently on a complete quantile grid of engine histories.", "Only the extreme words (all zeros, all ones, runs, single bits) reach the interval ends; all pairs and 4-tuples of them are executed.")
D["R03"] = ("Range and forced values by definition; exact laws by counting over complete choice trees; other laws on complete quantile grids with a stated error.", "As R02, with probabilities down to 1e-4000 and ranges of the full type.")
D["R04"] = ("The set of admissible outputs is enumerated by definition; each must have exactly the same number of leaves of the complete choice tree.", "The controlled engine answers every draw with every value, so all executions for the given parameters are run.")
D["R05"] = ("Cycle type and fixed points by definition, equal leaf counts.", "Complete choice trees for every composition / fixpoint list.")
D["R06"] = ("Objects enumerated by definition; for bracket sequences the exact probability of each branch at every prefix is determined by bisection over the word space and multiplied out against the Catalan numbers.", "Equal probability is decided exactly rather than statistically.")
D["R07"] = ("Primes by sieve; equal counts on the complete grid of the accepting draw; the documented search effort bounds refusals.", "Ranges at both ends of the type and around isolated primes.")
D["R08"] = ("Definition-level geometry in 128 bits.", "Engine histories within a deviation bound from base streams: analogous to bounding preemptions, all histories that differ from a base stream in up to k draws.")
D["R09"] = ("Differential between six builds of the same call history, and against the plain engine for the raw stream.", "All call histories up to the depth; every build prints its values exactly (hex floats).")
D["G01"] = ("A list-of-edges model with the documented semantics.", "Every operation history up to the depth is replayed on a fresh real graph; the complete observable state (all queries, views, windows, printed form) is compared at its end. Erasing moves the last edge into the hole, so defects need add/erase/re-base sequences.")
D["G02"] = ("Definitions on adjacency matrices.", "All small graphs with several insertion orders and id offsets.")
D["G03"] = ("Independent definitions of each family; maximum flow by an independent algorithm; augmentation counts by running the textbook algorithms on the network.", "All sizes up to the bound.")
D["G04"] = ("The admissible set is enumerated by definition (all labelled trees, all m-edge sets) and must be hit uniformly over the complete choice tree.", "All executions for the given parameters; others under all tuples of boundary words.")
D["G05"] = ("Floyd-Warshall / colouring / brute-force definitions on the edge list, witnesses validated.", "Checked after every prefix of every insertion history, since the validator updates its state per edge.")
D["E01"] = ("The step is linear over GF(2): the model is its 256x256 matrix; the matrix is bound to the code by replaying all basis states and their sums on the real engine, and jump must equal its 2^128-th power.", "256 basis states determine a linear map completely; sums check linearity.")
D["E02"] = ("An independent byte-level FIPS-197 implementation with tables derived from GF(2^8) arithmetic.", "Every byte value at every position, every carry length of the counter.")
D["I01"] = ("A per-pixel model that records how often each pixel was painted.", "All rectangles, lines and fills within small images and all short histories; colours passed by reference into the image; the thorough tier adds AddressSanitizer.")
D["I02"] = ("An independent PNG reader with its own inflate, CRC and Adler code.", "All small sizes, images whose data exceeds one block, all life-cycle histories of two images.")
D["I03"] = ("An independent XML reader and a model of the bounding box.", "All drawing histories up to the depth, each both as separate statements and as one chained expression.")
D["I04"] = ("Exact integer / extended arithmetic.", "Per-channel operand spaces are finite and enumerated completely.")
D["V18"] = ("A real interactor process on pipes; the explorer plays a team that answers only after it received everything the script wrote so far (and may answer byte by byte, invalidly, or close instead). Second unit: a stream buffer that hands out one byte at a time and counts demands, against the exact number of bytes each read may need.", "A missing flush or one byte of read-ahead turns into a deadlock only for a team that waits; the explorer always is that team, for every script up to the bound.")
D["V20"] = ("The printed value itself; for the process chain, acceptors written from the file format alone.", "Printing and reading are composed, so any value one side treats differently from the other is found; the fault space of one-character changes is enumerated completely for each explored instance.")
HEAD = open(ROOT + "/tools/design_head.md").read()
TAIL = open(ROOT + "/tools/design_tail.md").read()
out = [HEAD.rstrip(), "", "## Properties", ""]
for p in props:
    i = p["id"]; c = plan.CHECKS.get(i)
    out.append("### %s %s" % (i, p["title"])); out.append("")
    out.append(p["statement"]); out.append("")
    if not c:
        out.append("*Not claimed:* " + plan.NOT_CLAIMED.get(i, "")); out.append(""); continue
    o, w = D[i]
    out.append("- **Deciding method.** " + c["technique"] + ".")
    out.append("- **Oracle.** " + o)
    out.append("- **Why this decides it.** " + w)
    if i in LARGE: out.append("- **Beyond small sizes.** " + LARGE[i])
    out.append("- **Bounds.** " + c["bounds"] + ".")
    out.append("- **Programs.** " + ", ".join(sorted({"`harness/%s`" % u["src"] for u in c["units"]})) + " in " + ", ".join("%s%s%s" % (u.get("variant", "gcc17"), " " + " ".join(u["flags"]) if u.get("flags") else "", " (thorough)" if u.get("thorough_only") else "") for u in c["units"]) + ".")
    out.append("- **Beyond the tests.** " + p["why_tests_cant"])
    if c.get("note"): out.append("- **Note.** " + c["note"])
    out.append("")
out += ["## Defects found", "", "Repaired (one `fix:` commit each in /repo) or recorded; from `known_findings.txt`:", ""]
for l in open(ROOT + "/known_findings.txt"):
    if l.strip(): out.append("- " + l.strip())
out += ["", "## Planted bugs and what catches them", "", "Each applies to /repo's HEAD, passes the 66 tests and has a demonstration. The last column is what the quick check of its property reported.", "", "| bug | property | needs | reported |", "|---|---|---|---|"]
cat = {}
if os.path.exists(ROOT + "/tools/catches.txt"):
    for l in open(ROOT + "/tools/catches.txt"):
        a = l.rstrip("\n").split("\t"); cat[a[0]] = a[1]
sd = ROOT + "/seeded"
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(sd + "/" + i + "/meta.json"))
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "\\|"), cat.get(i, "exit 1, VIOLATION property=" + m["property"]).replace("|", "\\|")))
out += ["", TAIL.rstrip(), ""]
open(ROOT + "/DESIGN.md", "w").write("\n".join(out))
