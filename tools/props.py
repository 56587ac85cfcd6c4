#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
V = "src/validate.h"; GG = "src/graph_gen.h"; GV = "src/graph_val.h"; RN = "src/rng.h"; SR = "src/secure_rng.h"
PN = "src/visualizer_png.h"; SV = "src/visualizer_svg.h"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- input side
p("V01", "Integer tokens: exactly the canonical decimals, exact value, half-open range",
  "Reading an integer succeeds exactly when the next token is 0, or a nonzero decimal without leading zeros and with an optional minus sign, whose value fits in 64 signed bits; the value delivered is the value written. With a range given, it is accepted exactly when it lies in [lower, upper). Every other token ends the program with the stream's configured failure verdict and nothing else (no other exit code, exception or hang).",
  ["inputs"], "every byte string as the next token (bounded: all strings over a 10-symbol alphabet up to length 6-7, and all windows around the 64-bit limits) and every pair of bounds on a boundary grid",
  "test/validate.cpp reads a handful of literals; it never reads a token that must be rejected, a value at a 64-bit limit or a value exactly at a bound.",
  [V], [("InputStream::integer, INTEGER_REGEX, details::parse", V)], observe=["InputStream::integer", "isInteger"])
p("V02", "Real tokens: accepted grammar, value, range and decimal count",
  "Reading a real succeeds exactly for an optionally signed decimal number with optional exponent (never NaN or Inf) and delivers its value; the strict form accepts exactly canonical plain decimals (no plus sign, no leading zeros, no exponent) whose number of decimals and value lie in the given half-open ranges. With the tolerant range check a value is rejected exactly when it is outside [lower, upper) and not within tolerance of either end. Every rejected token ends in the stream's configured verdict.",
  ["inputs"], "every token (bounded: all strings over {0,1,9,.,-,+,e,E,n,x} up to length 6-7), every bound pair and decimals window on small grids",
  "The tests read a few well-formed literals; rejection and the decimal-count and range edges are never exercised.",
  [V], [("InputStream::real, realStrict, REAL_REGEX, STRICT_REAL_REGEX", V)], observe=["InputStream::real", "InputStream::realStrict", "isReal"])
p("V03", "Whitespace and end-of-input protocol of a stream",
  "On a space-sensitive stream every byte must be accounted for: a program that reads tokens, spaces, newlines and end-of-input succeeds exactly when the input is literally the concatenation of what it asked for, so no superfluous, missing or different whitespace or trailing data is ever tolerated. On an insensitive stream the amount and kind of whitespace never matters: the outcome depends only on the sequence of tokens. A case-insensitive stream delivers tokens lower-cased and changes nothing else.",
  ["inputs", "histories"], "every input byte string over {a, B, 1, space, newline, CR, tab, control and high bytes} up to a length, times every sequence of read operations up to a depth, times all sensitivity settings",
  "Unit tests feed a few well-formed inputs; a whitespace tolerance bug shows only for particular combinations of malformed input and operation order.",
  [V], [("InputStream::string/space/newline/eof/noteof", V)], state=[("stream position", "how much of the input was consumed", V)], observe=["InputStream"])
p("V04", "A rejected token is reported at its true line and column",
  "When reading from a seekable input fails on a token or character, the report names the line (1-based) and column (0-based) at which the offending text starts, and prints an excerpt of that line, at most 80 characters wide, with a marker underneath that points at exactly the offending text within the excerpt. Reporting never turns a rejection into a crash or a different verdict.",
  ["inputs"], "every position of the fault in inputs of many line layouts and lengths (line lengths 0..220, token lengths 1..150, preceding lines 0..3) and every short input over a small alphabet",
  "No test looks at the report, and the excerpt windowing has several length-dependent cases.",
  [V], [("InputStream::fail", V)], observe=["judge message"])
p("V05", "Expected-value checks accept exactly equal values",
  "Demanding a particular string, integer or real accepts the next token exactly when it equals the demanded value - strings up to letter case when the stream is case-insensitive, reals within the stream's absolute or relative tolerance - and otherwise ends with the stream's failure verdict. Text that can never be a token is refused as a demand. Mismatches of any length and position are reported without crashing.",
  ["inputs", "configurations"], "all pairs (expected, seen) over small string alphabets and length grids up to 60 with the mismatch at every position, an integer boundary grid, and a real value grid times a tolerance grid",
  "expectReal and expectInt are not exercised at all by the tests, and expectString only on a few strings.",
  [V], [("InputStream::expectString/expectInt/expectReal", V)], observe=["InputStream"])
p("V06", "Multi-token reads equal the same reads done one at a time",
  "Reading a sequence of tokens with a separator has exactly the outcome (values, verdict, consumed input, logged constraints) of reading that many single tokens with the separator required between consecutive ones and none after the last; a separator other than space or newline is refused. This holds for strings, integers, reals and strict reals with every kind of argument list.",
  ["inputs", "histories"], "all inputs of up to 4 tokens from a small vocabulary joined by all separator choices, every count 0..4, both separators, all argument variants, both sensitivities",
  "Tests read one well-formed list per type and never compare against the one-by-one semantics on malformed lists.",
  [V], [("InputStream::strings/integers/reals/realsStrict, checkSeparator", V)], observe=["InputStream"])
p("V07", "Every validator role honours its process protocol",
  "An input, answer or output validator or interactor ends with status 42 exactly for an accepting verdict, 43 for faulty submission/contestant-side data and 1 for faulty jury-side data, and writes judge and team messages into the feedback directory given on its command line. The streams of each role are as strict as documented for that role, and the tolerance, case and space flags on the command line take effect on every stream they apply to and override settings made by the program.",
  ["inputs", "configurations", "histories"], "every role x every subset of command line flags x preset settings x a catalogue of inputs per stream x verdict paths, each in a fresh process",
  "Tests run in one process, link a single role and cannot observe exit codes or feedback files of init() with flags.",
  [V], [("init() of InputValidator, AnswerValidator, OutputValidator, Interactor, Generator; Verdicts", V)], observe=["process exit status", "judgemessage.txt", "teammessage.txt"])
p("V08", "Multipass: pass counter and state hand-over across runs",
  "Over any sequence of runs sharing a feedback directory, run number k (from 0) sees pass number k, reads as previous state exactly what run k-1 wrote as next state, and cannot disturb the state of earlier runs it reads. Requesting another pass ends the run accepting with nextpass.in holding exactly what was written for it in this run.",
  ["histories"], "all histories of up to 4 runs, each run choosing among several behaviours (state content, next-pass content, ending by NEXT or by a verdict), executed as real processes",
  "No test runs a multipass validator even once; the hand-over only shows over several processes.",
  [V], [("Multipass::init, Multipass::NEXT", V)], state=[(".pass/.state0/.state1", "persistent pass counter and alternating state files", V)], observe=["feedback directory", "Multipass::pass", "Multipass::prevstate"])
p("V09", "Constraint log reports true extremes and hit bounds",
  "For each named constraint the written constraints file reports exactly the smallest and largest value logged, the widest bounds under which values were logged (upper bound inclusive for integers), and whether each bound was reached by some value; constraints appear once, in order of first use, and unused ones not at all. Reusing a name for another kind of value is refused, and logging never alters what was read.",
  ["histories"], "all sequences of up to 4 log events over a small set of names, bounds and values of integer, real and string kinds",
  "Tests do not exercise the constraints file.",
  [V], [("Bounds, Constraint, ConstraintsLogger", V)], state=[("min/max/lower/upper/hadMin/hadMax", "aggregates per constraint", V)], observe=["file given by --constraints_file"])
p("V10", "Command line lookup returns exactly the parameters that follow a command",
  "Looking up a command yields its parameters up to the next argument starting with \"--\" (raw lookup: every following argument), found or not, with exact count, indexing and typed conversion; a missing command or parameter yields the given default or an error when there is none, and text that is not wholly a number of the requested type is an error. Giving the same command twice is refused.",
  ["inputs"], "all argument vectors up to length 4-5 over a vocabulary of commands, look-alikes (\"-\", \"--\", \"---x\") and parameters, times every lookup and accessor",
  "Tests query one or two fixed argument vectors.",
  [V], [("CommandParser, Command, Parameter, details::parse", V)], observe=["CommandParser"])
p("V11", "Floating point comparison obeys absolute-or-relative tolerance",
  "Two finite values compare equal exactly when their difference is within the absolute tolerance or within the relative tolerance of the expected value; NaN equals only NaN and an infinity only the same infinity; at-most and at-least hold exactly when the strict order or this equality does. A negative tolerance is refused.",
  ["inputs"], "all pairs from a grid of ~60 special and adjacent values times a grid of tolerances, against an independent exact reference",
  "Tests try a few pairs with the default tolerance.",
  [V], [("floatEqual, floatLess, floatGreater", V)], observe=["floatEqual", "floatLess", "floatGreater"])
p("V12", "Character classes, case mapping and string comparison",
  "Each character test holds exactly for the ASCII characters of its class for all 256 byte values; the string forms hold exactly when every character does and otherwise name an offending character; case mapping changes exactly the letters of the other case; the character constants hold exactly the characters of their class. Comparing strings reports equality modulo the selected case sensitivity and otherwise the position of the first difference.",
  ["inputs"], "all 256 byte values; all strings up to length 4-5 over a 7-symbol alphabet and all pairs of such strings up to length 3",
  "Tests sample a few characters.",
  [V], [("isLower..isConsonant, toLower/toUpper/toDefaultCase, stringEqual", V)])
p("V13", "Sequence predicates decide correctly and give a valid witness",
  "The permutation, adjacency, monotonicity and distinctness tests answer exactly what their names say for every sequence, whether called with a container or an iterator pair, and when negative the witness they give really shows the failure (a duplicate or out-of-range element; the length of the longest good prefix; for two sequences of equal length, an element of the first).",
  ["inputs"], "all integer sequences up to length 6-7 over small value ranges, all offsets on a grid including the ends of the integer type, all pairs of short sequences, several predicates",
  "Tests check a few sequences and never all adjacency helpers.",
  [V], [("isPerm, anyAdjacent/noneAdjacent/allAdjacent, are*", V)])
p("V14", "Sequence and container helpers construct exactly what they describe",
  "The integer range, Thue-Morse, append, flatten, function-view and priority-queue helpers produce exactly the described sequence for every admissible argument, including the ends of the integer type, and refuse inadmissible ones (zero step, empty Thue-Morse range).",
  ["inputs"], "all (from, to, step) on grids around 0 and both ends of the integer type; all Thue-Morse windows in [0,130] and near powers of two; all small nested containers",
  "Tests sample a few calls.",
  [V], [("range, thueMorse, append, flatten, asFunction, MinPQ/MaxPQ", V)])
p("V15", "Output formatting: separators only between elements, fixed precision",
  "Writing or joining a collection, pair, tuple, array, C string or brace list prints the elements in order with the separator between consecutive ones and nowhere else (none at all for the no-separator marker), nested collections with the default separator, reals in fixed notation with the configured precision and booleans as words. Joining a temporary container is safe to print later.",
  ["inputs"], "all vectors, lists, tuples, pairs, arrays and nested containers of up to 4 small elements x all separators, l-value and temporary, compared with a reference printer",
  "Tests print a few containers.",
  [V], [("OutputStream::operator<<, OutputStream::join, join", V)])
p("V16", "Initialisation happens exactly once and freezes the settings",
  "Settings can be changed freely before initialisation and never after it, initialising twice or using the multipass facility before initialisation is refused, and a program that never initialises does not end as if successful. Reading from a stream of a role that was not initialised is refused.",
  ["histories"], "all sequences of up to 4 actions (set each setting, initialise each role, use a stream, multipass-initialise, finish) executed in fresh processes",
  "A single test process can only initialise once.",
  [V], [("details::initialized, InitGuard, SettingBase", V)], state=[("initialized", "whether init() completed", V)])
p("V17", "A read depends only on the remaining input, not on delivery or history",
  "What a read operation returns or rejects depends only on the remaining input and its own arguments, never on earlier successful reads, on other streams, or on how the input was delivered (file, string or pipe delivering arbitrary chunks). In particular a stream read from a pipe gives the same verdict as the same bytes in a file.",
  ["inputs", "histories", "schedules"], "all chunkings of all short inputs delivered through a non-seekable source, and all interleavings of reads on two streams",
  "Tests only read from string streams in one piece.",
  [V], [("InputStream", V)])
# ---------------------------------------------------------------- math
p("V18", "A conversation with an interactor never stalls",
  "A read operation returns or rejects as soon as its token and the one character that ends it have been delivered: it never waits for more input, and nothing is read in advance. Everything an interactor has written to the team is delivered before the interactor waits for an answer (with or without explicit flush) and before it ends, so no conversation in which the team answers what it received can stall, and a wrong or missing answer ends it promptly with the right verdict and messages.",
  ["schedules", "histories", "inputs"], "every script of reads and writes up to a depth, run as a real process against a team that answers only what it has received; every short input fed byte by byte",
  "The tests read from complete strings in one process; waiting for too much input, or holding back output, only shows when the other side waits as well.",
  [V], [("InputStream reads, Interactor::init, OutputStream", V)], observe=["Interactor::toTeam", "Interactor::fromTeam"])
p("V19", "Overridden compile-time settings take effect everywhere and nowhere else",
  "Settings overridden before the include - default letter case, output precision, default tolerance, exit function, the fallback parser for reals, the constant LARGE - take effect in every place that depends on them (reading, comparing, printing, constraint files, comparison helpers, initialised roles, every path to a verdict) and change nothing else; in particular the fallback parser accepts the same reals with the same values.",
  ["configurations", "inputs"], "six combinations of settings, each compiled and explored over all short strings, all short real tokens, a grid of differences around the tolerance, all verdict paths",
  "The tests are compiled with the default settings only.",
  [V, "doc/validate.advanced.md"], [("namespace Settings", V), ("toDefaultCase, OutputStream::init, floatEqual, parse", V)])
p("V20", "What the library prints, its readers read back, and nothing else passes",
  "Every value the library prints - integers, reals, strings, pairs, tuples, joined ranges, generated sequences, graphs with data - is accepted by its own space-sensitive readers with the bounds it was generated for and yields the same value (reals up to the printed precision), with nothing left over; a printed graph read back has the same edges, data and properties. So a chain generator - input validator - answer validator - output validator accepts every generated instance, and each validator rejects exactly those changed files that break the format, never blaming a broken jury file on the team.",
  ["inputs", "histories", "faults"], "every printed form times every reader over boundary values, all engine histories over boundary words, all small graphs; every one-character change of the files of a chain of real processes",
  "The tests look at printing and reading separately, each on a few values.",
  [V, GG], [("OutputStream, join, InputStream", V), ("Graph output", GG)])
p("M01", "Modular arithmetic is exact for all 64-bit operands",
  "Modulo, modular product, power and inverse return the mathematically exact result in [0, mod) for every pair of signed 64-bit operands and every positive modulus, the inverse being -1 exactly when none exists; product, power and inverse refuse a non-positive modulus, power a negative exponent. Results are the same on builds without 128-bit arithmetic.",
  ["inputs", "configurations"], "all operands in a small box exhaustively (incl. all negatives) and all triples of a boundary grid spanning the 64-bit range, on 64-bit and 32-bit builds",
  "Tests use a few triples and 128-bit hosts.",
  [V], [("applyMod, mulMod, powMod, multInv", V)])
p("M02", "Primality and prime enumeration are correct over the whole integer range",
  "A number is reported prime exactly when it is prime, for every 64-bit integer including negatives; enumerating primes in a window returns exactly the primes in it, ascending, for windows anywhere in the range. Sign and absolute-difference helpers are exact.",
  ["inputs"], "all n up to 2*10^6 (quick) / 10^8 (thorough), all strong pseudoprimes to the small bases known below 2^64 in a list, windows around 2^31, 2^32, 2^62, 2^63; all small windows (lower, upper)",
  "Tests check a few numbers.",
  [V], [("isPrime, primes", V)])
p("M03", "Polygon predicates agree with their geometric definition",
  "The convex, strictly convex, simple and counter-clockwise (positive signed area) tests give the geometrically correct answer for every lattice polygon, and do not depend on which vertex the list starts from; too large coordinates are refused rather than giving a wrong answer.",
  ["inputs"], "all vertex sequences of length <=5 (quick) / 6 (thorough) on small lattices, degenerate ones included, also scaled to the largest allowed coordinates",
  "Tests use a few polygons; degenerate and touching configurations number in the hundreds of thousands.",
  [V], [("isConvex, isStrictlyConvex, isSimple, isCCW, cross", V)])
# ---------------------------------------------------------------- random
p("R01", "Random integers, bits and selections are exactly uniform over their range",
  "For every range the drawn integer lies in [lower, upper) and, the engine being uniform, every value has exactly equal probability (rejection included); bit, weighted choice, selection, shuffle and rotation likewise give every outcome exactly its stated probability. An empty range is refused.",
  ["inputs"], "all engine outputs partitioned into a grid that resolves every bucket boundary, for all ranges up to size 24 and boundary engine words for ranges up to 2^64; all choice sequences for shuffle/rotate/select of up to 5-6 elements; 64-bit and 32-bit builds",
  "A test can only sample a few seeded draws and cannot see bias or off-by-one at extreme engine outputs.",
  [V], [("Random::integer, bit, discrete, select, shuffle, rotate", V)])
p("R02", "Random reals stay inside their half-open interval",
  "Uniform, normal and exponential reals with bounds always lie in [lower, upper) and the unbounded ones in their natural support, for every output the engine can produce including all-zero and all-one words; invalid parameters are refused. Rescaling parameters (mean, deviation, rate) acts as the name says.",
  ["inputs"], "all pairs/triples of boundary engine words (all ones, single bits, zeros, runs) for a grid of parameters including extreme magnitudes",
  "The critical engine words have probability below 2^-60 and never occur in a test.",
  [V], [("Random::real, normal, exponential", V)])
p("R03", "Discrete distributions stay in their stated range",
  "Geometric, binomial, maximum, minimum and min-max draws always lie in the documented range for every engine output and every admissible parameter, and draws with degenerate parameters (probability 0 or 1, one trial, one value) give the forced value. For small parameters the probabilities produced are the exact ones of the distribution.",
  ["inputs"], "all sequences of engine words from a boundary set up to depth 4 for a parameter grid including extreme ranges; all choice sequences for maximum/minimum of up to 4 draws",
  "Out-of-range results need rare engine words or extreme parameters.",
  [V], [("Random::geometric, binomial, maximum, minimum, minmax", V)])
p("R04", "Random sequences are exactly the described objects, each equally likely",
  "Distinct values, permutations, repeated and sorted sequences always have the requested length, range, order and distinctness, and where the documentation promises equal probability every possible output has exactly equal probability. Unsatisfiable requests are refused.",
  ["inputs"], "the complete choice tree of the generator for all small parameter combinations (outcome counts compared exactly)",
  "A test draws a handful of samples; neither bias nor a rarely produced invalid object can be seen that way.",
  [V], [("Random::distinct, perm, multiple, increasing, decreasing, nonDecreasing, nonIncreasing", V)])
p("R05", "Permutations with prescribed cycles or fixpoints have exactly those",
  "A permutation requested with given cycle lengths has exactly this cycle type, one requested with fixpoints fixes at least these, for every offset and every engine behaviour; every such permutation is produced with exactly equal probability. Impossible requests are refused.",
  ["inputs"], "the complete choice tree for all cycle types and all fixpoint lists (repetitions included) for up to 5-6 elements and several offsets",
  "Tests draw a few samples and never repeat fixpoints.",
  [V], [("Random::perm(cycles), Random::perm(count, fix)", V)])
p("R06", "Random partitions, strings and bracket sequences are valid and uniform",
  "A random partition has the requested number of parts, each at least the minimum, and the exact sum; a random string has the requested length over the alphabet; a bracket sequence is balanced. Every possible object is equally likely, whatever the minimum; impossible requests are refused.",
  ["inputs"], "the complete choice tree for all small (n, k, min), strings over alphabets of up to 4 characters, bracket sequences up to n = 6 (exact probabilities)",
  "A test draws a handful of samples.",
  [V], [("Random::partition, string, bracketSequence", V)])
p("R07", "A random prime is a prime of the requested range whenever one exists",
  "A prime drawn from a range is prime and in the range, every prime in the range can be drawn and all are equally likely; a range without primes is refused and a range with primes is not, up to the bounded effort stated for sparse ranges.",
  ["inputs"], "all ranges within [0, 40] with the complete choice tree of the first accepted draw, ranges at the extremes of the integer type",
  "A test draws few primes from large ranges.",
  [V], [("Random::prime", V)])
p("R08", "Random point sets and polygons have the promised geometry",
  "A generated convex polygon has exactly n points, is convex and counter-clockwise, has coordinates strictly between -dim and dim and fills width and height; generated points in general position are n distinct points in the box with no three on a line. This holds for every parameter the function accepts.",
  ["inputs"], "all (n, dim) in a small box x all engine choice sequences within a deviation bound of several base streams; complete choice trees for the smallest parameters",
  "A degenerate polygon or a collinear triple needs particular draws; a test sees one stream.",
  [V], [("Random::convex, Random::nonCollinearPoints", V)])
p("R09", "Seeded generation is reproducible everywhere",
  "With the same seed and the same calls every build (compiler, language version, word size) produces the same values, re-seeding restarts the same stream, and a --seed argument has the same effect as seeding by hand; any 64-bit engine that can be constructed from a seed, including the engines of this repository, can be substituted as documented.",
  ["configurations", "histories"], "all sequences of up to 3 generator calls from a catalogue of all integer-valued generators x several seeds, compared across gcc/clang, C++17/20 and 32/64-bit builds and with a reference engine",
  "Tests compare nothing across builds; each run only checks itself.",
  [V, RN, SR], [("Random::seed, RandomEngine, ValidateBase::details::init", V)])
# ---------------------------------------------------------------- graphs
p("G01", "Graph editing operations implement a labelled multigraph",
  "After any sequence of adding, erasing, re-basing, appending, combining, copying, permuting and reversing, a graph has exactly the vertices, edges (with multiplicity, direction and data), degrees and edge count of a plain edge-list model. Queries, iteration ranges and printed form (shuffled or not) show exactly that graph; out-of-range vertices are refused.",
  ["histories"], "breadth-first search over operation sequences up to depth 4-5 on graphs of up to 3-4 vertices, directed and undirected, with and without edge data, with offsets; each state compared with a reference edge list",
  "There is no test for the graph generator at all.",
  [GG], [("GraphType::addEdge/eraseEdge/setMinId/combine/permutate/reverse/range/...", GG)], state=[("edge set, adjacency lists, minId", "redundant representations that must stay in step", GG)])
p("G02", "Derived graphs have exactly the edges of their definition",
  "Complement, power, transitive closure, line graph, the graph products, direction removal and reversal return exactly the graph of the mathematical definition (each edge once) for every input graph and leave the operand unchanged.",
  ["inputs"], "all graphs on up to 4 vertices (directed and undirected, loops where allowed) and all pairs of graphs on up to 3 vertices",
  "There is no test for the graph generator.",
  [GG], [("complement, power, transitiveClosure, lineGraph, product functions", GG)])
p("G03", "Named graph families are the graphs of that name",
  "Each constructor of a named graph (path, cycle, star, wheel, clique, bipartite, tree shapes, grids, cubes, and so on) yields exactly the textbook graph for every admissible size - vertex count, edge set, direction. Worst-case flow networks have the documented flow, need exponentially many augmentations and refuse sizes outside their documented bounds; a Pruefer code yields its tree.",
  ["inputs"], "every constructor for all parameter values up to the tens, directed and undirected variants, compared with an independent definition up to the documented numbering",
  "There is no test for the graph generator.",
  [GG], [("named constructors", GG)])
p("G04", "Random graphs satisfy their specification, uniformly where promised",
  "A random tree is a tree and every labelled tree is equally likely; a random graph with m edges has exactly m distinct admissible edges, each such edge set equally likely; with probability p each admissible edge has that probability; one with a degree sequence has exactly these degrees and an impossible sequence is refused; bipartite, tree-like and growing variants have their defining structure, and probability 0 or 1 gives the empty or complete graph. Shuffling a graph only relabels it.",
  ["inputs"], "the complete choice tree for up to 4-5 vertices; a grid of parameters with boundary engine words beyond",
  "There is no test for the graph generator.",
  [GG], [("randomTree, randomGraph, randomBipartite, randomGrowingGraph, ...", GG)])
p("G05", "Graph validation answers match the definition for every edge list",
  "While or after a graph is read edge by edge, the tests for connectedness, forest, tree, bipartiteness, acyclicity, loops and multi-edges, and the union-find, answer exactly per definition for every multigraph in every insertion order and with every vertex offset; witnesses they return (a side, an order, a root) are valid.",
  ["inputs", "histories"], "all edge sequences up to length 5-6 on up to 4 vertices (loops and repeated edges included), directed and undirected, several offsets; all union-find operation sequences",
  "There is no test for the graph validator.",
  [GV], [("Graph, DiGraph, UnionFind", GV)])
# ---------------------------------------------------------------- engines
p("E01", "The xoshiro engine follows its published recurrence and jumps correctly",
  "The engine's output stream equals the published xoshiro256** algorithm seeded as documented, for every seed, and a jump advances the state by exactly 2^128 steps. Copies continue the same stream independently.",
  ["inputs", "histories"], "linear algebra over the complete state space: all 256 basis states (the step and jump maps are linear) plus a grid of seeds and all operation sequences (draw, jump, copy) to depth 5",
  "There is no test for this engine; a jump error is invisible in its output distribution.",
  [RN], [("Xoshiro256ss", RN)])
p("E02", "The AES engine is AES-256 in counter mode with correct carries",
  "The block cipher matches AES-256 for every key and block (also at compile time), and the engine's output is derived from the encryptions of a 128-bit counter that advances by one per block across every carry and wrap, for every key, start value and seed. Copies continue the same stream independently; distinct positions never reuse a keystream block.",
  ["inputs", "histories"], "published vectors, all byte values in every position and all pairs of single bits of keys and blocks against an independent implementation, all counter carry boundaries, all operation sequences (draw, long draw, copy, assign) to depth 5",
  "There is no test for this engine; a carry error needs 2^32 or more blocks to show.",
  [SR], [("AES, AES_RNG", SR)])
# ---------------------------------------------------------------- visualizers
p("I01", "Image drawing changes exactly the pixels of the shape",
  "For every shape inside the image, every drawing operation paints exactly the pixels of its shape, each exactly once with the chosen blend mode, and touches no other pixel and no memory outside: filled rectangles with their border, lines (one pixel per step of the longer axis, within half a pixel of the ideal line, including both end points) and flood fills (exactly the connected region of equal colour). This also holds when the colour is taken from the image itself and after copies, moves and clears.",
  ["inputs", "histories"], "all rectangles in images up to 5x5, all lines in a 26x26 image, all flood fills of two- and three-colour images up to 12 pixels, all sequences of 3 of 25 operations, four blend modes",
  "There is no test for the visualizer.",
  [PN], [("PNG::fillRectangle, floodFill, drawLine, clear", PN)])
p("I02", "A written PNG file decodes to exactly the image",
  "The file written for an image is a valid PNG - signature, chunk order and lengths, checksums, compressed data - and decodes to exactly the image's size and pixels (y upwards), for every size including rows or data exceeding one deflate block. The file is written when the image is destroyed or write() is called, contains the last content, and nothing is written for an empty or unnamed image; Visualizer::init opens the test case files and names the image accordingly.",
  ["inputs", "histories"], "all sizes up to 20x20, all two-colour images up to 10 pixels, all bytes in all channels, sizes up to the row limit and beyond 2^16 rows; all sequences of 5 of 13 life cycle actions on two images; decoded by an independent reader",
  "There is no test for the visualizer.",
  [PN], [("PNGWriter, PNG::write, ~PNG, Visualizer::init", PN)])
p("I03", "SVG output is well formed and its view box covers what was drawn",
  "Every document written is well-formed, contains every drawn object exactly once, in order and with its coordinates (y upwards), colours and pens, and its view box is exactly the bounding box of the origin and everything drawn or included - however the output was chained, whatever text or comments are in between, and after moving the image. Printing an object changes no formatting state of the stream; comments never end early.",
  ["inputs", "histories"], "all six shapes over small and large coordinates with all pens, all sequences of 3 of 17 operations separately and all chained expressions, all comments up to 5 characters over a hostile alphabet; parsed by an independent reader",
  "There is no test for the visualizer.",
  [SV], [("SVG, shapes, Comment, Color output", SV)])
p("I04", "Colour arithmetic is exact and clamped in every channel",
  "Adding and subtracting colours clamps each channel to 0..255, multiplying gives the nearest byte of the clamped product for every factor, interpolation is within one unit of the exact value and exact at its ends, and blending is source-over compositing up to rounding; constructors and channel access give each channel its byte and refuse other channels. In both visualizer headers.",
  ["inputs"], "all 2^24 colours of the combined constructor, all byte pairs in all channels for sums and differences, all bytes times 870 factors from 2^-70 to 1e4000, all byte pairs at 49 interpolation factors, all pairs of alpha values on a colour grid",
  "There is no test for the visualizer.",
  [PN, SV], [("Color operators, lerp, clamp_color, blend", PN), ("Color operators, lerp, clamp_color", SV)])
if __name__ == "__main__":
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        print(json.dumps(x))
