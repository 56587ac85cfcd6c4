"""Which harness decides which property, and how it is compiled."""
VARIANTS = {
    "gcc17": ["g++", "-std=c++17", "-O2", "-D_GLIBCXX_ASSERTIONS"],
    "gcc17d": ["g++", "-std=c++17", "-O1", "-D_GLIBCXX_ASSERTIONS"],
    "gcc20": ["g++", "-std=c++20", "-O2", "-D_GLIBCXX_ASSERTIONS"],
    "gcc20d": ["g++", "-std=c++20", "-O1", "-D_GLIBCXX_ASSERTIONS"],
    "gcc17m32": ["g++", "-m32", "-msse2", "-mfpmath=387", "-std=c++17", "-O2", "-D_GLIBCXX_ASSERTIONS"],
    "gcc20asan": ["g++", "-std=c++20", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "gcc17asan": ["g++", "-std=c++17", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "clang17": ["clang++", "-std=c++17", "-O1", "-DDOUBLE_FALLBACK"],
    "clang20": ["clang++", "-std=c++20", "-O1", "-DDOUBLE_FALLBACK"],
}
DEFAULT_ASSUMPTIONS = [
    "the reference model in the harness states the property correctly",
    "values outside the stated alphabet and bounds are not covered",
    "compiler and C++ standard library behave per specification",
]
def compile_cmd(u, hdir, repo, exe):
    return (VARIANTS[u.get("variant", "gcc17")] + ["-w", "-g0"] + u.get("flags", []) +
            ["-I", repo + "/src", "-I", hdir, hdir + "/" + u["src"], "-o", exe] + u.get("libs", []))
def U(src, variant="gcc17", **kw):
    return dict(src=src, variant=variant, **kw)
CHECKS = {}
NOT_CLAIMED = {}
def C(id, units, technique, bounds, note=""):
    CHECKS[id] = dict(units=units, technique=technique, bounds=bounds, note=note)
C("V01", [U("v01.cpp")], "exhaustive enumeration of token strings on the real reader vs. a hand-written acceptor",
  "all tokens over {0,1,2,8,9,-,+,.,x,0x80} up to length 6 (thorough 7); +-40 windows around 2^31,2^32,2^62,2^63,2^64,10^18,10^19 with all single-character mutations; 34^3 (value,lower,upper) triples")
C("V02", [U("v02.cpp"), U("v02.cpp", "clang17", thorough_only=True)], "exhaustive enumeration of token strings on the real reader vs. a hand-written acceptor",
  "all tokens over {0,1,9,.,-,+,e,E,n,x} up to length 6 (thorough 7) for the lenient and the strict reader, every decimals window around the token's; 180 values x 81 bound pairs x 5 tolerances")
C("V03", [U("v03.cpp", slots=25)], "explicit-state exploration: every input x every read-operation sequence on the real stream vs. a reference automaton",
  "all inputs over {a,B,1,space,newline,tab,CR,0x01,0x80} up to length 5 (thorough 6) x all operation sequences up to depth 5 x 4 sensitivity modes; all inputs over {1,space,newline} up to length 9 (11) with sequences as long as the input")
C("V17", [U("v17.cpp", slots=24)], "exhaustive exploration of delivery schedules (all chunkings, all interleavings of two streams) on the real reader, differential",
  "all inputs over {a,B,1,space,newline,.} up to length 5 (thorough 6) x chunkings (all up to length 4, all <=2-chunk and byte-wise beyond) x all scripts of 3 out of 9 operations x 4 modes; files and moved streams up to length 4; all interleavings of 2+2 operations on 8x8 input pairs")
C("V04", [U("v04.cpp", slots=24)], "exhaustive enumeration of fault positions and line layouts; report parsed and compared with the raw input",
  "columns 0..130 x token lengths 1..130 x rest-of-line 0..100 (grid) x 0..2 preceding lines; every text over {x,1,space,newline,tab} up to length 7 (thorough 8) x every failing operation at every position")
C("V05", [U("v05.cpp")], "exhaustive enumeration of (seen, expected, settings) on the real reader vs. exact reference",
  "all string pairs over {a,A,b,0} up to length 3 x 4 modes, every mismatch position and length difference up to 60; 55x55 integers; 87x87 dyadic reals x 7x7 tolerances (exact boundary cases included)")
C("V06", [U("v06.cpp", slots=25)], "exhaustive enumeration, differential between batch and single reads on the real reader",
  "all inputs of up to 4 (thorough 5) tokens over {1,-2,0.5,ab,b,a11} and separators {space,newline,double space,tab} x 14 call variants x counts 0..4 x 2 separators x 2 modes; all 254 other separators")
C("V09", [U("v09.cpp", slots=24)], "exhaustive exploration of log-event histories on the real logger vs. an aggregate model",
  "all sequences of up to 3 (thorough 4) events over 37 event kinds (2 names, integer/real/string/container, in- and out-of-bound values), logged directly or through the reader; all 5- (6-) event sequences on one name")
C("V10", [U("v10.cpp", slots=23)], "exhaustive enumeration of argument vectors x all lookups and accessors vs. a list model",
  "all argument vectors up to length 4 (thorough 5) over a 13-word vocabulary x 9 lookups x all accessors; all number-like strings over {0,1,-,+,.,e,x} of length 2..6")
C("V11", [U("v11.cpp")], "exhaustive enumeration of value/tolerance tuples vs. exact 113-bit reference",
  "90x90 values (incl. zeros, subnormals, extremes, inf, NaN, neighbours of 1) x 11x11 tolerances incl. exact boundary cases, explicit and through the settings; invalid tolerances for every value pair")
C("V12", [U("v12.cpp")], "exhaustive enumeration vs. reference tables",
  "all 256 bytes, all 65536 byte pairs; all strings up to length 5 (thorough 6) over 9 symbols; all pairs of strings up to length 3 (4) over 7 symbols")
C("V13", [U("v13.cpp", slots=24)], "exhaustive enumeration of sequences vs. brute-force reference",
  "all sequences over 4 values up to length 7 (thorough 8) x 6 predicates x container/iterator/list forms x offsets incl. both ends of 6 integer types; all permutations of 6 with every single-element change; all pairs of sequences up to length 4 (5)")
C("V14", [U("v14.cpp")], "exhaustive enumeration of arguments vs. definition-level reference",
  "range: 50x50 end points (0 and both ends of the type) x 41 steps; thueMorse: all windows in [-2,300] (thorough 1100) and around every power of two; append/flatten/queues/views: all sequences up to length 4 over 3 values, pairs and triples of them")
C("V15", [U("v15.cpp"), U("v15.cpp", "gcc20asan", thorough_only=True)], "exhaustive enumeration of small values of 25 types x separators vs. a reference printer",
  "14 container types built from all index sequences up to length 4 (thorough 6) x 6 separators x named/temporary/iterator/asString forms; arrays, tuples, pairs, C strings, brace lists for all length-4 sequences; scalars and manipulators")
C("V07", [U("v07.cpp")], "exhaustive enumeration of roles x flags x settings x probes, each run as a real process",
  "4 roles x all 32 flag subsets x all 16 presets x every stream x 16 probe inputs (one process each; tolerance-independent probes not repeated for tolerance combinations in the quick tier); 5 roles x 4 verdicts x 6 channels x with/without message; all interleavings of 4 reads on a role's streams")
C("V08", [U("v08.cpp")], "exhaustive exploration of run histories of the real processes vs. a pass/state model",
  "all 2-run histories over 135 run behaviours (3 state contents x 3 next-pass contents x 5 endings x 3 read orders), all 4-run (thorough 5-run) histories over 8 behaviours, 24 histories of 24 runs; both roles")
C("V16", [U("v16.cpp")], "exhaustive exploration of action histories of the real process vs. a lifecycle automaton",
  "all sequences of up to 3 (thorough 4) of 14 actions (each setting, each role's init, stream uses, multipass) and those of length 4 (5) with 1-2 initialisations and at most 2 (1) setting changes, one process each")
C("M01", [U("m01.cpp"), U("m01.cpp", "gcc17m32")], "exhaustive enumeration of operand boxes vs. portable exact arithmetic, 64- and 32-bit builds",
  "mulMod/powMod: all operands in [-20,20] (thorough 40) x moduli [-2,25] (45); all triples of a 47-value boundary grid of the 64-bit range; multInv: all n in [-300,300] x mod up to 300 (700), grid pairs, residues around large moduli")
C("M02", [U("m02.cpp", slots=23), U("m02.cpp", "gcc17m32", slots=20)], "exhaustive enumeration vs. sieve and a proven deterministic primality reference",
  "all n < 4*10^6 (thorough 4*10^7); +-1000 around 22 boundaries; all p*(k(p-1)+1) with p below the sieve limit, k<=14; Carmichael numbers of the 6k+1 family; prime windows: all within [-3,130] (260), 40x9 around 9 magnitudes, ends of the 64-bit range")
C("M03", [U("m03.cpp")], "exhaustive enumeration of lattice polygons vs. definition-level brute force",
  "all vertex sequences (repetitions allowed up to length 5, distinct beyond) on 3x3 up to length 7 (thorough 9), 4x3 up to 6 (7), 4x4 up to 5 (6), 5x5 up to 4 (5), 5x2, 3x2, 2x2 lattices, stretched to the coordinate limit and mirrored; all cyclic orders of four 7- (8-) point sets; all cyclic shifts")
C("R01", [U("r01.cpp"), U("r01.cpp", "gcc17m32", slots=20)], "exhaustive exploration of the engine's choices: exact preimage counts per outcome",
  "all ranges of up to 130 (thorough 1030) values at 12 offsets, every value's preimage counted exactly; ranges around every power of two up to 2^64-1; bit as GF(2)-affine function over the full word space; complete choice trees for select/rotate (12 elements), shuffle (5, thorough 6), 13 weight vectors; 64- and 32-bit builds")
C("R02", [U("r02.cpp"), U("r02.cpp", "gcc17m32", slots=20, thorough_only=True)], "exhaustive exploration of boundary engine words and of a quantile grid of engine histories",
  "all pairs of 260 boundary words (zeros, ones, single bits, runs) resp. all 4-tuples of 14 (thorough 21) for 70 parameter sets incl. extreme magnitudes; the resulting law on complete quantile grids (4000 resp. 400^2, thorough 1000^2 engine histories) within 0.6 percent; all invalid parameter combinations of 7 special values")
C("R03", [U("r03.cpp")], "exhaustive exploration of boundary engine words and complete choice trees",
  "all pairs of 260 boundary words (all 3-/4-tuples of 14, thorough 19) x 15 probabilities x 12 ranges, 13 binomial sizes x 17 probabilities, maximum/minimum/minmax on 12 ranges up to the full 64-bit range x 10 counts; exact law of maximum/minimum for up to 7 values and 4 draws; laws on complete quantile grids (4000, 400^2, 100^3, 30^4)")
C("R04", [U("r04.cpp")], "exhaustive exploration of the complete choice tree, exact outcome counts",
  "7 generators x all (count <= 5, thorough 6; range size <= 8) with a choice tree of up to 6*10^6 (8*10^7) leaves x 5 offsets incl. both ends of the type; permutations of up to 5 (6); 14 large/extreme parameter sets x all pairs of 90 and 4-tuples of 9 boundary words; all impossible requests up to count 7")
C("R05", [U("r05.cpp")], "exhaustive exploration of the complete choice tree, exact outcome counts",
  "all compositions of n <= 5 (thorough 6) into cycle lengths x up to 7 offsets; all fixpoint lists (repetitions, any order) of up to 4 entries for n <= 5 (6) x up to 7 offsets incl. both ends of the type, complete choice trees (60^4, thorough 60^5 histories); 16 larger requests under all pairs/4-tuples of boundary words; all invalid requests for n <= 4")
C("R06", [U("r06.cpp", slots=20)], "exhaustive exploration of the complete choice tree; bisection for exact branch probabilities",
  "all partitions with n <= 10 (thorough 11), every k and min in [-2,4]; 18 extreme partitions; 7 alphabets x length <= 4; bracket sequences: every prefix for n <= 7 (8) with the exact probability of each branch, validity up to n = 1000 under pairs/4-tuples of boundary words; all impossible requests on a small box")
C("R07", [U("r07.cpp")], "exhaustive exploration of engine choices per accepted draw",
  "all ranges within [-6,60] (thorough [-6,150]), complete grid of the accepting draw (exact counts), up to 2 missed trials before each; 28 wide/extreme ranges x 4*260 boundary words; 20 empty ranges x 260 words")
C("R08", [U("r08.cpp")], "exhaustive exploration of engine histories within a deviation bound, geometry checked by definition",
  "convex: every (n, dim <= 6, thorough 9) x base streams x all histories deviating in up to 2 (smallest: 3) of the first 14-20 draws by 8 extreme words; nonCollinearPoints: every (n < dim <= 14, thorough 24) likewise; 21 large parameter sets; all refused parameters on a small box")
C("G05", [U("g05.cpp")], "explicit-state exploration: every edge-insertion history on the real graph validator vs. definitions",
  "after every prefix of every edge sequence (loops, repetitions) up to length 6 on <=3 (thorough 7-8), 5 (6) on 4, 4 (5) on 5 vertices, several offsets; all simple graphs on 5-6 (7) and digraphs on 4 (5; a third of them in the quick tier) vertices in three insertion orders; all functional parent arrays up to 6 (7) vertices; all union-find histories up to length 4-5 (6) on <=6 elements; paths and stars of 10^5..10^6 vertices")
C("G01", [U("g01.cpp", "gcc20"), U("g01.cpp", "gcc20asan", thorough_only=True)], "explicit-state exploration: every operation history replayed on the real graph vs. an edge-list model",
  "all histories of up to 3 (thorough 4) of 37 operations (add, erase, re-base, permute, combine, append, range, copy, data writes, reverse, refused requests) and up to 5 (6) of 12 core operations; undirected/directed x no data/Integer/string data; 2-4 initial graphs; every query, view, window and printed form compared after each history")
C("G02", [U("g02.cpp", "gcc20")], "exhaustive enumeration of graphs and pairs of graphs vs. the definitions",
  "complement, power (all k), transitive closure, line graph, direction changes: all undirected graphs on up to 5 (thorough 6) and digraphs on up to 4 (5) vertices x 3 id offsets x 4 insertion orders x with/without data; products: all pairs of graphs on up to 3-4 (undirected) and 3 (directed) vertices x 3 offset pairs")
C("G03", [U("g03.cpp", "gcc20")], "exhaustive enumeration of family parameters vs. independent definitions",
  "13 families (directed and undirected, with and without data) for all sizes up to 90 (thorough 160), cubes and lattices up to dimension 9 (12), rado prefixes up to 3290 (5460), trees up to 6000 vertices with arity 0..6; every pruefer code up to length 5 (6); flow networks for every admissible n: exact maximum flow, and augmentation counts of Ford-Fulkerson (n <= 13, 16) and successive shortest paths (n <= 8, 10)")
C("G04", [U("g04.cpp", "gcc20")], "exhaustive exploration of the complete choice tree, exact outcome counts",
  "randomTree up to 7 (thorough 8) vertices, randomGraph/randomBipartite with m edges (all parameters with a choice tree of up to 3*10^6 resp. 3*10^5 leaves), the complete edge numbering (m=1) for up to 59 (89) vertices, directed and undirected, exactly uniform; p: edge-count law on complete quantile grids for up to 3 possible edges, exact for p=0,1; all degree sequences over [-1,n] for n <= 6 (7); permutations, edge orders, subgraphs of graphs with up to 3 edges; everything else under all tuples of 9 boundary words")
C("E01", [U("e01.cpp"), U("e01.cpp", "clang20", thorough_only=True), U("e01.cpp", "gcc17m32", thorough_only=True)], "explicit-state checking of the GF(2)-linear model (step matrix raised to 2^128) bound to the real engine by replaying basis states and operation histories",
  "all 256 basis states, all sums of two (thorough: three), their complements, all 4-tuples of 11 boundary words; 3*2^16 (3*2^20) seeds and all seeds with one or two (un)set bits; all histories of 6 (thorough 8) operations (draw, jump, copy, assign) from 4 seeds; streams of 2*10^6 (2*10^7) draws")
C("E02", [U("e02.cpp"), U("e02.cpp", "clang20", thorough_only=True), U("e02.cpp", "gcc17m32", thorough_only=True)], "exhaustive enumeration of counter states, key/block patterns and operation histories vs. an independent FIPS-197 model",
  "5 published vectors; every byte value at every key and block position on 3 backgrounds, 256^2 constant keys x blocks, all pairs of single bits; every carry chain length 0..16 x neighbouring byte values, runs of 2^17 (thorough 2^20) blocks; 4*2^15 (4*2^18) seeds; all histories of 5 (7) operations (draw, 255 draws, copy, assign) from 4 seeds")
C("R09", [U("r09.cpp"), U("r09.cpp", "gcc17", flags=["-DENG=1"]), U("r09.cpp", "gcc17", flags=["-DENG=2"]), U("r09.cpp", "clang20", flags=["-DENG=2"], thorough_only=True), U("r09.cpp", "gcc17m32", flags=["-DENG=1"], thorough_only=True)],
  "exhaustive exploration of seeded call histories, differential across six builds of the real code and against the plain engine",
  "all histories of 3 calls out of 42 (32-bit builds: 2, thorough 3) and of 3 graph calls out of 13 from 4 seeds, replayed in two orders and compared between gcc/clang, C++17/20, -O1/-O2, 64/32 bit; 24 (thorough 72) seeds x every preceding call x 50 raw draws; 5 roles x 7 --seed values x all positions among 4 argument lists x seeding by hand before/after/not at all; engines mt19937_64, Xoshiro256ss, AES_RNG")
C("I01", [U("i01.cpp", "gcc17d", slots=23), U("i01.cpp", "gcc20asan", slots=23, thorough_only=True)], "exhaustive enumeration of shapes and operation histories on the real image vs. a per-pixel model",
  "rectangles: all corner pairs in all images up to 5x5 (thorough 6x6) x 4 blend modes x with/without border; lines: all end-point pairs in 26x26 (40x40) plus images up to 3063 wide, and all modes up to 6x6; flood fills: all images over 2-3 colours up to 12 (16) pixels x all starts x 4 modes x 4 colours; all histories of 3 (4) of 25 operations incl. copy, move, swap; colours given by reference to the image")
C("I02", [U("i02.cpp", "gcc17d"), U("i02.cpp", "gcc20asan", thorough_only=True)], "exhaustive enumeration of images and life-cycle histories on the real writer vs. an independent PNG/inflate decoder",
  "all sizes up to 20x20 (thorough 40x40) x 4 patterns; all two-colour images of up to 10 (12) pixels; all bytes in all channels; widths up to 16383, up to 70000 rows; all histories of 5 (6) of 13 actions (construct, draw, write, copy, assign, move, destroy) on two images; 48 runs of the program frame")
C("I03", [U("i03.cpp", "gcc17d"), U("i03.cpp", "gcc20asan", thorough_only=True), U("i03.cpp", "clang20", thorough_only=True)], "exhaustive enumeration of shapes and drawing histories on the real document vs. an independent XML reader and a model",
  "6 shapes over 5 (thorough 8) small and 7 large coordinates, all pens; all histories of 3 (4) of 17 operations, separate and chained in one expression; every byte in every colour channel x 6 stream states; all comments up to 5 (6) characters over 7; 18 runs of the program frame")
C("I04", [U("i04.cpp", slots=23), U("i04.cpp", slots=23, flags=["-DSVG_"]), U("i04.cpp", "clang17", slots=23, thorough_only=True), U("i04.cpp", "gcc17m32", slots=23, thorough_only=True)], "exhaustive enumeration of operands vs. exact arithmetic",
  "all 2^24 combined constructor values; all byte pairs x channel for + and -; 256 bytes x channel x 870 factors; 256^2 pairs x 49 interpolation factors; blend: 256^2 alpha pairs x 20^2 (thorough 60^2) colours")
C("V18", [U("v18.cpp"), U("v18d.cpp", slots=23)], "exhaustive exploration of conversation scripts between a real interactor process and an explorer playing the team, plus demand-driven delivery of every input to every pair of reads",
  "all scripts of up to 4 (thorough 5) of 9 operations (writes with and without flush, prompts, messages, reads, batch reads, end of input) x 2 modes x valid/invalid/missing last answer x 4 program ends, answers whole or byte by byte, one process each; all inputs over {1,a,space,newline,.,0x01} up to length 6 (7) fed byte by byte x all pairs of 14 operations x 2 modes")
C("V19", [U("v19.cpp", flags=["-DCFG=%d" % k]) for k in range(6)] + [U("v19.cpp", "clang20", flags=["-DCFG=%d" % k], thorough_only=True) for k in (1, 4, 5)], "exhaustive enumeration of settings combinations x inputs vs. a reference parameterised by the settings",
  "6 combinations of settings; all strings of up to 3 of 6 characters and all pairs of them; all tokens of up to 6 (thorough 7) of 8 characters as reals; 17x17 reals x 8 ways of printing; 7 reference values x 48 differences around the tolerance; 7 exit codes x 8 inputs x 2 modes x 10 reads; role initialisation with and without flags")
C("V20", [U("v20p.cpp"), U("v20.cpp", "gcc20"), U("v20.cpp", "gcc20asan", thorough_only=True)], "exhaustive enumeration of values, engine histories and graphs, printed and read back on the real code; exhaustive single-fault exploration of a chain of real processes vs. hand-written acceptors",
  "all pairs of 67 boundary integers x 5 ways of printing and reading, 52 reals x 19 precisions and all pairs, all pairs of strings up to length 3; all triples of 11 engine words x 8 ranges x 9 generators; all graphs on up to 4 vertices (directed up to 4) x 3 id offsets x 3 data types, shuffled, permuted and reversed; 11 graph families up to 8 vertices; process chains for 4 sizes x 60 (thorough 300) seeds, every one-character deletion, substitution, insertion and swap of the input and the output of 24 (160) of them")
