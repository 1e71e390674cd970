"""What each property's check runs: monitor sources, configurations x seeds x scale per tier, and how cases are made."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen_c06, wholerun, c32run, c34run, c35run
Q = [("dbg-asan", 1, 1.0), ("rel-O2", 1, 4.0)]
T = [("dbg-asan", 6, 4.0), ("dbg-clang-san", 4, 4.0), ("rel-O2", 8, 20.0), ("rel-O3", 2, 20.0), ("rel-clang", 4, 20.0), ("dbg-O0", 2, 8.0), ("rel-asan", 2, 4.0)]
# scale of the comparison-guided search of each property (quick; thorough runs more seeds at ten times the scale)
GUIDED_SCALE = {'C01': 8, 'C02': 8, 'C03': 40, 'C04': 8, 'C05': 8, 'C06': 20, 'C07': 12, 'C08': 12, 'C09': 10, 'C10': 10, 'C11': 10, 'C12': 10, 'C13': 12, 'C14': 12, 'C15': 8, 'C16': 4, 'C17': 5, 'C18': 5, 'C19': 10, 'C20': 10, 'C21': 10, 'C22': 5, 'C23': 8, 'C24': 8, 'C25': 15, 'C26': 8, 'C27': 6, 'C36': 8}
PROPS = {}


def P(id, src, rule, **kw):
    PROPS[id] = dict(src=src if isinstance(src, list) else [src], rule=rule, quick=kw.pop("quick", Q), thorough=kw.pop("thorough", T), **kw)


P("C01", "c01.cpp", "random and structured operands (equal components, signed zeros, denormals, infinities, NaN, raw bit patterns) for every operator form of every float vector; a case is distinct by operator and operand bits")
P("C02", "c02.cpp", "random and extreme integer operands, completed per component so that the scalar operation is defined, for every operator form; distinct by operator and operand bits")
P("C03", "c03.cpp", "the complete truth tables of every boolean operator form and reduction, plus random chains of compound operations against a bit-set model; distinct by operand pattern or chain", thorough=[(c, n, s) for c, n, s in T])
P("C04", "c04.cpp", "all pairs of a grid with the extreme integers, random pairs with a shared prefix, triples for transitivity, and random insert/erase/lookup histories on ordered containers against a reference; distinct by keys and history prefix")
P("C05", "c05.cpp", "random and structured values of every hashable type, sign-of-zero twins, single-component changes, and random histories on hash containers against a reference; distinct by value bits and history prefix")
P("C06", [], "every name of the three alphabets for every vector type, each with random and structured vectors: read, write, compound assignment, increments, copies between names, swizzle reads in every use; distinct by accessor, operation and operand bits", gen=gen_c06.generate)
P("C07", "c07.cpp", "every constructor, conversion, make_*, value_ptr and index form with random and structured component values (raw float bit patterns, extreme integers), compared component by component with where the arguments belong; distinct by form and result bits")
P("C08", ["c08a.cpp", "c08b.cpp", "c08c.cpp", "c08d.cpp", "c08e.cpp"], "every overload of every component-wise function with random and structured arguments (special values in single lanes, lanes shared between arguments), each component against the scalar function on that component; distinct by overload and argument bits")
P("C09", "c09.cpp", "a seed-chosen residue class of all 2^32 bit patterns plus halves, integers and their neighbours for one-argument functions, random and related arguments for the others, integer extremes; distinct by function and argument bits", thorough=[("dbg-asan", 2, 2.0), ("rel-O2", 16, 20.0), ("rel-clang", 4, 20.0), ("rel-O3", 2, 20.0), ("dbg-O0", 2, 4.0)])
P("C10", "c10.cpp", "a seed-chosen residue class of all 2^32 bit patterns, values near zeros, poles, limits and domain edges, and uniform values of the useful range for every function; distinct by function and argument bits", thorough=[("dbg-asan", 2, 2.0), ("rel-O2", 16, 20.0), ("rel-clang", 4, 20.0), ("rel-O3", 2, 20.0), ("dbg-O0", 2, 4.0)])
P("C11", "c11.cpp", "vectors over scales 1e-14 to 1e14 (small integers, unit, outliers) with second operands equal, opposite, nearly parallel, nearly equal or independent; distinct by operation and operand bits")
P("C12", "c12.cpp", "structured integer and float vectors (bit-separated parts, primes, ties, negative-only, infinities and NaN in single lanes); distinct by operation and operand bits")
P("C13", "c13.cpp", "incident vectors (parallel, grazing, general), unit normals (axes, near-axes, general), index ratios around the critical angle, integer vectors with exactly zero dot product; distinct by operation and operand bits")
P("C14", "c14.cpp", "vectors near axes, planes and diagonals, denormal components, scales 1e-18 to 1e18, and unit vectors around the helper's internal fold; distinct by operand bits")
P("C15", "c15.cpp", "unit vectors of both hemispheres, the equator, poles and seams, and points of the square including borders and diagonals; distinct by operand bits")
P("C16", "c16.cpp", "elementwise operators on any bit patterns; products and divisions of moderate matrices (integer, diagonal, permutation, triangular, nearly dependent columns, Gaussian) and vectors, also aliased; integer-valued chains of compound operations against a model; distinct by operator and operand bits")
P("C17", "c17.cpp", "matrices of every structure (integer, diagonal, permutation, triangular, nearly dependent columns, Gaussian, mixed magnitudes) of every size; distinct by function and matrix bits")
P("C18", "c18.cpp", "general, affine and identity matrices with moderate vectors, every angle range, axes of length 1e-10 to 1e10, and chains of six builders; distinct by builder and argument bits")
P("C19", "c19.cpp", "eyes 0 to 1e4 from the origin, targets 1e-2 to 1e4 away, up vectors of any length from perpendicular to nearly parallel (sine 0.01), axis-aligned and integer cases; distinct by handedness and argument bits")
P("C20", "c20.cpp", "boxes centred, off-centre, integer and swapped; fields of view 0.01 to 3.13, aspects 0.01 to 100, far/near ratios 1.01 to 1e5 and reversed; distinct by builder and argument bits")
P("C21", "c21.cpp", "translation times rotation (small, general, near half turns, axis-aligned) times scale (equal, signs only, mixed, 1e-10 to 1e10), rounded to float; distinct by matrix bits")
P("C22", "c22.cpp", "elementwise forms on any bit patterns; products, inverses and rotations of quaternions of length 1e-6 to 1e6 and unit quaternions (small turns, half turns, axis-aligned), aliased forms; integer-valued chains against a model; distinct by form and operand bits")
P("C23", "c23.cpp", "unit quaternions of every kind (small turns, near half turns, axis-aligned, gimbal-locked and nearly so, products a few roundings from unit length), rotation matrices rounded to float, angles of every range; distinct by conversion and argument bits")
P("C24", "c24.cpp", "pairs of vectors equal, opposite, nearly so and independent with lengths 1e-8 to 1e8; unit directions with up vectors from perpendicular to nearly parallel; distinct by argument bits")
P("C25", "c25.cpp", "pairs of unit quaternions equal, of opposite sign, close, half a turn apart and independent, parameters 0, 1, near both ends and uniform; arbitrary quaternions for the linear forms; distinct by function and argument bits")
P("C26", "c26.cpp", "channels uniform, logarithmic, on the 8-bit grid and around the joints of the curve, exponents 0.25 to 8, any alpha bits, inputs outside [0, 1] for the clamping form; distinct by form and argument bits")
P("C27", "c27.cpp", "every constant; whole degrees, uniform and random-bit angles for both conversions in every overload; distinct by conversion and argument bits")

API = "every callable entry of the public interface (enumerated from the headers with clang's AST, plus each accessor; cases a comparison-guided search found for rarely taken branches included), "
P("C28", [], API + "with seeded arguments in its domain, stored in exact-size heap blocks at every 4-byte alignment, between guard bytes and against unmapped pages; distinct by entry and argument bits", runner=wholerun.run_c28,
  technique="runtime monitoring: AddressSanitizer, UBSan and MemorySanitizer runs of the whole interface, guard bytes and unmapped pages around every operand, comparison of runs with differently filled uninitialised storage")
P("C29", [], API + "called in several orders in separate processes, repeated with other values in between, from other storage, on a dirtied stack, with aliased arguments and non-default floating-point control state; distinct by entry and argument bits", runner=wholerun.run_c29,
  technique="runtime monitoring: history and storage comparison monitor over result logs of reordered, interleaved and aliased calls, argument and control-state observers")
P("C30", "c30.cpp", "every index type (const and not) with every valid index and with indices from the size up to the largest, null and valid pointers, interpolation parameters at, near and beyond both ends and NaN; each call in its own child process, operands against an unmapped page; distinct by operation and argument", quick=[("dbg-O0", 1, 1.0), ("dbg-clang", 1, 0.5), ("rel-O2", 1, 1.0)], thorough=[("dbg-O0", 4, 20.0), ("dbg-clang", 4, 20.0), ("dbg-nosw", 2, 10.0), ("rel-O2", 4, 20.0), ("rel-clang", 2, 10.0), ("rel-nosw", 2, 10.0)],
  technique="runtime monitoring: fault injection of invalid arguments, termination status of one child process per call")
P("C31", [], API + "with the same seeded arguments in each configuration; distinct by entry and argument bits", runner=wholerun.run_c31,
  technique="runtime monitoring: offline comparison of result logs of one seeded workload recorded in every build configuration")
P("C32", [], "each public header alone in every standard, compiler and switch, ordered pairs and random permutations, random multi-file programs, for each header a program naming every function it declares, and programs calling every declared function; distinct by program text, compiler, standard and switches", runner=c32run.run,
  technique="runtime monitoring: generated client programs compiled, linked and executed; compiler, linker and exit statuses are the oracle")
P("C33", [], API + "called by six threads at once on their own objects and on shared read-only objects, with injected yields; distinct by entry, arguments and thread", runner=wholerun.run_c33,
  technique="runtime monitoring: ThreadSanitizer and stress runs of the whole interface, results compared with calls made alone")
P("C34", [], "runs of the generator: random choices from seeded and extreme random numbers, eight forms of the path, leftovers of five kinds, wrong arguments, unwritable files, and faults injected at each opening, write and close; the projects are built by their own scripts and every generated function's entries are counted; distinct by kind of run and its parameters", runner=c34run.run,
  technique="runtime monitoring: system-call event log and fault injection by preloaded interposer, before/after file tree comparison, sanitizer build, call counting in the built projects")
P("C35", [], "every declaration the tool prints for every size and length, and every name of one to four letters of each alphabet (plus mixed and longer names) probed on every vector type; distinct by declaration or name", runner=c35run.run,
  technique="runtime monitoring: complete comparison of the tool's output and of the accessors a compiled program can name against the exact sets; generated programs executed")
P("C36", ["c36.cpp", "c36a.cpp", "c36b.cpp", "c36c.cpp"], "random and structured arguments of every scale for every operation both libraries offer, inside the domain where both define it; distinct by group of operations and argument bits",
  technique="runtime monitoring: differential execution against an independent implementation of the same interface, with sanitizers")

for _p, _s in GUIDED_SCALE.items():
    PROPS[_p]["quick"] = PROPS[_p]["quick"] + [("guided", 1, float(_s))]
    PROPS[_p]["thorough"] = PROPS[_p]["thorough"] + [("guided", 4, 10.0 * _s)]
    PROPS[_p]["rule"] += "; in the guided configuration inputs are further mutated towards both outcomes and the boundary of every comparison the library executes"
