#!/usr/bin/env python3
"""Writes properties.jsonl (the one place the property texts are kept)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
L = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(d["title"]) <= 80, d["title"]
    L.append(d)


IN = ["inputs"]

p("C01", "Float vector operators act component by component, bit for bit",
  """For two-, three- and four-component float vectors every arithmetic operator form offered (vector with vector, vector with scalar on either side, compound assignment, unary plus and minus, prefix and postfix increment and decrement) gives in each component exactly the value the single-precision scalar operation gives, for all operands including signed zeros, denormals, infinities and NaN.
  Two vectors are equal exactly when every pair of components compares equal, and inequality is the negation of equality.
  Using one object as both operands, or one of its own components as the scalar operand, gives the same result as using separate copies.""",
  IN, "all operand values, all operator forms, aliased and separate operands",
  "the tests use one pair of small operands per operator, so a swapped component, a reassociated division or an aliasing mistake on other values passes",
  ["src/vec2.cpp", "src/vec3.cpp", "src/vec4.cpp", "include/zcm/detail/impl_op_macro.hpp"],
  [("operator macros", "include/zcm/detail/impl_op_macro.hpp"), ("operator definitions", "src/vec2.cpp, src/vec3.cpp, src/vec4.cpp")],
  ["results of the operators on vec2, vec3, vec4"])

p("C02", "Integer vector operators act component by component",
  """For two-, three- and four-component integer vectors every arithmetic, remainder, bitwise and shift operator form offered (vector with vector, vector with scalar on either side, compound assignment, unary, prefix and postfix increment and decrement) gives in each component exactly what the 32-bit signed scalar operation gives, wherever that scalar operation is defined.
  Equality holds exactly when all components are equal, and converting to a boolean vector gives true exactly for the non-zero components.
  Using one object as both operands, or one of its own components as the scalar operand, gives the same result as using separate copies.""",
  IN, "all operand values for which the scalar operation is defined",
  "the tests try one or two small operand pairs per operator; several declared four-component forms were never exercised",
  ["src/ivec2.cpp", "src/ivec3.cpp", "src/ivec4.cpp", "include/zcm/detail/impl_op_macro.hpp"],
  [("operator macros", "include/zcm/detail/impl_op_macro.hpp"), ("operator definitions", "src/ivec2.cpp, src/ivec3.cpp, src/ivec4.cpp")],
  ["results of the operators on ivec2, ivec3, ivec4"])

p("C03", "Boolean vector logic matches its truth table",
  """For two-, three- and four-component boolean vectors, not, and, or, exclusive-or (vector with vector, vector with scalar on either side, and compound assignment), equality and inequality, component-wise equal and not-equal, and the all/any reductions give exactly the values of the scalar truth tables, component by component.
  Results are always proper booleans and operands are left unchanged.""",
  IN, "every operand value (the whole space is finite)",
  "the tests check a few rows of the tables and sample few sizes",
  ["src/bvec2.cpp", "src/bvec3.cpp", "src/bvec4.cpp", "src/common.cpp"],
  [("boolean operators", "src/bvec2.cpp, src/bvec3.cpp, src/bvec4.cpp"), ("all, any, equal, notEqual", "src/common.cpp")],
  ["results of the operators and reductions on bvec2, bvec3, bvec4"])

p("C04", "Integer vector comparison is one strict total order",
  """The ordering comparisons of integer vectors of each size compare lexicographically from the first component on, so that for any two vectors exactly one of less, equal and greater holds, less is transitive, and the four comparison operators agree with each other and with equality.
  Sorting, ordered sets and ordered maps keyed by integer vectors therefore keep every distinct key and find every stored one.""",
  ["inputs", "histories"], "all pairs and triples of vectors, and all insertion, lookup and removal sequences on ordered containers",
  "the tests compare a handful of pairs; a comparison that is inconsistent only on some pairs corrupts ordered containers without failing them",
  ["src/ivec2.cpp", "src/ivec3.cpp", "src/ivec4.cpp"],
  [("operator<, <=, >, >=", "src/ivec2.cpp, src/ivec3.cpp, src/ivec4.cpp")],
  ["comparison results", "contents of std::map and std::set keyed by ivec2, ivec3, ivec4"])

p("C05", "Equal values have equal hashes and every component counts",
  """For every hashable type (scalars, boolean, integer and float vectors, quaternions and matrices), two values that compare equal, including values that differ only in the sign of a zero, have the same hash, and the standard-library hash object returns the same number as the library's hash function.
  No component is ignored: for boolean and integer types any change of one component changes the hash, and for float types some change of each component changes it whatever the other components are (up to rare coincidences).
  Hash sets and hash maps keyed by these types find every stored key and no other.""",
  ["inputs", "histories"], "all values, and all insertion, lookup and removal sequences on hash containers",
  "no test covers hashing at all",
  ["src/hash.cpp", "include/zcm/hash.hpp"],
  [("hash overloads", "src/hash.cpp"), ("std::hash specialisations", "include/zcm/hash.hpp")],
  ["hash values", "contents of std::unordered_map and std::unordered_set"])

p("C06", "Named components and swizzles read and write the components they name",
  """Every named component (in the position, colour and texture naming) of the float and integer vectors reads the component it names, and assigning to it, compound-assigning, incrementing or decrementing it changes that component only, exactly as the scalar operation would.
  Every swizzle reads the named components in the named order, on constant and changeable vectors and wherever a vector of that size is expected.
  Assigning a named component or swizzle from the same or another one, of the same or of another vector, copies just the components it names.""",
  ["inputs", "programs"], "every accessor name of every vector type, with all component values",
  "the tests touch a small part of the more than one thousand accessor names",
  ["include/zcm/detail/vec2_access.hpp", "include/zcm/detail/vec3_access.hpp", "include/zcm/detail/vec4_access.hpp", "include/zcm/vec2.hpp", "include/zcm/vec3.hpp", "include/zcm/vec4.hpp", "include/zcm/ivec2.hpp", "include/zcm/ivec3.hpp", "include/zcm/ivec4.hpp", "src/vec2_access.cpp", "src/vec3_access.cpp", "src/vec4_access.cpp"],
  [("scalar and shuffle accessors", "include/zcm/detail/vec*_access.hpp"), ("accessor unions", "include/zcm/*vec*.hpp"), ("explicit instantiations", "src/vec*_access.cpp")],
  ["values read through and bytes written through each accessor"])

p("C07", "Constructors, conversions and element access place every component",
  """Every constructor and conversion between scalars, vectors, quaternions and matrices puts each argument into the component it names: default construction gives zero vectors, the identity quaternion and identity matrices, one scalar fills a vector or a matrix diagonal, a smaller part keeps its order, and growing a matrix fills in the identity.
  Building a value from a pointer reads exactly its components in storage order, taking a pointer to a value gives its first component with the others following contiguously, and indexing refers to the same storage for reading and writing.""",
  IN, "all constructors and all component values",
  "tests use round numbers for some constructors; an exchanged pair of components or columns in an untested one goes unseen",
  ["src/vec2.cpp", "src/vec3.cpp", "src/vec4.cpp", "src/ivec2.cpp", "src/ivec3.cpp", "src/ivec4.cpp", "src/bvec2.cpp", "src/bvec3.cpp", "src/bvec4.cpp", "src/mat2.cpp", "src/mat3.cpp", "src/mat4.cpp", "src/quat.cpp", "src/type_ptr.cpp"],
  [("constructors and make_* functions", "src/*vec*.cpp, src/mat*.cpp, src/quat.cpp"), ("value_ptr", "src/type_ptr.cpp")],
  ["object bytes after construction", "addresses returned by value_ptr and operator[]"])

p("C08", "Function overloads for vectors equal the scalar function per component",
  """For every function that has a scalar form and vector or quaternion forms applied component by component (common, relational, exponential, trigonometric and interpolation functions, float and integer), each component of the result is what the scalar form gives for the corresponding components of the arguments, with a scalar argument applying to every component.
  This includes special values: signed zeros, infinities, NaN and out-of-domain arguments.""",
  IN, "all functions, all overloads, all argument values",
  "tests call most overloads with equal or few components, so a component that uses its neighbour's argument passes",
  ["src/common.cpp", "src/exponential.cpp", "src/angle_and_trigonometry.cpp", "src/detail/utils.hpp"],
  [("component-wise overloads", "src/common.cpp, src/exponential.cpp, src/angle_and_trigonometry.cpp"), ("applyOp helpers", "src/detail/utils.hpp")],
  ["results of the overloads"])

p("C09", "Scalar common functions meet their shading-language definitions",
  """For every float argument, absolute value, floor, ceiling, truncation, fractional part, rounding (halves away from zero), rounding to even, sign, sign-not-zero, minimum, maximum, clamp, step, smooth step, mix (by number and by flag), modulus with the sign of the divisor, fused multiply-add, and the infinity and NaN tests return what the shading-language definition says; minimum and maximum return their first argument when the second is NaN.
  The integer forms of absolute value, sign, minimum, maximum and clamp are exact.""",
  IN, "all float and integer arguments, including halves, huge values, denormals, infinities and NaN",
  "tests use a few values each; halves, values near two to the twenty-third, negative zero, infinities and NaN are not tried",
  ["src/common.cpp"], [("scalar functions", "src/common.cpp")], ["scalar results"])

p("C10", "Exponential and trigonometric functions are accurate over their domain",
  """For every float in its mathematical domain each scalar exponential, logarithm, power, root, trigonometric, hyperbolic and inverse function returns the correct value to within a few units in the last place, with overflow, underflow and infinite arguments giving the correct limits.
  Arguments outside the domain give NaN, and the two-argument arc tangent returns the angle in the quadrant of the point.""",
  IN, "all float arguments",
  "tests compare a few arguments with another library; a wrong base, a wrong quadrant or a fast approximation passes on those",
  ["src/exponential.cpp", "src/angle_and_trigonometry.cpp"], [("scalar functions", "src/exponential.cpp, src/angle_and_trigonometry.cpp")], ["scalar results against double-precision references"])

p("C11", "Dot, cross, length, distance and normalize compute the Euclidean quantities",
  """For all vectors of each dimension (and quaternions and scalars where offered) whose squares stay within float range, dot product, squared and plain length, squared and plain distance and cross product equal their Euclidean definitions up to float rounding; lengths and distances are never negative.
  Normalizing a non-zero value gives unit length in the same direction.""",
  IN, "all vectors within float range, including nearly parallel, equal and axis-aligned ones",
  "tests check one vector per function, and squared distances of three and four components were not checked at all",
  ["src/geometric.cpp"], [("geometric functions", "src/geometric.cpp")], ["results against double-precision references"])

p("C12", "Component reductions combine every component exactly once",
  """The sum, product, minimum and maximum over the components of float and integer vectors of each size take every component into account exactly once: integer results are exact where no overflow occurs, float sums and products are within rounding of the true value, and minimum and maximum return the value of the smallest and largest component.""",
  IN, "all component values for which the scalar operations are defined",
  "no existing test covers the reductions",
  ["src/component_wise.cpp"], [("compAdd, compMul, compMin, compMax", "src/component_wise.cpp")], ["reduction results"])

p("C13", "Reflect, refract and faceforward obey their geometric laws",
  """For incident vectors and unit normals of each dimension, reflection flips the component along the normal and keeps the rest, so it preserves length; refraction satisfies Snell's law for the given ratio, stays in the plane of incidence on the far side of the surface, and returns exactly zero at total internal reflection.
  Orienting a normal returns it unchanged when the reference normal and the incident vector have a negative dot product and its negation otherwise.""",
  IN, "all incident vectors, unit normals and index ratios",
  "tests check a single configuration per function against another library",
  ["src/geometric.cpp"], [("reflect, refract, faceforward", "src/geometric.cpp")], ["results against double-precision references"])

p("C14", "Orthogonal-vector helpers return a non-zero perpendicular vector",
  """For every non-zero three-component vector the general helper returns a non-zero vector perpendicular to it, and for every unit vector the branch-free helper does so too, whichever components dominate or vanish.""",
  IN, "all non-zero (or unit) vectors, especially those near the coordinate axes and planes",
  "no existing test covers these helpers",
  ["src/geometric.cpp"], [("orthogonal, orthogonal_branchless", "src/geometric.cpp")], ["dot product with the input and length of the result"])

p("C15", "Octahedral encoding round-trips every direction",
  """Encoding any unit vector gives two coordinates in [-1, 1], decoding any such pair gives a unit vector, and decoding the encoding of a unit vector gives that vector back up to float rounding, on both hemispheres, on the seams and at the poles.
  Encoding the decoded vector of a point of the square describes the same direction.""",
  IN, "all unit vectors and all points of the square",
  "the lower hemisphere and the seams were not tested, and decoding was wrong there",
  ["src/geometric.cpp"], [("encode_octahedral, decode_octahedral", "src/geometric.cpp"), ("signNotZero", "src/common.cpp")], ["codes and decoded vectors"])

p("C16", "Matrix arithmetic follows linear algebra with column vectors",
  """For square matrices of each size, stored by columns, sum, difference, negation, scalar multiplication and division, component product, and the products of matrices, of a matrix and a column vector and of a row vector and a matrix equal their linear-algebra definitions up to float rounding, and every compound assignment equals its binary form even when both operands are the same object.
  Dividing by a matrix is multiplying by its inverse, dividing a matrix by a vector or a vector by a matrix is multiplying by the inverse, and equality compares every element.""",
  IN, "all matrices and vectors within float range, aliased and separate operands",
  "tests use a few matrices with a simple pattern, for which transposed or exchanged elements can coincide",
  ["src/mat2.cpp", "src/mat3.cpp", "src/mat4.cpp", "src/matrix.cpp"], [("matrix operators", "src/mat2.cpp, src/mat3.cpp, src/mat4.cpp"), ("matrixCompMult", "src/matrix.cpp")], ["results against double-precision references"])

p("C17", "Transpose, determinant, inverse and adjugate satisfy their definitions",
  """For square matrices of each size, transposition exchanges rows and columns exactly, and determinant and adjugate equal their cofactor definitions up to float rounding.
  For invertible matrices the inverse multiplied by the matrix on either side is the identity up to rounding scaled by the conditioning, and the transposed forms of inverse and adjugate equal the transposes of the plain forms.""",
  IN, "all matrices (invertible ones for the inverse), including permuted, triangular, nearly singular and badly scaled ones",
  "tests invert a few fixed matrices; an error in one cofactor shows only when the elements it uses are non-zero",
  ["src/matrix.cpp"], [("transpose, determinant, inverse, adjugate, inverseTranspose, adjugateTranspose", "src/matrix.cpp")], ["results against double-precision references"])

p("C18", "Translate, rotate and scale append the transform they name",
  """Applied to any four-by-four matrix, the translate, rotate and scale builders return that matrix multiplied on the right by the pure translation, the right-handed rotation by the given angle about the given axis (which need not be of unit length), or the axis-aligned scaling, up to float rounding.
  Rotations preserve lengths and handedness.""",
  IN, "all matrices, offsets, angles, non-zero axes and factors",
  "tests use identity or one fixed matrix with one axis",
  ["src/matrix_transform.cpp"], [("translate, rotate, scale", "src/matrix_transform.cpp")], ["matrices against double-precision references"])

p("C19", "View matrices put the eye at the origin looking along the view axis",
  """For every eye, target different from the eye and up vector not parallel to the view direction, the right-handed (left-handed) view matrix is a rigid transform that maps the eye to the origin, the target to the negative (positive) third axis, and the up vector into the half-plane of the positive second axis.""",
  IN, "all eyes, targets and up vectors in general position",
  "tests use one camera per function",
  ["src/matrix_transform.cpp"], [("lookAtLH, lookAtRH", "src/matrix_transform.cpp")], ["images of eye, target and up under the matrix"])

p("C20", "Projection matrices map the view volume onto the clip volume",
  """Each orthographic builder maps the corners of its box, and each perspective builder the corners of its frustum after division by the fourth coordinate, onto the corners of the clip cube: first and second coordinates to minus one and one, the near and far planes to zero and one or minus one and one according to the depth convention, with the viewing direction along the positive or negative third axis according to the handedness.
  The planar orthographic builder maps its rectangle the same way and negates depth.""",
  IN, "all non-degenerate boxes, fields of view, aspect ratios and plane distances",
  "tests compare single parameter sets; asymmetric volumes and extreme ratios are not tried",
  ["src/matrix_transform.cpp"], [("ortho*, perspective*", "src/matrix_transform.cpp")], ["images of the corners of the view volume"])

p("C21", "Decomposing a rigid transform recovers scale, orientation and translation",
  """For every matrix composed of a translation, a rotation and non-zero scale factors per axis, decomposition returns a translation, a unit orientation and scale factors whose recomposition equals the matrix up to float rounding, for every rotation angle and axis.
  When the matrix mirrors space all three factors are returned negative; otherwise all are positive.""",
  IN, "all translations, rotations and non-zero scales, including half-turns and mirrored bases",
  "the few tested matrices do not reach every branch chosen by the dominant diagonal element, nor mirrored ones",
  ["src/matrix_transform.cpp"], [("decompose_orthogonal", "src/matrix_transform.cpp")], ["recomposed matrix against the input"])

p("C22", "Quaternion algebra and rotation of vectors follow the Hamilton product",
  """Quaternion sum, difference, negation, scaling, product, conjugate and inverse equal their Hamilton definitions up to float rounding, in binary and compound form and with aliased operands; a non-zero quaternion times its inverse is the identity, and equality compares all four parts.
  Rotating a vector by a unit quaternion equals conjugation by it, preserves length and handedness, composes as the product does, and multiplying a vector by a quaternion on the right undoes the rotation.""",
  IN, "all quaternions (unit ones for rotation) and vectors within float range",
  "tests multiply a few quaternions; the eight-multiplication product formula is easy to break for untested signs",
  ["src/quat.cpp", "src/quaternion.cpp"], [("operators and rotation", "src/quat.cpp"), ("conjugate, inverse, rotate", "src/quaternion.cpp")], ["results against double-precision references"])

p("C23", "Angle-axis, Euler-angle and matrix forms of a rotation agree",
  """Building a unit quaternion from an angle and unit axis, from Euler angles, or from a rotation matrix, and turning it back into angle and axis, Euler angles or a three-by-three or four-by-four matrix, describes the same rotation up to the float rounding the conversion allows, for every rotation.
  Angles, axis, pitch, yaw and roll lie in their documented ranges, and rotating a quaternion by an angle about any non-zero axis multiplies it by that rotation.""",
  IN, "all unit quaternions, angles, axes and rotation matrices, including half-turns, tiny rotations and gimbal lock",
  "tests use a few rotations, which leave most branches of the matrix conversion and the singular cases unvisited",
  ["src/quaternion.cpp", "src/quat.cpp"], [("mat3_cast, mat4_cast, quat_cast, angleAxis, axis, angle, eulerAngles, pitch, yaw, roll, rotate", "src/quaternion.cpp"), ("Euler constructor", "src/quat.cpp")], ["rotations described by the converted forms"])

p("C24", "Quaternions built from directions perform the rotation they describe",
  """The quaternion built from two non-zero vectors of any lengths (whose product squared stays within float range) is a unit quaternion that turns the direction of the first into that of the second by the shortest way, including equal and opposite vectors.
  The left-handed (right-handed) look-rotation for a unit direction and an up vector not parallel to it turns the third axis to the direction (to its opposite), keeps the first axis perpendicular to the up vector, and puts the image of the second axis on the side of the up vector.""",
  IN, "all pairs of non-zero vectors and all directions and up vectors in general position",
  "tests use few pairs; opposite and nearly opposite vectors take a separate branch",
  ["src/quat.cpp", "src/quaternion.cpp"], [("two-vector constructor", "src/quat.cpp"), ("quatLookAtLH, quatLookAtRH", "src/quaternion.cpp")], ["images of vectors under the quaternion"])

p("C25", "Quaternion interpolation starts, ends and moves as specified",
  """For unit quaternions and a parameter from zero to one, spherical interpolation yields unit quaternions that start at the first rotation, end at the second, and turn at constant speed along the shorter arc, whichever sign the quaternions have and however close they are.
  Linear interpolation is the component-wise weighted sum of its arguments as given, and normalized linear interpolation is that sum scaled to unit length.""",
  IN, "all pairs of unit quaternions and parameters in [0, 1]",
  "tests interpolate a few pairs; nearly equal, opposite-sign and nearly opposite pairs take other branches",
  ["src/quaternion.cpp"], [("lerp, nlerp, slerp", "src/quaternion.cpp")], ["interpolated quaternions against double-precision references"])

p("C26", "Colour-space conversions follow the sRGB transfer curves",
  """For colours in [0, 1], conversion from sRGB to linear and conversion from linear to sRGB with an explicit exponent follow the two-segment sRGB curve with that exponent in each colour channel; the second clamps its input to [0, 1], and with the same exponent the two undo each other up to rounding wherever both use the same segment (with the standard exponent, everywhere).
  The default conversion to sRGB is an approximation: it stays within 0.04 of the exact curve everywhere, and for inputs of at least 0.002 within three percent of it and without decreasing as the input increases; alpha is passed through unchanged in every four-component form.""",
  IN, "all colours, alphas and positive exponents",
  "no existing test covers colour conversion, and one direction used the wrong exponent",
  ["src/color_space.cpp"], [("convertLinearToSRGB, convertSRGBToLinear", "src/color_space.cpp")], ["converted channels against double-precision references"])

p("C27", "Constants are correctly rounded and degree conversions consistent",
  """Every mathematical constant function returns the float nearest to the named constant.
  Converting any angle between degrees and radians scales it by the exact factor to within float rounding, in both directions and undoing each other.""",
  IN, "all constants and all float angles",
  "no existing test covers the constants",
  ["src/constants.cpp", "src/angle_and_trigonometry.cpp"], [("constant functions", "src/constants.cpp"), ("degrees, radians", "src/angle_and_trigonometry.cpp")], ["returned values"])

p("C28", "No operation has undefined behaviour or reads memory it does not own",
  """Calling any operation of the library with arguments in its domain, in any order, never reads or writes outside the objects it was given, never depends on an uninitialised value, never overflows signed arithmetic that its definition does not overflow, and never invokes other undefined behaviour; float operations accept every bit pattern including infinities and NaN.
  Building a value from a pointer, or writing through an accessor, touches exactly the bytes of that value and no neighbouring byte.""",
  ["inputs", "histories"], "all operations on all arguments in their domain, with values placed at any properly aligned address",
  "the tests run without instrumentation, so an out-of-bounds column or an uninitialised element goes unseen while its value happens to be right",
  ["src/mat3.cpp", "src/matrix_transform.cpp", "src/type_ptr.cpp", "src/quat.cpp", "include/zcm/detail/vec2_access.hpp", "include/zcm/detail/vec3_access.hpp", "include/zcm/detail/vec4_access.hpp"],
  [("indexing and raw copies", "src/*.cpp"), ("uninitialised construction", "include/zcm/init.hpp")], ["sanitizer reports", "guard bytes around every operand"])

p("C29", "Operations are pure functions of their arguments",
  """Every operation other than assignment leaves its arguments unchanged, returns a result that depends on nothing but the values of its arguments (not on earlier calls, on where they are stored, or on what the stack held), and leaves the floating-point rounding mode and control state as it found them.
  Passing one object for several read-only arguments gives the same result as passing copies.""",
  ["histories", "inputs"], "all sequences of calls, all argument values, aliased and separate arguments",
  "each test calls a function once from a fresh state, so dependence on history or stale memory never shows",
  ["src/matrix_transform.cpp", "src/quaternion.cpp", "src/common.cpp", "src/geometric.cpp"], [("stateless functions", "src/*.cpp")], ["repeated and interleaved call results", "argument bytes before and after", "floating-point environment"])

p("C30", "Debug builds stop exactly on out-of-range use",
  """In a debug build, indexing a vector, matrix or quaternion at or beyond its size, building a value from a null pointer, linearly interpolating with a parameter outside [0, 1], and interpolating with a NaN parameter all stop the program by an assertion before any memory is touched.
  Valid indices, valid pointers and parameters at the ends of the range never do, and release builds contain no such stop.""",
  ["inputs", "configurations"], "all indices, pointers and parameters, in debug and release builds",
  "the tests never pass an invalid argument, and two types let the first invalid index through",
  ["src/vec2.cpp", "src/vec3.cpp", "src/vec4.cpp", "src/ivec2.cpp", "src/ivec3.cpp", "src/ivec4.cpp", "src/bvec2.cpp", "src/bvec3.cpp", "src/bvec4.cpp", "src/mat2.cpp", "src/mat3.cpp", "src/mat4.cpp", "src/quat.cpp", "src/quaternion.cpp"],
  [("assertions", "src/*.cpp")], ["termination status of a child process per call"])

p("C31", "Every build configuration computes the same results",
  """A program gets bit-for-bit the same results from the library whether it is built with one supported compiler or another, optimised or not, as a debug or as a release build, and with swizzles enabled or disabled; only the bit pattern of a NaN may differ.
  A program compiled with swizzles disabled still builds and works with named single components.""",
  ["configurations", "inputs"], "all supported build configurations and all inputs",
  "the tests run in a single configuration; the release-only and swizzle-less code paths are never executed by them",
  ["include/zcm/detail/vec2_access.hpp", "include/zcm/detail/vec3_access.hpp", "include/zcm/detail/vec4_access.hpp", "src/vec2_access.cpp", "src/vec3_access.cpp", "src/vec4_access.cpp", "CMakeLists.txt"],
  [("release and swizzle switches", "include/zcm/detail/*.hpp, include/zcm/*vec*.hpp, src/vec*_access.cpp")], ["result logs of one seeded workload per configuration"])

p("C32", "Every public header stands alone and everything it declares can be used",
  """Each public header compiles on its own, in every order and together with the others, in each supported language standard, with and without swizzles and in debug and release builds, without needing any other header first.
  Every function, constructor and operator that a public header declares is defined in the library, so a program using any of them links, and a program may include the headers in several of its source files.
  Including them leaves no macro behind that is not marked as the library's own (zcm in its name; include guards aside), removes none, and needs no feature of a later standard than C++14.""",
  ["programs", "configurations"], "all declarations of all public headers and all inclusion orders",
  "tests include the headers they need in one order and use only part of the declarations",
  ["include/zcm/fwd.hpp", "include/zcm/hash.hpp", "include/zcm/quaternion.hpp", "include/zcm/ivec4.hpp"],
  [("headers with forward declarations instead of includes", "include/zcm/*.hpp"), ("definitions", "src/*.cpp")], ["compiler and linker verdicts on generated programs that are then run"])

p("C33", "Concurrent use on separate objects is race-free and unaffected",
  """Any number of threads may call any operations at the same time on their own objects, and may read shared objects at the same time, without data races.
  Every thread gets exactly the results it would get alone.""",
  ["schedules", "histories"], "all interleavings of calls from several threads",
  "the tests are single-threaded",
  ["src/matrix_transform.cpp", "src/common.cpp", "src/quaternion.cpp", "src/hash.cpp"], [("absence of shared mutable state", "src/*.cpp")], ["race reports and per-thread results"])

p("C34", "Benchmark generator writes a complete, compilable project or fails",
  """Given a directory, the benchmark generator writes one hundred header and source pairs, a main program calling each of the ten thousand generated functions exactly once, and one build script per library; the project compiles and links in both the native and the reference-library variant.
  It creates and replaces only those files, touches nothing outside the directory, and produces the same complete structure over leftovers of earlier runs.
  With a wrong number of arguments, a path that is not a directory, or a file it cannot write it ends with a failure status.""",
  ["inputs", "fault_sequences", "histories"], "all random choices, prior directory contents, argument lists and write failures",
  "the generator is not run by any test",
  ["tools/benchgen/main.cpp", "tools/benchgen/utils.cpp", "tools/benchgen/utils.h", "tools/benchgen/snippets.h"],
  [("generation steps", "tools/benchgen/main.cpp"), ("snippet choice and file writing", "tools/benchgen/utils.cpp")], ["generated tree, system calls, exit status"])

p("C35", "Accessor generator lists exactly the swizzles the headers declare",
  """The accessor generator prints, for each vector size and accessor length, one declaration for every combination of component indices with its three spellings, each spelling naming exactly those components in that order and none missing or repeated.
  The swizzle declarations in the public vector headers are exactly those combinations.""",
  ["inputs", "programs"], "all combinations the generator can print and all accessor declarations in the headers",
  "the generator is not run by any test and the headers are long generated lists nobody compares",
  ["tools/combinations.py", "include/zcm/vec2.hpp", "include/zcm/vec3.hpp", "include/zcm/vec4.hpp", "include/zcm/ivec2.hpp", "include/zcm/ivec3.hpp", "include/zcm/ivec4.hpp"],
  [("combination printing", "tools/combinations.py"), ("accessor lists", "include/zcm/*vec*.hpp")], ["printed declarations", "accessors a compiled program can name"])

p("C36", "Results agree with GLM for the operations both libraries offer",
  """For every operation that exists under the same name in both libraries and is defined by both, the library returns the same value as GLM for the same arguments up to float rounding: vector, matrix and quaternion operators, common, geometric, exponential, trigonometric and relational functions, matrix builders, projections and conversions, with the same column-major storage and the same handedness and depth conventions. (Excepted: exp, log, sqrt and pow of a quaternion, which this library defines component by component, and the places where this GLM release itself departs from its definition: the transposed inverse of a 2x2 matrix and the angle of a quaternion whose scalar part is below -cos(1/2). The sRGB curve without an exponent is GLM's low-precision one.)
  A program that exchanges data with GLM through component pointers sees the same components in the same order.""",
  ["inputs", "programs"], "all shared operations and all arguments where both are defined",
  "the tests compare the two libraries at a few fixed arguments per operation",
  ["README.md", "src/matrix.cpp", "src/matrix_transform.cpp", "src/quaternion.cpp", "src/quat.cpp", "src/common.cpp", "src/geometric.cpp", "src/type_ptr.cpp"],
  [("GLM-compatible interface", "include/zcm/*.hpp")], ["results of both libraries on the same arguments"])

with open(OUT, "w") as f:
    for d in L:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(L), "properties")
