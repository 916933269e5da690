import sys; sys.path.insert(0,'/verif/tools')
from mk import P
T="seeded deterministic simulation with fault injection"
LN="Seeded search, not proof: every run is one exactly repeatable execution of the real headers; "
OV=["histories","fault_sequences"]
P("C21","Rotations and rigid motions form the groups they claim, to rounding error",
 "SO2, SO3, SE2 and SE3 act as the group: products, in-place products, inverses and application to vectors, homogeneous vectors and matrices agree with the matrices they stand for, in either precision; however long the history of products, inverses, coercions, conversions, copies and stream reads, rotations stay orthonormal and proper to an accumulated rounding bound; exp is the matrix exponential of the generators and ln its principal inverse, accurate also for tiny and nearly half-turn rotations; SO3(a,b) turns a into b; adjoint, trinvadjoint, transform and their derivative counterparts agree with their definitions. A failed allocation or a torn or failing read leaves every pose as it was or completely replaced.",
 OV,"every history of poses and their operations with each other, with vectors and matrices of any storage, in float and double, at angles from 1e-12 to pi, with failures at any allocation or character read",
 "tests sample a few products and round trips at moderate angles in double; small and half-turn angles, long histories, adjoints of matrices, float and failures are not covered",
 ["TooN/so2.h","TooN/so3.h","TooN/se2.h","TooN/se3.h"],[("exp, ln, rotation from two vectors","TooN/so3.h exp, ln, SO3(a,b)"),("rigid exp, ln, adjoints","TooN/se3.h exp, ln, adjoint, trinvadjoint"),("planar","TooN/so2.h, TooN/se2.h")],T,
 LN+"a bank of poses lives through seeded histories while allocations fail and stream reads are torn, corrupted or fail; each operation is compared with long-double matrices, exp with the long-double matrix exponential.")
P("C22","Similarity transforms form the groups they claim, to rounding error",
 "SIM2 and SIM3 act as the group of similarities: products, inverses, scale, application to vectors, homogeneous vectors and matrices agree with the matrices they stand for, in either precision and with poses and scalars of the other; the rotation stays orthonormal and proper and the scale positive over any history; in double precision exp is the matrix exponential of the generators and ln its principal inverse, also where scale or rotation is tiny; adjoint and trinvadjoint agree with their definitions. A failed allocation or a torn or failing read leaves every transform as it was or completely replaced.",
 OV,"every history of similarities and their operations with each other, with vectors and matrices of any storage, in float and double, with failures at any allocation or character read",
 "one test prints a few exponentials; adjoints, mixed precision, small scales and rotations, histories and failures are not covered",
 ["TooN/sim2.h","TooN/sim3.h"],[("exp, ln and their coefficients","TooN/sim3.h compute_coeff_exp, compute_coeff_ln"),("planar","TooN/sim2.h exp, ln"),("adjoint","TooN/sim3.h adjoint, TooN/sim2.h adjoint")],T,
 LN+"a bank of similarities lives through seeded histories while allocations fail and stream reads are torn, corrupted or fail; each operation is compared with long-double matrices, exp with the long-double matrix exponential. Accuracy of exp and ln is not claimed in float.")
P("C23","SL elements keep determinant one; matrix exp, sqrt and log are those functions",
 "SL<N> of any N and precision holds a matrix of determinant one after any history of products, inverses, exponentials, coercions and reads (a negative determinant in odd dimension included, by changing the sign); exp is the matrix exponential of the combination of the generators, ln its inverse; inverse and products agree with the matrices; generators are a basis of the trace-free matrices. TooN::exp, sqrt and log of matrices are those functions to a rounding bound, static or run-time sized, also for a scalar type that is not built in. A failed allocation, an element that throws or a torn read leaves every object as it was or completely replaced, without a leak.",
 OV,"every N from 2 to 5, every history of elements and matrices with norm up to 2.2 for log and sqrt, float and double, with failures at any allocation, element operation or character read",
 "the test is a print-out of one element; ln for N of 4 or more, negative determinants, histories and failures are never exercised",
 ["TooN/sl.h","TooN/helpers.h"],[("coercion, exp, ln, generators","TooN/sl.h coerce, exp, ln, generator"),("matrix functions","TooN/helpers.h exp, sqrt, log")],T,
 LN+"a bank of elements lives through seeded histories while allocations fail, elements of a simulated scalar type throw, and stream reads are torn, corrupted or fail; results are compared with long-double references.")
P("C24","Expressions over every storage and element type compute the elementwise result",
 "Vector and matrix expressions compile and give, element for element, what C++ arithmetic gives on the elements: sums, products, scaling and in-place forms over int, float, double and complex (also mixed), over static, run-time sized, resizable, column-major, transposed and sliced operands, an operand with itself or with its own element as the scalar; Ones, Zeros and Identity alone, scaled, divided or with a size; diagonal matrices; trace, norms, project, unproject, cross products, minima and maxima, isnan and isfinite. Nothing but the left operand of an assignment changes; a failed allocation changes nothing and leaks nothing; results do not depend on what heap or stack held before.",
 OV,"every sequence of such expressions over operands of size 1 to 5 of every storage, element type and layout, with a failure at any allocation",
 "tests print a few combinations of double operands and compare nothing; mixed element types, aliased scalars, scaled objects and failures are not covered",
 ["TooN/internal/operators.hh","TooN/internal/objects.h","TooN/internal/diagmatrix.h","TooN/helpers.h","TooN/internal/make_vector.hh"],[("elementwise and product operators","TooN/internal/operators.hh"),("Ones, Zeros, Identity","TooN/internal/objects.h"),("helper functions","TooN/helpers.h")],T,
 LN+"a bank of objects of every kind lives through seeded sequences of expressions while allocations fail and heap and stack are filled with seeded garbage; every element of each result and the bits of the whole bank are checked after each. An expression that does not compile is reported as a violation too.")
