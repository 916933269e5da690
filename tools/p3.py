import sys; sys.path.insert(0,'/verif/tools')
from mk import P
T="seeded deterministic simulation with fault injection"
LN="Seeded search, not proof: every run is one exactly repeatable execution of the real headers; "
P("C08","Views read and write exactly the elements of the object they were made from",
 "A slice, row, column, diagonal, transpose, row- or column-matrix view or wrapped memory, of a vector or matrix of any storage and layout, and any view of a view, consists of exactly the elements that its position names: reading, arithmetic, products, norms and extrema through it use those elements, every write through it (element, assignment, in-place arithmetic, constants, swap, stream extraction) changes those elements and no other, and it stays valid and current while the object lives and is not resized, whatever is done through other views. An interrupted write leaves each of its elements old or new and all others unchanged.",
 ["histories","inputs","fault_sequences"],"every chain of views (three deep), static, dynamic or mixed offsets and sizes, every layout, every interleaving of operations through several views kept at the same time, every throwing element operation in them",
 "tests look at a few fixed slices; stride, offset and layout errors appear only for particular nestings",
 ["TooN/internal/vbase.hh","TooN/internal/mbase.hh","TooN/internal/reference.hh","TooN/internal/slice_error.hh","TooN/internal/matrix.hh","TooN/internal/vector.hh","TooN/internal/operators.hh","TooN/helpers.h"],
 [("slicing with strides","TooN/internal/vbase.hh GenericVBase, TooN/internal/mbase.hh GenericMBase"),("external memory","TooN/internal/reference.hh")],
 T,LN+"a model of cell numbers per view is the oracle, all storage compared after every step; the element type injects failures, ASan watches memory.")
P("C09","Requests that do not fit are rejected, all others are served",
 "With the checks enabled, an index outside an object, a slice that does not lie inside it, operands of different sizes, a number of fill or data elements other than the object's size, a non-square matrix where a square one is needed, a system, decomposition, measurement or group operation of the wrong dimension, two opposite directions or a mirror image given as a rotation, a singular matrix given as a volume-preserving one, factors which a decomposition was told not to keep, and a negative size are rejected (by abort, failed assertion or exception) before memory outside the objects is touched or an operand changes; every request that fits is served with the correct result. This holds for all storage classes, layouts and mixtures of static and run-time sizes, for any integer, and whether or not allocations fail.",
 ["inputs","histories","fault_sequences"],"every request with any integers (including extreme ones whose sums overflow) in every state of the objects",
 "tests probe a few mismatches by template tricks; missing checks show only for the untested combination of operation, storage and size",
 ["TooN/internal/slice_error.hh","TooN/internal/size_mismatch.hh","TooN/internal/overfill_error.hh","TooN/internal/debug.hh","TooN/internal/comma.hh","TooN/internal/data.hh","TooN/internal/objects.h","TooN/internal/operators.hh","TooN/wls.h","TooN/LU.h","TooN/Cholesky.h","TooN/gaussian_elimination.h"],
 [("checks","TooN/internal/slice_error.hh CheckSlice, size_mismatch.hh, overfill_error.hh, debug.hh check_index")],
 T,LN+"requests are generated with adversarial integers, an independent rule says which fit; std::abort and assert are intercepted; allocation failures are injected; all objects are compared with a model after every request.")
