import sys; sys.path.insert(0,'/verif/tools')
from mk import P
T="seeded deterministic simulation with fault injection"
LN="Seeded search, not proof: every run is one exactly repeatable execution of the real headers; "
P("C06","Threads using the library independently do not disturb each other",
 "Threads that share only constant library objects, or that work on disjoint elements of shared storage, each obtain exactly the results they obtain when they run one after another, and leave the shared storage with exactly the contents of the serial execution. No operation relies on hidden mutable state shared between callers, including the first time it is used in a process.",
 ["schedules","inputs"],"every interleaving of the callers at the granularity of single memory accesses, from a cold start or after use; double, float and user-defined element types",
 "the tests are single threaded; hidden shared state only shows under particular preemptions",
 ["TooN/internal/operators.hh","TooN/internal/vbase.hh","TooN/internal/mbase.hh","TooN/so3.h","TooN/SVD.h","TooN/LU.h","TooN/SymEigen.h","TooN/wls.h","TooN/irls.h","TooN/optimization/downhill_simplex.h"],
 [("operations keep all their state in objects of the caller","every header")],
 T,LN+"caller threads are released one at a time by a seeded scheduler with a preemption point at every memory access of the library (the compiler's race-detector instrumentation with the simulator in place of its runtime) and in every basic block, biased towards accesses to memory both callers can reach, each run in a fresh process; the serial execution of the same plan is the oracle. LAPACK is atomic in the simulation.")
P("C07","Vectors and matrices behave as values whatever their storage",
 "Through any history of construction, copying, moving, assignment, resizing, swapping, appending to standard containers, element writes and in-place arithmetic, fixed-size, run-time sized and resizable vectors and row- or column-major matrices have exactly the sizes and elements an independent array model predicts: objects never share elements, resizing keeps the existing elements, assignment adapts only resizable vectors, self-assignment changes nothing. An operation interrupted by a failed allocation or a throwing element leaves every other object unchanged, the target with a mixture of old and new elements, and no memory behind.",
 ["histories","fault_sequences"],"every sequence of operations on several objects, every operand (including the target itself and parts of it), every failing allocation or element operation in it",
 "tests check single operations on fresh objects; sharing, stale sizes and half-done updates appear only in histories",
 ["TooN/internal/allocator.hh","TooN/internal/vector.hh","TooN/internal/matrix.hh","TooN/internal/data.hh","TooN/internal/mbase.hh","TooN/internal/vbase.hh","TooN/internal/objects.h","TooN/internal/operators.hh"],
 [("storage classes","TooN/internal/allocator.hh VectorAlloc / MatrixAlloc"),("assignment","TooN/internal/vector.hh, TooN/internal/matrix.hh operator="),("swap","TooN/internal/vector.hh, TooN/internal/data.hh")],
 T,LN+"the oracle is a model of plain arrays, compared with every object after every step; allocator and element type are the injected components; ASan watches memory.")
