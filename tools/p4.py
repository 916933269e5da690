import sys; sys.path.insert(0,'/verif/tools')
from mk import P
T="seeded deterministic simulation with fault injection"
LN="Seeded search, not proof: every run is one exactly repeatable execution of the real headers; "
P("C10","Weighted least squares holds and solves exactly the measurements it was given",
 "At every moment a WLS object's inverse covariance and information vector are the sums over precisely the priors and measurements (single, several, row-wise, sparse, with scalar weight or full inverse covariance) added to it or to objects merged into it since construction or clear(), independent of the order, grouping and distribution over several objects, of the storage of the arguments, of copies made or assigned, and of compute() calls in between; an object restored from a copy behaves like the original at that moment. compute() solves the full symmetric normal equations to working accuracy, and its answer depends only on the current sums, not on what was computed, cleared or lost before.",
 ["histories","fault_sequences","schedules"],"every sequence and distribution of additions, merges, clears, copies, restores and computes, every dimension, number type and decomposition policy, every failing allocation or element operation followed by a restore",
 "tests accumulate one short fixed batch; wrong weights, offsets or missing terms appear only for particular forms of measurement, merges and reuse",
 ["TooN/wls.h","TooN/Cholesky.h","TooN/SVD.h","TooN/SymEigen.h","TooN/Lapack_Cholesky.h","TooN/internal/operators.hh"],
 [("accumulation and solution","TooN/wls.h class WLS")],
 T,LN+"several workers accumulate, merge, checkpoint and are lost by injected failures; an exact accumulation (dyadic numbers) is the oracle after every step, the residual of the normal equations after compute.")
