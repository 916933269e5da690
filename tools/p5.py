import sys; sys.path.insert(0,'/verif/tools')
from mk import P
T="seeded deterministic simulation with fault injection"
LN="Seeded search, not proof: every run is one exactly repeatable execution of the real headers; "
P("C11","Iteratively reweighted least squares sums what its weights say, and descends",
 "With RobustI, RobustII, RobustIII, ILinear or a user's reweighting, an IRLS object holds, for precisely the measurements added to it or to objects merged into it since construction or clear(): inverse covariance sum w(m) J J^T, vector sum w(m) m J, residual sum of objective(m), and true inverse covariance sum (w(m) + m w'(m)) J J^T, whatever the order, the storage of the Jacobians and the precision; after a failed or interrupted addition, clear() gives an empty object again. Iterating clear, add all, compute, step never raises the objective, also across a restart between iterations.",
 ["histories","fault_sequences"],"every sequence of additions, merges, clears and failures over several objects, every size, precision and weight function",
 "the only test of IRLS fits one data set; nothing looks at residual, true covariance or merging",
 ["TooN/irls.h","TooN/wls.h"],[("accumulation","TooN/irls.h class IRLS"),("weights","TooN/irls.h RobustI, RobustII, RobustIII, ILinear")],
 T,LN+"workers add and merge measurements, lose their object to failing allocations, throwing weight functors or crashes, and are rebuilt from a durable log; the sums are compared with an independent long-double accumulation after every step.")
