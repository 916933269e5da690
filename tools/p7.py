import sys; sys.path.insert(0,'/verif/tools')
from mk import P
T="seeded deterministic simulation with fault injection"
LN="Seeded search, not proof: every run is one exactly repeatable execution of the real headers; "
OV=["histories","fault_sequences"]
P("C17","Downhill simplex takes documented steps, keeps its best, and survives faults",
 "From any simplex DownhillSimplex takes exactly the documented reflection, expansion, contraction or shrink step; stored values are the function's at the stored vertices; get_best, get_worst and finished agree with them; the best value never gets worse. When the function throws or memory runs out in an iteration, the vertices moved so far are those of the documented step and the state stays consistent, so that iterating can continue; copies carry the whole state; nothing depends on other optimisers running meanwhile. Undisturbed, it reaches the minimum of convex quadratic functions in up to 3 dimensions.",
 OV,"every function, start, simplex size, dimension 1 to 5 and precision, every sequence of iterations, restarts, copies and restores, and a failure at any evaluation or allocation",
 "the test runs one minimisation of one function from one point; no evaluation fails, nothing is copied or restarted, and steps are not looked at",
 ["TooN/optimization/downhill_simplex.h"],[("one iteration","TooN/optimization/downhill_simplex.h find_next_point"),("restart, termination","TooN/optimization/downhill_simplex.h restart, finished")],T,
 LN+"the objective function (9 families: smooth, kinked, plateaus, domains bounded by infinity) is the simulated environment: it throws, or runs other optimisers, at a seeded evaluation, allocations fail, optimisers are checkpointed, lost and restored; every step is judged by a long-double model of the documented algorithm.")
P("C18","Conjugate gradient descends along its direction and never ends up between states",
 "For every function with a minimum along each line, also one that is NaN outside a domain, ConjugateGradient moves against its direction only, y is the function at x and never increases, old_x and old_y are the previous point, directions follow Polak-Ribiere, finished and iterate agree with the documented criterion, and a quadratic is minimised along the line. When the function or gradient throws or memory runs out, x and y are either as before or as after the step; copies carry the whole state. Undisturbed, it reaches the minimum of quadratic functions.",
 OV,"every such function, start, dimension 1 to 5 and precision, every sequence of iterations, copies and restores, and a failure at any evaluation or allocation",
 "no test of the repository runs the conjugate gradient optimiser",
 ["TooN/optimization/conjugate_gradient.h","TooN/optimization/brent.h"],[("bracketing next to invalid regions","TooN/optimization/conjugate_gradient.h bracket_minimum_forward"),("line search, step","TooN/optimization/conjugate_gradient.h find_next_point"),("direction","TooN/optimization/conjugate_gradient.h update_vectors_PR")],T,
 LN+"the objective function and its gradient are the simulated environment: they throw, leave their domain, or run other optimisers, at a seeded evaluation, allocations fail, optimisers are checkpointed, lost and restored; every step is compared with a copy's undisturbed one and with a long-double reference.")
P("C19","Line searches stay in the bracket, stop in time, and return the best point seen",
 "Given a bracket a < b < c with f(b) below f(a) and f(c), brent_line_search and golden_section_search evaluate the function inside the bracket only, at most as often as the iteration limit allows, and return a point in the bracket with the function's value there, no worse than at b nor than at any point evaluated; for a unimodal function, unless the iteration limit stops them, it is the minimum to the tolerance asked for. An exception of the function reaches the caller; searches nested inside an evaluation and whatever ran before make no difference.",
 OV,"every function and bracket, iteration limit, tolerance and precision, and a failure, NaN (Brent) or nested search at any evaluation",
 "no test of the repository runs a line search",
 ["TooN/optimization/brent.h","TooN/optimization/golden_section.h"],[("parabolic and golden section steps","TooN/optimization/brent.h"),("golden section steps","TooN/optimization/golden_section.h")],T,
 LN+"the function (5 shapes: powers from 0.75 to 4, skewed, saturating, flat-bottomed, bumpy) is the simulated environment: it throws, gives NaN or runs other searches at a seeded evaluation; all evaluations are recorded and the history is judged afterwards.")
P("C20","Numerical derivatives look only near the point given, and are accurate there",
 "numerical_gradient and numerical_hessian and their variants with errors evaluate the function only at points that differ from the one given in the coordinate (for second derivatives: the one or two coordinates) concerned, by at most a thousandth of max(1,|x|); for smooth functions, also ones that are undefined (NaN) except nearby, the result is the derivative with a relative error below 1e-7 (Hessian: 2e-5) of the function's scale, with finite small error estimates, and the Hessian is symmetric. An exception of the function or a failed allocation reaches the caller without a leak, leaves the point unchanged, and makes no difference to later calls.",
 OV,"every smooth function and point, dimension 1 to 4, static or dynamic, and a failure, undefined region or nested derivative at any evaluation or allocation",
 "one test uses the gradient as its own oracle in 7 dimensions near the origin; Hessians, undefined regions and failures are never exercised",
 ["TooN/functions/derivatives.h"],[("Ridders' extrapolation","TooN/functions/derivatives.h extrapolate_to_zero"),("differences","TooN/functions/derivatives.h CentralDifferenceGradient, CentralDifferenceSecond, CentralCrossDifferenceSecond")],T,
 LN+"the function (sums of products of elementary functions, derivatives known in long double) is the simulated environment: it throws, is undefined beyond a seeded distance, or takes other derivatives at a seeded evaluation, and allocations fail; every evaluation is checked when it happens and the result afterwards.")
