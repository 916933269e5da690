import sys; sys.path.insert(0,'/verif/tools')
from mk import P
T="seeded deterministic simulation with fault injection"
LN="Seeded search, not proof: every run is one exactly repeatable execution of the real headers; "
H="1-3 objects live through random histories of (re)computation in every storage, copying, loss and restoration, queries cut short by failing allocations%s, heap and stack filled with seeded garbage; every answer is asked for twice, compared bit for bit with a new object's, and judged by an independent long-double reference."
OV=["histories","fault_sequences"]
Q="every matrix and every sequence of compute, copy, assign, query and failure that an object goes through, every size, precision and storage"
W="the tests decompose a few fixed or random matrices once with fresh objects; they never reuse, copy or interrupt one, and never see semidefinite, graded, repeated-spectrum or already-triangular input"
P("C12","Cholesky objects answer for the matrix they hold, whatever they held before",
 "For a symmetric positive definite matrix, Cholesky and Lapack_Cholesky (static or dynamic size, float, double or long double, any storage) give L lower triangular with L L^T = A (and unscaled L, D with L D L^T = A), backsub x with A x = b for vectors and matrices, inverse, determinant, rank n and Mahalanobis distance, to rounding error; for a singular semidefinite matrix Cholesky gives its true rank and a zero determinant. The answers depend only on the matrix last computed: never on earlier matrices, earlier queries, failures in between, copying, or memory contents.",
 OV,Q,W,["TooN/Cholesky.h","TooN/Lapack_Cholesky.h"],[("LDL^T decomposition, backsub","TooN/Cholesky.h do_compute, backsub"),("potrf based","TooN/Lapack_Cholesky.h")],T,LN+H%"")
P("C13","LU and elimination solve the system they are given, and determinants are right",
 "LU (backsub of vectors and of matrices of static or dynamic shape, get_inverse, determinant, get_lu, get_info), gaussian_elimination, gauss_jordan and determinant / determinant_LU / determinant_gaussian_elimination agree with the matrix given: for every regular matrix A x = b to backward rounding error whatever pivoting it needs, for every matrix the determinant including its sign, zero for an exactly zero row or column. Operands are unchanged, and LU answers depend only on the matrix last computed, not on history, failures, copying or memory contents.",
 OV,Q,W,["TooN/LU.h","TooN/gaussian_elimination.h","TooN/gauss_jordan.h","TooN/determinant.h"],[("getrf, row swaps, backsub","TooN/LU.h"),("pivoting","TooN/gaussian_elimination.h"),("pivoting","TooN/gauss_jordan.h"),("dispatch on size, sign of the permutation","TooN/determinant.h")],T,LN+H%"")
P("C14","SVDs rebuild the matrix, and solve with its pseudo-inverse",
 "For every finite M x N matrix, tall, wide, square or rank deficient, SVD, SQSVD and GR_SVD give non-negative singular values, orthonormal factors with U D V^T = A, and, for a given condition limit, backsub and get_pinv equal to the Moore-Penrose pseudo-inverse with singular values below largest/limit treated as zero, the rank, determinant and extreme values that follow. Answers depend only on the matrix last computed: not on history, an iteration that failed to converge before, copying or memory contents.",
 OV,Q,W,["TooN/SVD.h","TooN/GR_SVD.h"],[("gesvd, orientation, condition","TooN/SVD.h"),("Golub-Reinsch bidiagonalisation, reordering","TooN/GR_SVD.h")],T,LN+H%", LAPACK failures to converge")
P("C15","QR decompositions are orthogonal times upper triangular, for every matrix",
 "For every finite matrix with no more rows than columns, QR and QR_Lapack give Q orthogonal, R exactly upper triangular and Q R = A to rounding error, also when columns are zero, dependent, or already triangular; with pivoting, Q R = A with its columns permuted as P says, P is a permutation and the diagonal of R descends in magnitude. Answers depend only on the matrix given: not on the order of the questions, copying, failures or memory contents.",
 OV,Q,W,["TooN/QR.h","TooN/QR_Lapack.h"],[("Householder elimination","TooN/QR.h compute"),("geqrf/geqp3, orgqr","TooN/QR_Lapack.h")],T,LN+H%"")
P("C16","Symmetric eigen-decompositions are orthonormal, ordered, and rebuild the matrix",
 "For every finite symmetric matrix, with distinct, close, repeated or zero eigenvalues, SymEigen of size 2, 3 or any other (static or dynamic, float or double) gives eigenvalues in ascending order and orthonormal eigenvectors as rows with V^T D V = A; backsub and get_pinv act as the inverse restricted to eigenvalues above the condition limit, get_sqrtm squares to A, get_isqrtm inverts it, get_determinant, is_posdef and is_negdef follow the eigenvalues. Answers depend only on the matrix last computed: not on history, an earlier failure to converge, copying or memory contents.",
 OV,Q,W,["TooN/SymEigen.h"],[("closed form 2x2, 3x3; syev","TooN/SymEigen.h ComputeSymEigen"),("condition limit","TooN/SymEigen.h get_inv_diag, get_isqrtm")],T,LN+H%", LAPACK failures to converge")
