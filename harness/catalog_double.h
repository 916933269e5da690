// Operations that exist for double only (LAPACK) or are only interesting for it.
#ifndef VERIF_CATALOG_DOUBLE_H
#define VERIF_CATALOG_DOUBLE_H
#include "catalog.h"
#include <TooN/SVD.h>
#include <TooN/Lapack_Cholesky.h>
#include <TooN/QR_Lapack.h>
#include <TooN/optimization/conjugate_gradient.h>
namespace cat {
typedef const In<double>& I;
inline double rosen(const Vector<2>& v) { return (1 - v[0]) * (1 - v[0]) + 100 * (v[1] - v[0] * v[0]) * (v[1] - v[0] * v[0]); }
inline Vector<2> rosen_d(const Vector<2>& v) { return makeVector(-2 + 2 * v[0] - 400 * (v[1] - v[0] * v[0]) * v[0], 200 * (v[1] - v[0] * v[0])); }
struct Quad { const Matrix<>& S; const Vector<>& c; double operator()(const Vector<>& x) const { Vector<> d = x - c; return d * (S * d); } };
struct QuadD { const Matrix<>& S; const Vector<>& c; Vector<> operator()(const Vector<>& x) const { return 2 * (S * (x - c)); } };

inline void d_det(I in, Out& o) { o.num(TooN::determinant(in.M)); o.num(TooN::determinant(in.H)); o.num(TooN::determinant(in.A)); o.num(TooN::determinant_LU(in.M)); o.num(TooN::determinant_gaussian_elimination(in.H)); Matrix<2> m = in.M.slice<0, 0, 2, 2>(); o.num(TooN::determinant(m)); }
inline void d_lu(I in, Out& o) { TooN::LU<> l(in.A); o.vec(l.backsub(in.a)); o.mat(l.get_inverse()); o.num(l.determinant()); o.num(l.get_info()); TooN::LU<3> k(in.M); o.vec(k.backsub(in.u)); o.mat(k.get_inverse()); o.num(k.determinant()); Matrix<3, 2> r; r.T()[0] = in.u; r.T()[1] = in.w; o.mat(k.backsub(r)); o.mat(l.get_lu()); }
inline void d_svd(I in, Out& o) { TooN::SVD<> s(in.A); o.vec(s.backsub(in.a)); o.mat(s.get_pinv()); o.mat(s.backsub(in.B)); o.vec(s.get_diagonal()); TooN::SVD<3, 3> k(in.M); o.vec(k.backsub(in.u)); o.mat(k.get_U()); o.mat(k.get_VT()); TooN::SVD<2, 3> t(in.R); o.vec(t.get_diagonal()); o.mat(t.get_pinv()); TooN::SVD<3, 2> w(in.R.T()); o.vec(w.get_diagonal()); }
inline void d_sym_eigen(I in, Out& o) { TooN::SymEigen<> e(in.S); o.vec(e.get_evalues()); o.mat(e.get_evectors()); o.vec(e.backsub(in.a)); o.mat(e.get_sqrtm()); o.mat(e.get_isqrtm()); o.mat(e.get_pinv()); o.num(e.get_determinant()); Matrix<2> m; m = in.P.slice<0, 0, 2, 2>(); TooN::SymEigen<2> f(m); o.vec(f.get_evalues()); o.mat(f.get_evectors()); TooN::SymEigen<3> g(in.P); o.vec(g.get_evalues()); o.mat(g.get_evectors()); o.mat(g.get_sqrtm()); Matrix<4> h = in.H + in.H.T(); TooN::SymEigen<4> k(h); o.vec(k.get_evalues()); }
inline void d_lapack_chol(I in, Out& o) { TooN::Lapack_Cholesky<Dynamic> c(in.S); o.vec(c.backsub(in.a)); o.mat(c.get_inverse()); o.num(c.determinant()); o.mat(c.backsub(in.B)); TooN::Lapack_Cholesky<3> k(in.P); o.vec(k.backsub(in.u)); o.mat(k.get_L()); }
inline void d_qr_lapack(I in, Out& o) { TooN::QR_Lapack<> q(in.A); o.mat(q.get_Q()); o.mat(q.get_R()); TooN::QR_Lapack<3> k(in.M, true); o.mat(k.get_Q()); o.mat(k.get_R()); o.vec(k.get_P()); }
inline void d_gr_svd(I in, Out& o) { TooN::GR_SVD<3, 3> s(in.M); o.mat(s.get_U()); o.vec(s.get_diagonal()); o.mat(s.get_V()); o.mat(s.get_pinv()); o.vec(s.backsub(in.u)); TooN::GR_SVD<4, 4> t(in.H); o.vec(t.get_diagonal()); TooN::GR_SVD<3, 2> w(in.R.T()); o.vec(w.get_diagonal()); o.mat(w.get_V()); }
inline void d_wls(I in, Out& o) {
	TooN::WLS<> w(in.n); w.add_prior(0.5); for (int i = 0; i < in.n; i++) w.add_mJ(in.a[i], in.A[i], 1.5); TooN::WLS<> v(in.n); v.add_mJ(in.b[0], in.B[0]); w += v;
	w.compute(); o.vec(w.get_mu()); o.mat(w.get_C_inv());
	TooN::WLS<3> k; k.add_prior(in.P); k.add_mJ(in.u, in.M, Matrix<3>(in.P)); k.add_mJ(in.u[0], in.w); k.add_mJ_rows(makeVector(in.s, in.s), in.R, Matrix<2>(Identity)); k.compute(); o.vec(k.get_mu()); o.mat(k.get_decomposition().get_inverse());
	TooN::WLS<6> z; z.add_prior(1); z.add_sparse_mJ_rows(in.u, in.M, 0, in.K, 3, in.P); z.compute(); o.vec(z.get_mu());
}
inline void d_sl(I in, Out& o) { Vector<8> v = Zeros; v.slice<0, 3>() = in.u * 0.1; v.slice<3, 3>() = in.w * 0.1; TooN::SL<3> s(v); o.mat(s.get_matrix()); o.mat(s.inverse().get_matrix()); o.mat((s * TooN::SL<3>(in.M)).get_matrix()); o.vec(s * in.u); }
inline void d_simplex(I in, Out& o) { TooN::DownhillSimplex<2> d(rosen, makeVector(in.a[0] / 4, in.b[0] / 4), 0.75); for (int i = 0; i < 12; i++) d.iterate(rosen); o.vec(d.get_simplex()[d.get_best()]); o.vec(d.get_values()); Quad q{in.S, in.a}; TooN::DownhillSimplex<> e(q, in.b, 0.5); for (int i = 0; i < 8; i++) e.iterate(q); o.vec(e.get_values()); o.num(e.get_best()); }
inline void d_cg(I in, Out& o) { TooN::ConjugateGradient<2> c(makeVector(in.a[0] / 4, in.b[0] / 4), rosen, rosen_d); for (int i = 0; i < 5 && c.iterate(rosen, rosen_d); i++) {} o.vec(c.x); o.num(c.y); Quad q{in.S, in.a}; QuadD qd{in.S, in.a}; TooN::ConjugateGradient<> d(in.b, q, qd); for (int i = 0; i < 4 && d.iterate(q, qd); i++) {} o.vec(d.x); o.num(d.y); }
inline void d_derivs(I in, Out& o) { Quad q{in.S, in.a}; o.vec(TooN::numerical_gradient(q, in.b)); o.mat(TooN::numerical_gradient_with_errors(rosen, makeVector(in.a[0] / 8, 0.5))); o.mat(TooN::numerical_hessian(rosen, makeVector(0.5, in.a[0] / 8))); }
inline void d_exp_log(I in, Out& o) { Matrix<3> m = in.P * 0.02; Matrix<3> e = TooN::exp(m); o.mat(e); o.mat(TooN::log(e)); o.mat(TooN::sqrt(e)); }
inline void d_lie_misc(I in, Out& o) { o.vec(in.z1.ln()); Vector<7> z = in.z1.ln(); auto y = TooN::SIM3<>::exp(z); o.mat(y.get_rotation().get_matrix()); o.vec(y.get_translation()); o.num(y.get_scale()); Vector<4> k = in.y1.ln(); o.vec(k); auto f = TooN::SIM2<>::exp(k); o.vec(f.get_translation()); }

inline std::vector<Op<double>> all_double() {
	std::vector<Op<double>> v = generic_ops<double>();
	const Op<double> more[] = {
#define D(N) {#N, N}
		D(d_det), D(d_lu), D(d_svd), D(d_sym_eigen), D(d_lapack_chol), D(d_qr_lapack), D(d_gr_svd), D(d_wls), D(d_sl), D(d_simplex), D(d_cg), D(d_derivs), D(d_exp_log), D(d_lie_misc),
#undef D
	};
	for (auto& o : more) v.push_back(o);
	return v;
}
}
#endif
