// More of the catalogue: the rest of the pose classes, the optimisers, reweighting, text form.
#ifndef VERIF_CATALOG_MORE_H
#define VERIF_CATALOG_MORE_H
#include "catalog_double.h"
#include <TooN/optimization/brent.h>
#include <TooN/optimization/golden_section.h>
namespace cat {
template<class P, class G> inline void pose_out(const G& g, Out& o) { o.mat(g.get_rotation().get_matrix()); o.vec(g.get_translation()); }
template<class T> inline Vector<6, T> twist(const In<T>& in, double k) { Vector<6, T> m; m.template slice<0, 3>() = in.u; m.template slice<3, 3>() = in.w * T(k); return m; }

OP(pose_inplace) {
	TooN::SE3<T> e = in.e1; e *= in.e2; pose_out<T>(e, o); e.left_multiply_by(in.e1); pose_out<T>(e, o);
	TooN::SIM3<T> z = in.z1; z *= in.z1; pose_out<T>(z, o); z.left_multiply_by(in.z1); pose_out<T>(z, o); o.num(T(z.get_scale()));
	TooN::SO2<T> p = in.p1; p *= in.p1; o.mat(p.get_matrix()); TooN::SE2<T> f = in.f1; f *= in.f1; pose_out<T>(f, o); TooN::SIM2<T> y = in.y1; y *= in.y1; pose_out<T>(y, o); o.num(T(y.get_scale()));
	TooN::SO3<T> r = in.r1; r *= in.r2; o.mat(r.get_matrix()); o.mat(r.inverse().get_matrix());
}
OP(pose_matrices) {
	o.mat(in.e1 * in.H); o.mat(in.H * in.e2); o.vec(in.e1 * in.u); o.vec(in.q * in.e1); o.mat(in.z1 * in.H); o.mat(in.H * in.z1); o.vec(in.q * in.z1); o.vec(in.z1 * in.u);
	o.mat(in.f1 * in.M); o.mat(in.M * in.f1); o.vec(in.w * in.f1); o.vec(in.y1 * in.u); o.vec(in.u * in.y1); o.mat(in.y1 * in.M); o.mat(in.M * in.y1);
	o.mat(in.r1 * in.M); o.mat(in.M * in.r2); Vector<2, T> x = in.u.template slice<0, 2>(); o.vec(in.p1 * x); o.vec(x * in.p1); o.vec(in.f1 * x); o.vec(in.y1 * x); o.mat(in.p1 * in.R);
}
OP(adjoints) {
	Vector<6, T> m = twist(in, 0.25); Matrix<6, 6, T> A = Identity; A[1] = m; A.T()[4] += m;
	o.vec(in.e1.adjoint(m)); o.vec(in.e1.trinvadjoint(m)); o.mat(in.e2.adjoint(A)); o.mat(in.e2.trinvadjoint(A));
	Vector<7, T> k; k.template slice<0, 6>() = m; k[6] = in.s; Matrix<7, 7, T> B = Identity; B[2] = k; o.vec(in.z1.adjoint(k)); o.vec(in.z1.trinvadjoint(k)); o.mat(in.z1.adjoint(B)); o.mat(in.z1.trinvadjoint(B));
	o.vec(in.f1.adjoint(in.u)); o.mat(in.f1.adjoint(in.M)); o.vec(in.y1.adjoint(in.q)); o.mat(in.y1.adjoint(in.H)); o.vec(in.r1.adjoint(in.w));
}
OP(generators) {
	for (int i = 0; i < 3; i++) { o.mat(TooN::SO3<T>::generator(i) * in.M); o.vec(TooN::SO3<T>::generator_field(i, in.u)); o.mat(TooN::SE2<T>::generator(i) * in.M); }
	for (int i = 0; i < 6; i++) { o.mat(TooN::SE3<T>::generator(i) * in.H); o.vec(TooN::SE3<T>::generator_field(i, in.q)); }
	for (int i = 0; i < 7; i++) { o.mat(TooN::SIM3<T>::generator(i) * in.H); o.vec(TooN::SIM3<T>::generator_field(i, in.q)); }
	for (int i = 0; i < 4; i++) o.mat(TooN::SIM2<T>::generator(i) * in.M);
	o.mat(TooN::SO2<T>::generator() * in.R);
}
OP(exp_ln) {
	for (double k : {0.25, 1e-3, 1e-6, 0.0}) {
		Vector<6, T> m = twist(in, k); TooN::SE3<T> e = TooN::SE3<T>::exp(m); pose_out<T>(e, o); o.vec(e.ln()); o.vec(TooN::SO3<T>::exp(in.w * T(k)).ln());
		Vector<3, T> v = in.u * T(k); TooN::SE2<T> f = TooN::SE2<T>::exp(v); pose_out<T>(f, o); o.vec(f.ln()); o.num(T(TooN::SO2<T>::exp(v[1]).ln()));
	}
	TooN::SO3<T> h(in.u, in.w); o.mat(h.get_matrix()); o.vec(h.ln()); TooN::SE3<T> e(TooN::SO3<T>(in.r1), in.u); pose_out<T>(e, o);
	Vector<3, T> big; big = makeVector(T(3.0) + in.u[0] * T(1e-3), in.w[0] * T(0.01), T(0.1)); o.vec(TooN::SO3<T>::exp(big).ln());
}
OP(coerce) {
	TooN::SO3<T> a; a = Matrix<3, 3, T>(in.M + Identity); o.mat(a.get_matrix()); TooN::SO3<T> b(in.P); o.mat(b.get_matrix()); b.coerce(); o.mat(b.get_matrix());
	TooN::SO2<T> c(Matrix<2, 2, T>(in.M.template slice<0, 0, 2, 2>())); o.mat(c.get_matrix()); TooN::SO2<T> d; d = Matrix<2, 2, T>(in.P.template slice<0, 0, 2, 2>()); o.mat(d.get_matrix());
}
OP(sl) {
	TooN::SL<3, T> s(in.M); o.mat(s.get_matrix()); TooN::SL<3, T> t(in.P); o.mat((s * t).get_matrix()); s *= t; o.mat(s.get_matrix()); o.vec(s * in.u); o.vec(in.u * t);
	for (int i = 0; i < 8; i++) o.mat(TooN::SL<3, T>::generator(i) * in.K);
	Vector<8, T> v = Zeros; v.template slice<0, 3>() = in.u * T(0.0625); v[7] = in.w[0] * T(0.0625); TooN::SL<3, T> e(v); o.mat(e.get_matrix()); o.mat(e.inverse().get_matrix());
}
template<class T, template<class> class W> inline void irls_out(const In<T>& in, Out& o) {
	TooN::IRLS<3, T, W> w; w.set_sd(in.s); w.add_prior(in.s);
	for (int i = 0; i < 3; i++) { w.add_mJ(in.u[i], in.M[i]); w.add_mJ(in.w[i], in.P.T()[i]); }
	w.compute(); o.vec(w.get_mu()); o.mat(w.get_C_inv()); w.compute(); o.vec(w.get_mu()); w.clear(); w.add_prior(in.s); w.compute(); o.vec(w.get_mu());
}
OP(extract) { Matrix<Dynamic, Dynamic, T> m = in.A; o.vec(m.diagonal_slice()); o.num(T(TooN::trace(m))); TooN::Symmetrize(m); o.mat(m); Matrix<2, 3, T> f; TooN::Fill(f) = in.s, in.s, in.u[0], in.u[1], in.u[2], in.w[0]; o.mat(f); }
template<class M> inline void flip(M& m) { for (int i = 0; i < m.num_rows() / 2; i++) for (int j = 0; j < m.num_cols(); j++) { auto t = m(i, j); m(i, j) = m(m.num_rows() - 1 - i, j); m(m.num_rows() - 1 - i, j) = t; } }
OP(pivot) {  // elimination with row exchanges, and of singular matrices
	Matrix<3, 3, T> m = in.M; flip(m); Matrix<4, 4, T> h = in.H; flip(h); Matrix<Dynamic, Dynamic, T> a = in.A; flip(a);
	o.vec(TooN::gaussian_elimination(m, in.u)); o.mat(TooN::gaussian_elimination(a, in.B)); o.mat(TooN::gaussian_elimination(h, in.H)); o.vec(TooN::gaussian_elimination(a, in.a));
	o.num(T(TooN::determinant_gaussian_elimination(m))); o.num(T(TooN::determinant_gaussian_elimination(h))); o.num(T(TooN::determinant_gaussian_elimination(a)));
	Matrix<3, 6, T> g; g.template slice<0, 0, 3, 3>() = m; g.template slice<0, 3, 3, 3>() = Identity; TooN::gauss_jordan(g); o.mat(g);
	h[1] = h[2]; o.num(T(TooN::determinant_gaussian_elimination(h)));
}
OP(chol_parts) {
	TooN::Cholesky<3, T> c(in.P); Matrix<3, 3, T> m; m = c.get_unscaled_L(); o.mat(m); m = c.get_D(); o.mat(m); m = c.get_L(); o.mat(m); o.num(T(c.mahalanobis(in.u))); o.num(c.rank());
	TooN::Cholesky<Dynamic, T> d(in.n); d.compute(in.S); o.mat(d.get_L()); o.mat(d.get_inverse()); Matrix<3, 3, T> z = in.P; z[2] = z[1]; z.T()[2] = z.T()[1]; z(2, 2) = z(1, 1); TooN::Cholesky<3, T> k(z); o.num(k.rank()); o.mat(k.get_D());
}
OP(homogeneous) { o.mat(TooN::project(in.M)); o.mat(TooN::unproject(in.R)); o.mat(TooN::project(in.H)); o.mat(TooN::unproject(in.A)); Matrix<Dynamic, Dynamic, T> b = in.B; b[in.n - 1] = Ones; o.mat(TooN::project(b)); }
OP(forms) {
	Matrix<Dynamic, Dynamic, T> A = in.A; Vector<Dynamic, T> a = in.a; o.mat(a.as_diagonal() * A); o.mat(a.as_row() * A); o.mat(A * a.as_col()); o.vec(in.u.as_diagonal() * in.w); o.mat(in.K * in.u.as_diagonal());
	Matrix<3, 3, T> m = in.M; m.diagonal_slice() = in.u; m.T()[1] += in.w; m[0].template slice<1, 2>() *= in.s; o.mat(m); o.mat(-m); o.mat(T(2) * m); o.mat(m / in.s); m = m.T(); o.mat(m); o.num(m == in.M); o.num(m != m);
	o.vec(in.u - Ones * in.s); Vector<3, T> x = in.u + Ones; x -= Ones * in.s; o.vec(x); o.mat(in.M - Identity); o.mat(Identity * in.s - in.M); o.vec(TooN::diagmult(in.u, in.w)); o.mat(TooN::cross_product_matrix(in.u) * in.K);
	Vector<4, T> q = in.q; swap(q[0], q[3]); o.vec(q); o.vec(q.template slice<1, 3>() ^ in.u); Vector<Dynamic, T> c(in.a); c = in.b; o.vec(c + in.a * in.s);
}
OP(chains) { Vector<3, T> v = in.M * in.u + in.w * in.s - in.P * in.w / T(2); o.vec(v); o.num(T(in.u * in.M * in.w)); Matrix<3, 3, T> m = in.M * in.P * in.K.T() + in.u.as_col() * in.w.as_row(); o.mat(m); o.mat(in.M.T() * in.M - in.P * in.s); m = m * in.P; o.mat(m); }
struct Curve { double c, k; template<class P> P operator()(P x) const { return (x - P(c)) * (x - P(c)) * (P(1) + P(k) * (x - P(c)) * (x - P(c))) + P(k); } };
struct Bumps { const In<double>& in; template<int N, class P, class B> double operator()(const Vector<N, P, B>& x) const { double s = 0; for (int i = 0; i < x.size(); i++) s += (x[i] - in.b[i % in.n]) * (x[i] - in.b[i % in.n]) * (1 + i) + 0.125 * x[i] * x[(i + 1) % x.size()]; return s; } };
inline void d_line_search(I in, Out& o) {
	Curve c{in.u[0] / 8, 0.5 + in.s};
	o.vec(TooN::brent_line_search(c.c - 2, c.c + 0.5, c.c + 2.5, c(c.c + 0.5), c, 20, 1e-4, 1e-10)); o.vec(TooN::golden_section_search(c.c - 1.5, c.c + 0.25, c.c + 3, c(c.c + 0.25), c, 30, 1e-4)); o.vec(TooN::golden_section_search(c.c - 1.5, c.c + 0.25, c.c + 3, c, 10, 1e-3));
	o.vec(TooN::brent_line_search(c.c - 2, c.c - 0.5, c.c + 2.5, c(c.c - 0.5), c, 6, 1e-4, 1e-10));
	Matrix<3, 2> br = TooN::Internal::bracket_minimum_forward(in.s / 64, c, 0.125, 1e10); o.mat(br);
}
inline void d_simplex_many(I in, Out& o) {
	Bumps f{in}; TooN::DownhillSimplex<4> d(f, in.q, 0.5); for (int i = 0; i < 25 && !d.finished(); i++) d.iterate(f); o.vec(d.get_values()); o.mat(d.get_simplex()); o.num(d.get_best()); o.num(d.get_worst());
	d.restart(f, in.q, 0.25); for (int i = 0; i < 10; i++) d.find_next_point(f); o.mat(d.get_simplex());
}
inline void d_irls(I in, Out& o) { irls_out<double, TooN::RobustI>(in, o); irls_out<double, TooN::RobustII>(in, o); irls_out<double, TooN::ILinear>(in, o); }
inline void d_gradients(I in, Out& o) { Bumps f{in}; o.vec(TooN::numerical_gradient(f, in.q)); o.mat(TooN::numerical_gradient_with_errors(f, in.u)); o.mat(TooN::numerical_hessian(f, in.u)); auto h = TooN::numerical_hessian_with_errors(f, in.u); o.mat(h.first); o.mat(h.second); }
inline void d_lapack_more(I in, Out& o) {
	TooN::Lapack_Cholesky<3> c(in.P); o.num(c.rank()); o.vec(c.backsub(in.w)); o.mat(c.get_L()); TooN::QR_Lapack<3, 3, double> q(in.M, true); o.mat(q.get_Q()); o.mat(q.get_R());
	TooN::SymEigen<2> e(Matrix<2>(in.P.slice<0, 0, 2, 2>())); o.vec(e.get_evalues()); o.mat(e.get_evectors()); TooN::SymEigen<4> f(Matrix<4>(in.H + in.H.T())); o.vec(f.get_evalues()); o.vec(f.backsub(in.q)); o.mat(f.get_pinv()); o.num(f.is_negdef());
	TooN::SVD<2, 3> s(in.R); o.mat(s.get_pinv()); o.vec(s.get_diagonal()); o.num(s.rank()); o.num(s.determinant());
	TooN::GR_SVD<3, 3> g(in.P); o.mat(g.get_pinv()); g.reorder(); o.vec(g.get_diagonal()); TooN::LU<4> l(in.H); o.num(l.determinant()); o.mat(l.backsub(in.H)); o.mat(l.get_inverse());
}
inline void d_singular(I in, Out& o) {
	Matrix<3> r1 = in.u.as_col() * in.w.as_row(); Matrix<> z = in.a.as_col() * in.a.as_row(); Matrix<3> neg = -in.P;
	TooN::SVD<3, 3> s(r1); o.num(s.rank(1e6)); o.vec(s.backsub(in.w, 1e6)); o.mat(s.get_pinv(1e6)); TooN::SVD<> d(z); o.num(d.rank(1e6)); o.mat(d.get_pinv(1e6));
	TooN::GR_SVD<3, 3> g(in.u.as_col() * in.u.as_row()); o.mat(g.get_pinv(1e6)); o.vec(g.backsub(in.u, 1e6)); Matrix<4, 3> t; t.slice<0, 0, 3, 3>() = in.M; t[3] = in.w; TooN::GR_SVD<4, 3> tall(t); o.mat(tall.get_U()); o.vec(tall.get_diagonal()); o.mat(tall.get_pinv());
	{ Matrix<3> b = Zeros; b(0, 0) = in.u[0]; b(0, 1) = in.w[1]; b(1, 2) = in.s; b(2, 2) = in.w[0]; TooN::GR_SVD<3, 3> x(b); o.vec(x.get_diagonal()); o.mat(x.get_U()); o.mat(x.get_V()); Matrix<4> c = Zeros; c.slice<0, 1, 3, 3>() = in.M; TooN::GR_SVD<4, 4> y(c); o.vec(y.get_diagonal()); o.mat(y.get_U()); }
	TooN::SymEigen<> e(z); o.vec(e.get_inv_diag(1e6)); o.mat(e.get_pinv(1e6)); o.mat(e.get_isqrtm(1e6)); TooN::SymEigen<3> f(neg); o.num(f.is_negdef()); o.num(f.is_posdef()); o.num(f.get_determinant()); o.mat(f.get_pinv());
	TooN::Lapack_Cholesky<Dynamic> c(z); o.num(c.rank()); Matrix<> up(in.n, in.n + 2); up.slice(0, 0, in.n, in.n) = in.A; up.T()[in.n] = in.a; up.T()[in.n + 1] = in.b; TooN::SVD<> w(up); o.mat(w.get_U()); o.vec(w.get_diagonal()); o.mat(w.get_VT());
	TooN::SVD<> wt(up.T()); o.mat(wt.get_pinv()); TooN::SQSVD<3, double> q(in.M); o.vec(q.backsub(in.u)); Matrix<3> fm = in.M; flip(fm); TooN::LU<3> l(fm); o.num(l.determinant()); o.mat(l.get_inverse()); o.num(TooN::determinant(fm)); Matrix<5> five = Identity; five.slice<0, 1, 4, 4>() = in.H; o.num(TooN::determinant(five)); o.num(TooN::determinant_LU(in.A));
	o.mat(TooN::sqrt(Matrix<3>(in.P))); o.mat(TooN::log(Matrix<3>(TooN::exp(Matrix<3>(in.P * 0.03)))));
}
inline void d_sim_exp(I in, Out& o) {
	for (double k : {0.25, 1e-3, 1e-7}) {
		Vector<7> v; v.slice<0, 6>() = twist(in, k); v[6] = in.s * 0.125 * k; auto y = TooN::SIM3<>::exp(v); pose_out<double>(y, o); o.num(y.get_scale()); o.vec(y.ln());
		Vector<4> w = in.q * k; auto p = TooN::SIM2<>::exp(w); pose_out<double>(p, o); o.num(p.get_scale()); o.vec(p.ln());
	}
}
// text in and out (callers only: a stream reports what happened through its state)
inline void d_text(I in, Out& o) {
	std::stringstream s; s.precision(17);
	s << in.A << '\n' << in.a << '\n' << in.M << in.e1 << in.r2 << '\n' << in.f1 << in.z1 << in.y1 << in.p1 << '\n' << in.q << '\n';
	Matrix<> A(in.n, in.n); Vector<> a(in.n); Matrix<3> M; TooN::SE3<> e; TooN::SO3<> r; TooN::SE2<> f; TooN::SIM3<> z; TooN::SIM2<> y; TooN::SO2<> p; Vector<4> q = Zeros;
	s >> A >> a >> M >> e >> r >> f >> z >> y >> p >> q;
	o.mat(A); o.vec(a); o.mat(M); pose_out<double>(e, o); o.mat(r.get_matrix()); pose_out<double>(f, o); pose_out<double>(z, o); o.num(z.get_scale()); pose_out<double>(y, o); o.mat(p.get_matrix()); o.vec(q); o.num((bool)s);
	std::stringstream sl; sl.precision(17); sl << in.M << in.P; TooN::SL<3> l1, l2; sl >> l1 >> l2; o.mat(l1.get_matrix()); o.mat(l2.get_matrix());
	std::ostringstream t; t << TooN::SL<3>(in.M) << in.K << in.A.T() << in.H.slice<1, 1, 2, 3>(); std::string text = t.str(); o.str(text);
}
template<class T> struct Sl { static void add(std::vector<Op<T>>&) {} };   // its determinant is LAPACK's
template<> struct Sl<double> { static void add(std::vector<Op<double>>& v) { v.push_back({"sl", op_sl<double>}); } };
template<> struct Sl<float> { static void add(std::vector<Op<float>>& v) { v.push_back({"sl", op_sl<float>}); } };
template<class T> inline void add_more(std::vector<Op<T>>& v) {
	const Op<T> more[] = {
#define E(N) {#N, op_##N<T>}
		E(pose_inplace), E(pose_matrices), E(adjoints), E(generators), E(exp_ln), E(coerce), E(extract), E(pivot), E(chol_parts), E(homogeneous), E(forms), E(chains),
#undef E
	};
	for (auto& o : more) v.push_back(o);
	Sl<T>::add(v);
}
inline void add_more_double(std::vector<Op<double>>& v) {
	const Op<double> more[] = {
#define D(N) {#N, N}
		D(d_line_search), D(d_simplex_many), D(d_irls), D(d_gradients), D(d_lapack_more), D(d_singular), D(d_sim_exp),
#undef D
	};
	for (auto& o : more) v.push_back(o);
}
}
#endif
