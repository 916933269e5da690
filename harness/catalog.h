// A catalogue of library operations, each a function (const shared inputs) -> list of numbers.
// Instantiated for double and for sim::Num; used by several properties.
#ifndef VERIF_CATALOG_H
#define VERIF_CATALOG_H
#include "sim.h"
#include "scalar.h"
#include <TooN/TooN.h>
#include <TooN/Cholesky.h>
#include <TooN/LU.h>
#include <TooN/QR.h>
#include <TooN/GR_SVD.h>
#include <TooN/SymEigen.h>
#include <TooN/gauss_jordan.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/determinant.h>
#include <TooN/wls.h>
#include <TooN/irls.h>
#include <TooN/so2.h>
#include <TooN/se2.h>
#include <TooN/so3.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
#include <TooN/functions/derivatives.h>
#include <TooN/optimization/downhill_simplex.h>
#include <sstream>
#include <vector>
#include <string>
#include <utility>

namespace cat {
using TooN::Vector; using TooN::Matrix; using TooN::Dynamic; using TooN::Resizable; using TooN::Identity; using TooN::Zeros; using TooN::Ones;
using TooN::RowMajor; using TooN::ColMajor; using TooN::makeVector;
using sim::value;

struct Out {
	std::vector<double> v;
	void put(double d) { sim::heap::Paused p; v.push_back(d); }
	template<class P> void num(const P& x) { sim::NoPreempt n; put(value(x)); }
	void num(int x) { put(x); }
	void num(bool x) { put(x); }
	template<int N, class P, class B> void vec(const Vector<N, P, B>& x) { for (int i = 0; i < x.size(); i++) put(value(x[i])); }
	template<int R, int C, class P, class B> void mat(const Matrix<R, C, P, B>& x) { for (int i = 0; i < x.num_rows(); i++) for (int j = 0; j < x.num_cols(); j++) put(value(x(i, j))); }
	void str(const std::string& s) { for (unsigned char c : s) put(c); }
	bool operator==(const Out& o) const { if (v.size() != o.v.size()) return false; for (size_t i = 0; i < v.size(); i++) if (!sim::same_bits(v[i], o.v[i])) return false; return true; }
	std::string diff(const Out& o) const {
		if (v.size() != o.v.size()) return sim::fmt("%zu values against %zu", v.size(), o.v.size());
		for (size_t i = 0; i < v.size(); i++) if (!sim::same_bits(v[i], o.v[i])) return sim::fmt("value %zu of %zu is %.17g, expected %.17g", i, v.size(), v[i], o.v[i]);
		return "equal";
	}
};

// Shared, constant operands.
template<class T> struct In {
	int n;                       // dynamic size, 1..6
	Vector<Dynamic, T> a, b;
	Matrix<Dynamic, Dynamic, T> A, B, S;          // S symmetric positive definite, A well conditioned
	Matrix<Dynamic, Dynamic, T, ColMajor> C;
	Vector<3, T> u, w;
	Vector<4, T> q;
	Matrix<3, 3, T> M, P;                         // P symmetric positive definite
	Matrix<3, 3, T, ColMajor> K;
	Matrix<2, 3, T> R;
	Matrix<4, 4, T> H;
	T s;
	TooN::SO3<T> r1, r2;
	TooN::SE3<T> e1, e2;
	TooN::SO2<T> p1;
	TooN::SE2<T> f1;
	TooN::SIM3<T> z1;
	TooN::SIM2<T> y1;
	explicit In(int n_) : n(n_), a(n_), b(n_), A(n_, n_), B(n_, n_), S(n_, n_), C(n_, n_) {}
	// everything above as numbers, to see whether an operation touched its inputs
	void dump(Out& o) const {
		o.vec(a); o.vec(b); o.mat(A); o.mat(B); o.mat(S); o.mat(C); o.vec(u); o.vec(w); o.vec(q); o.mat(M); o.mat(P); o.mat(K); o.mat(R); o.mat(H); o.num(s);
		o.mat(r1.get_matrix()); o.mat(r2.get_matrix()); o.mat(e1.get_rotation().get_matrix()); o.vec(e1.get_translation()); o.mat(e2.get_rotation().get_matrix()); o.vec(e2.get_translation());
		o.mat(p1.get_matrix()); o.mat(f1.get_rotation().get_matrix()); o.vec(f1.get_translation());
		o.mat(z1.get_rotation().get_matrix()); o.vec(z1.get_translation()); o.num(z1.get_scale());
		o.mat(y1.get_rotation().get_matrix()); o.vec(y1.get_translation()); o.num(y1.get_scale());
	}
};
template<class T> void fill(sim::Run& r, In<T>& in) {
	auto x = [&] { return T(r.small_int(40) / 16.0); };
	int n = in.n;
	for (int i = 0; i < n; i++) { in.a[i] = x(); in.b[i] = x(); }
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { in.A(i, j) = T(x() + (i == j ? 7.5 : 0.0)); in.B(i, j) = x(); in.C(i, j) = x(); }
	for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { T v = x(); in.S(i, j) = v; in.S(j, i) = v; }
	for (int i = 0; i < n; i++) in.S(i, i) += 20.0;
	for (int i = 0; i < 3; i++) { in.u[i] = x(); in.w[i] = x(); }
	in.u[0] += 3.0; in.w[1] += 3.25;
	for (int i = 0; i < 4; i++) in.q[i] = x();
	in.q[3] += 4.0;
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { in.M(i, j) = T(x() + (i == j ? 6.5 : 0.0)); in.K(i, j) = x(); }
	for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) { T v = x(); in.P(i, j) = v; in.P(j, i) = v; }
	for (int i = 0; i < 3; i++) in.P(i, i) += 9.0;
	for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) in.R(i, j) = T(x() + (i == j ? 4.0 : 0.0));
	for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) in.H(i, j) = T(x() + (i == j ? 8.0 : 0.0));
	in.s = T(r.small_int(12) / 4.0 + 3.5);
	auto ang = [&] { return T(r.small_int(20) / 16.0); };
	Vector<3, T> v;
	v = makeVector(ang(), ang(), ang()); in.r1 = TooN::SO3<T>::exp(v);
	v = makeVector(ang(), ang(), ang()); in.r2 = TooN::SO3<T>::exp(v);
	in.e1.get_rotation() = in.r2; in.e1.get_translation() = makeVector(x(), x(), x());
	in.e2.get_rotation() = in.r1; in.e2.get_translation() = makeVector(x(), x(), x());
	in.p1 = TooN::SO2<T>::exp(ang());
	in.f1.get_rotation() = TooN::SO2<T>::exp(ang()); in.f1.get_translation() = makeVector(x(), x());
	in.z1.get_rotation() = in.r1; in.z1.get_translation() = makeVector(x(), x(), x()); in.z1.get_scale() = T(1.5);
	in.y1.get_rotation() = in.p1; in.y1.get_translation() = makeVector(x(), x()); in.y1.get_scale() = T(0.75);
}

template<class T> using Fn = void (*)(const In<T>&, Out&);
template<class T> struct Op { const char* name; Fn<T> f; };

// ------------------------------------------------------------------------------- generic ops
#define OP(N) template<class T> void op_##N(const In<T>& in, Out& o)

OP(vec_arith) { Vector<Dynamic, T> x = in.a + in.b * in.s - in.a / in.s; o.vec(x); o.vec(-x); o.num(T(in.a * in.b)); x += in.b; x -= in.a; x *= in.s; x /= in.s; o.vec(x); }
OP(vec_static) { Vector<3, T> x = in.u + in.w; o.vec(x); o.vec(in.u ^ in.w); o.num(T(in.u * in.w)); Vector<3, T> y = in.s * in.u; y = y + x; o.vec(y); Vector<Dynamic, T> z(in.u); z = z + in.w; o.vec(z); }
OP(outer) { Matrix<Dynamic, Dynamic, T> m = in.a.as_col() * in.b.as_row(); o.mat(m); Matrix<3, 3, T> k = in.u.as_col() * in.w.as_row(); o.mat(k); }
OP(mat_mul) { Matrix<Dynamic, Dynamic, T> m = in.A * in.B; o.mat(m); Matrix<Dynamic, Dynamic, T> k = in.C * in.A.T(); o.mat(k); o.vec(in.A * in.a); o.vec(in.b * in.C); }
OP(mat_mul_static) { o.mat(in.M * in.P); o.mat(in.K * in.M); o.mat(in.R * in.K); o.vec(in.R * in.u); o.vec(in.w * in.M); Matrix<3, 3, T> x = in.M; x = x * x; o.mat(x); }
OP(mat_add) { Matrix<Dynamic, Dynamic, T> m = in.A + in.B - in.C * in.s; o.mat(m); m += in.C; m -= in.A; m *= in.s; m /= in.s; o.mat(m); o.mat(-m); o.mat(m.T()); }
OP(mat_chain) { Matrix<Dynamic, Dynamic, T> m = (in.A + in.B) * (in.A - in.C).T() * in.B; o.mat(m); o.vec((in.A * in.B) * (in.a + in.b)); }
OP(views) {
	Matrix<4, 4, T> h = in.H;
	h.template slice<0, 0, 2, 2>() = in.H.template slice<2, 2, 2, 2>();
	h[3] = in.q; h.T()[0].slice(1, 2) = in.H[1].slice(2, 2);
	h.slice(1, 1, 2, 3) += in.H.slice(0, 0, 2, 3);
	h.diagonal_slice() *= in.s;
	o.mat(h); o.vec(h.diagonal_slice()); o.vec(h.T()[2]);
	Matrix<Dynamic, Dynamic, T> d = in.A; d[0] = in.a; d.T()[in.n - 1] = in.b; o.mat(d);
	o.vec(in.A[in.n - 1].slice(0, in.n)); o.mat(in.A.slice(0, 0, 1, in.n)); o.vec(in.A.T()[0]);
}
OP(layouts) { Matrix<Dynamic, Dynamic, T, ColMajor> c = in.A; Matrix<Dynamic, Dynamic, T> r = c; o.mat(c); o.mat(r); Matrix<3, 3, T, ColMajor> k = in.M; Matrix<3, 3, T> k2 = in.K; o.mat(k); o.mat(k2); r = c * r; c = r.T(); o.mat(c); }
OP(special) { Matrix<Dynamic, Dynamic, T> m = in.A + Identity; o.mat(m); m += Identity * in.s; o.mat(m); Matrix<Dynamic, Dynamic, T> z = Zeros(in.n, in.n + 1); o.mat(z); Vector<Dynamic, T> y = Ones(in.n); y += Ones; o.vec(y); Vector<3, T> x = Ones * in.s; o.vec(x); Matrix<3, 3, T> i = Identity; o.mat(i * in.M); m = Zeros; o.mat(m); }
OP(resizable) { Vector<Resizable, T> v(in.a); v = in.u; o.vec(v); v = in.a + in.b; o.vec(v); v.resize(in.n + 2); for (int i = 0; i < in.n + 2; i++) v[i] = in.s; o.vec(v); Vector<Resizable, T> c(v); c = v; v = in.q; o.vec(v); o.vec(c); v.resize(0); o.num(v.size()); }
OP(copies) { Vector<Dynamic, T> x(in.a), y(x), z(std::move(x)); o.vec(y); o.vec(z); swap(y, z); o.vec(y); Matrix<Dynamic, Dynamic, T> m(in.A), k(m); k = in.B; swap(m, k); o.mat(m); o.mat(k); std::vector<Vector<Dynamic, T>> all; { for (int i = 0; i < 4; i++) all.push_back(in.b * T(i)); } for (auto& v : all) o.vec(v); }
OP(diag) { o.vec(TooN::diagmult(in.a, in.b)); o.mat(TooN::diagmult(in.a, in.A)); o.mat(TooN::diagmult(in.A, in.b)); TooN::DiagonalMatrix<3, T> d(in.u); o.mat(d * in.M); o.mat(in.M * d); o.vec(d * in.w); }
OP(cholesky) { TooN::Cholesky<Dynamic, T> c(in.S); o.vec(c.backsub(in.a)); o.mat(c.get_inverse()); o.num(T(c.determinant())); o.mat(c.backsub(in.B)); TooN::Cholesky<3, T> k(in.P); o.vec(k.backsub(in.u)); o.mat(k.get_inverse()); }
OP(gauss_elim) { o.vec(TooN::gaussian_elimination(in.M, in.u)); Matrix<Dynamic, Dynamic, T> x = TooN::gaussian_elimination(in.A, in.B); o.mat(x); o.mat(TooN::gaussian_elimination(in.M, in.P)); }
OP(gauss_jordan) { int n = in.n; Matrix<Dynamic, Dynamic, T> g(n, 2 * n); g.slice(0, 0, n, n) = in.A; g.slice(0, n, n, n) = Identity; TooN::gauss_jordan(g); o.mat(g.slice(0, n, n, n)); }
OP(det) { o.num(T(TooN::determinant_gaussian_elimination(in.M))); o.num(T(TooN::determinant_gaussian_elimination(in.H))); o.num(T(TooN::determinant_gaussian_elimination(in.A))); }
OP(qr) { TooN::QR<Dynamic, Dynamic, T> q(in.A); o.mat(q.get_Q()); o.mat(q.get_R()); TooN::QR<3, 3, T> k(in.M); o.mat(k.get_Q()); o.mat(k.get_R()); }
OP(sym_eigen3) { TooN::SymEigen<3, T> e(in.P); o.vec(e.get_evalues()); o.mat(e.get_evectors()); o.vec(e.backsub(in.u)); o.mat(e.get_sqrtm()); }
OP(wls) { TooN::WLS<3, T> w; w.add_prior(in.s); w.add_mJ(in.s, in.u); w.add_mJ(in.u, in.M, Matrix<3, 3, T>(in.P)); w.compute(); o.vec(w.get_mu()); TooN::WLS<Dynamic, T> d(in.n); d.add_prior(in.s); d.add_mJ(in.s, in.a, in.s); d += d; d.compute(); o.vec(d.get_mu()); o.mat(d.get_C_inv()); }
template<class T> struct Bowl { const In<T>& in; T operator()(const Vector<3, T>& x) const { Vector<3, T> d = x - in.u; return d * (in.P * d); } };
OP(simplex) { Bowl<T> f{in}; TooN::DownhillSimplex<3, T> d(f, in.w, 1.0); for (int i = 0; i < 6; i++) d.iterate(f); o.vec(d.get_values()); o.vec(d.get_simplex()[d.get_best()]); }
OP(norms) { o.num(T(TooN::norm(in.a))); o.num(T(TooN::norm_sq(in.u))); o.num(T(TooN::norm_1(in.a))); o.num(T(TooN::norm_inf(in.b))); o.vec(TooN::unit(in.u)); Vector<3, T> x = in.w; TooN::normalize(x); o.vec(x); o.num(T(TooN::norm_fro(in.A))); o.num(T(TooN::norm_inf(in.A))); o.num(T(TooN::norm_1(in.M))); }
OP(project) { o.vec(TooN::project(in.q)); o.vec(TooN::unproject(in.a)); o.vec(TooN::project(TooN::unproject(in.u))); o.vec(TooN::project(TooN::unproject(in.b))); }
OP(mat_exp) { o.mat(TooN::exp(Matrix<3, 3, T>(in.P * T(0.01)))); o.num(T(TooN::trace(in.A))); o.mat(TooN::cross_product_matrix(in.u)); }
OP(extrema) {
	o.num(T(TooN::min_value(in.a))); o.num(T(TooN::max_value(in.A))); o.num(TooN::max_element(in.b).second); o.num(TooN::min_element(in.B).second.first);
	o.vec(TooN::min_value_vertical(in.A)); o.vec(TooN::max_value_horizontal(in.A)); o.vec(TooN::max_value_vertical(in.M)); o.vec(TooN::min_value_horizontal(in.K));
	o.vec(TooN::max_element_vertical(in.B).second); o.vec(TooN::min_element_horizontal(in.B).first); o.vec(TooN::min_element_vertical(in.A).first); o.vec(TooN::max_element_horizontal(in.C).second);
}
OP(checks) { o.num(TooN::isfinite(in.a)); o.num(TooN::isnan(in.u)); o.num(TooN::isnan(in.A)); Matrix<3, 3, T> m = in.M; TooN::Symmetrize(m); o.mat(m); }
OP(so3) { o.mat((in.r1 * in.r2).get_matrix()); o.vec((in.r1 * in.r2.inverse()).ln()); o.vec(in.r1 * in.u); o.mat(TooN::SO3<T>::exp(in.u * T(0.25)).get_matrix()); o.vec(in.w * in.r2); TooN::SO3<T> k = in.r1; k *= in.r2; o.mat(k.get_matrix()); o.mat(TooN::SO3<T>(in.u, Vector<3, T>(in.u * T(16) + in.w)).get_matrix()); o.vec(in.r1.adjoint(in.u)); TooN::SO3<T> z(in.M); o.mat(z.get_matrix()); }
OP(se3) { auto e = in.e1 * in.e2.inverse(); o.mat(e.get_rotation().get_matrix()); o.vec(e.get_translation()); o.vec(in.e1.ln()); o.vec(in.e1 * in.q); Vector<6, T> m; m.template slice<0, 3>() = in.u; m.template slice<3, 3>() = in.w * T(0.25); auto x = TooN::SE3<T>::exp(m); o.mat(x.get_rotation().get_matrix()); o.vec(x.get_translation()); o.vec(in.e1.adjoint(m)); o.vec(in.e2.trinvadjoint(m)); }
OP(planar) { auto p = in.p1 * in.p1; o.mat(p.get_matrix()); o.num(T(in.p1.ln())); auto f = in.f1 * in.f1.inverse() * in.f1; o.mat(f.get_rotation().get_matrix()); o.vec(f.get_translation()); o.vec(in.f1.ln()); auto y = in.y1 * in.y1.inverse(); o.vec(y.get_translation()); o.num(T(y.get_scale())); o.vec(in.f1 * in.u); }
OP(sim3) { auto z = in.z1 * in.z1; o.mat(z.get_rotation().get_matrix()); o.vec(z.get_translation()); o.num(T(z.get_scale())); auto i = in.z1.inverse(); o.vec(i.get_translation()); o.vec(in.z1 * in.q); }
OP(fill) { Vector<3, T> v; TooN::Fill(v) = in.s, in.u[0] + in.u[1], in.w[2]; o.vec(v); Matrix<2, 2, T> m; TooN::Fill(m) = in.s * in.s, in.u[1], in.w[0] - in.s, in.u[2]; o.mat(m); Vector<Dynamic, T> d(2); TooN::Fill(d) = in.s, in.a[0] * in.b[0]; o.vec(d); d = TooN::Data(in.s, in.u[2]); o.vec(d); Matrix<Dynamic, Dynamic, T> k(3, 1); TooN::Fill(k) = in.s, in.u[1], in.u[2] * in.s; o.mat(k); }
OP(stream_out) { std::ostringstream s; s.precision(12); { s << in.a << in.A << in.u << in.K; } sim::heap::Paused p; o.str(s.str()); }

template<class T> const std::vector<Op<T>>& generic_ops() {
	sim::heap::Paused hp; sim::NoPreempt np;
	static const std::vector<Op<T>> v = {
#define E(N) {#N, op_##N<T>}
		E(vec_arith), E(vec_static), E(outer), E(mat_mul), E(mat_mul_static), E(mat_add), E(mat_chain), E(views), E(layouts), E(special), E(resizable), E(copies), E(diag),
		E(cholesky), E(gauss_elim), E(gauss_jordan), E(det), E(qr), E(sym_eigen3), E(wls), E(simplex), E(norms), E(project), E(mat_exp), E(extrema), E(checks), E(so3), E(se3), E(planar), E(sim3), E(fill), E(stream_out),
	};
	return v;
}
}
#endif
