// C26: the debugging options change what is checked and what fresh elements hold, and nothing else.
//
// The library is compiled once for every set of options (CFG=k, with the namespace TooN renamed to TooN_k), all in one
// process. A run is a sequence of seeded operations from all over the library; every build executes each of them, with
// different garbage in heap and stack and its own clock, and must give the same bits. Fresh elements have the documented
// initial value; requests which do not fit are rejected by the builds which promise to, in the promised way, and leave the
// objects as they were.
#include "sim.h"
#include <vector>
#include <string>
#include <cstring>
#include <cmath>
#include <limits>
#include <ctime>
using namespace sim;
typedef std::vector<double> Out;
enum Init { ANYTHING, SNANS, QNANS, VALUE };
enum Rej { SERVED, ABORTED, THROWN, SKIPPED };
struct Build { const char* options; bool bounds, slices, sizes, fill, mismatch, throws; Init init; void (*op)(int, uint64_t, Out&); void (*fresh)(uint64_t, Out&); int (*misuse)(int, uint64_t, Out&); };
enum { OPS = 25, MISUSES = 17, BUILDS = 7 };
extern Build build_0, build_1, build_2, build_3, build_4, build_5, build_6;
#ifdef CFG
#include <TooN/TooN.h>
#include <TooN/LU.h>
#include <TooN/Cholesky.h>
#include <TooN/Lapack_Cholesky.h>
#include <TooN/SVD.h>
#include <TooN/GR_SVD.h>
#include <TooN/QR.h>
#include <TooN/QR_Lapack.h>
#include <TooN/SymEigen.h>
#include <TooN/gauss_jordan.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/determinant.h>
#include <TooN/se2.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
#include <TooN/wls.h>
#include <TooN/irls.h>
#include <TooN/optimization/downhill_simplex.h>
#include <TooN/optimization/conjugate_gradient.h>
#include <TooN/optimization/brent.h>
#include <TooN/optimization/golden_section.h>
#include <TooN/functions/derivatives.h>
#include <sstream>
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
namespace {
using namespace TooN;
struct G { Rng r; G(uint64_t s) : r(s) {} int n(int k) { return (int)r.below(k); } double d() { return (int)r.below(33) / 8.0 - 2; } double e() { return d() + (int)r.below(1000) / 1024.0; } };
void add(Out& o, double x) { o.push_back(x); }
template<int S, class P, class B> void add(Out& o, const Vector<S, P, B>& v) { o.push_back(v.size()); for (int i = 0; i < v.size(); i++) o.push_back(v[i]); }
template<int R, int C, class P, class B> void add(Out& o, const Matrix<R, C, P, B>& m) { o.push_back(m.num_rows()); for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) o.push_back(m(i, j)); }
template<class V> void fillv(G& g, V&& v) { for (int i = 0; i < v.size(); i++) v[i] = g.e(); }
template<class M> void fillm(G& g, M&& m) { for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) m(i, j) = g.e(); }
template<class M> void spd(G& g, M&& m) { Matrix<> a(m.num_rows(), m.num_rows()); fillm(g, a); m = a * a.T(); for (int i = 0; i < m.num_rows(); i++) m(i, i) += 1; }
Vector<> rv(G& g, int n) { Vector<> v(n); fillv(g, v); return v; }
template<class T> T pose_arg(G& g) { T v; for (int i = 0; i < v.size(); i++) v[i] = g.d() / 3; return v; }
double bowl(const Vector<>& x) { double s = 0; for (int i = 0; i < x.size(); i++) s += (i + 1) * (x[i] - i) * (x[i] - i) + std::cos(x[i]) * .25; return s; }
Vector<> bowl_grad(const Vector<>& x) { Vector<> g(x.size()); for (int i = 0; i < x.size(); i++) g[i] = 2 * (i + 1) * (x[i] - i) - std::sin(x[i]) * .25; return g; }
double line(double x) { return (x - .7) * (x - .7) + .1 * x * x * x * x; }

// objects of a few bytes: nothing around them may change while they come into being
template<class V> void alone(Out& o) { enum { B = sizeof(V) }; alignas(16) unsigned char room[B + 32]; for (unsigned char& c : room) c = 77; V* v = new (room) V(); int spoilt = 0; for (int i = B; i < B + 32; i++) spoilt += room[i] != 77; v->~V(); o.push_back(spoilt); }
template<class T> void narrow(G& g, int n, int m, Out& o) {
	switch (g.n(6)) { case 0: alone<Vector<1, T>>(o); break; case 1: alone<Vector<3, T>>(o); break; case 2: alone<Vector<5, T>>(o); break; case 3: alone<Vector<7, T>>(o); break; case 4: alone<Matrix<1, 3, T>>(o); break; default: alone<Matrix<3, 3, T>>(o); }
	Vector<Dynamic, T> a(n); Matrix<Dynamic, Dynamic, T> b(n, m); Vector<Resizable, T> c(n); Vector<3, T> d; int room = 3; for (int i = 0; i < n; i++) { a[i] = T(g.n(room)); c[i] = T(g.n(room)); for (int j = 0; j < m; j++) b(i, j) = T(g.n(room)); } for (int i = 0; i < 3; i++) d[i] = T(g.n(room));
	int k = g.n(8); c.resize(k); for (int i = n; i < k; i++) c[i] = 1; for (int i = 0; i < k; i++) o.push_back(c[i]); for (int i = 0; i < n; i++) o.push_back(a[i]); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) o.push_back(b(i, j)); for (int i = 0; i < 3; i++) o.push_back(d[i]);
	Vector<Dynamic, T> e(a), f = a + e; e = f; for (int i = 0; i < n; i++) o.push_back(e[i]);
}

void run_op(int op, uint64_t seed, Out& o) {
	G g(seed); int n = 1 + g.n(5), m = 1 + g.n(4); if (g.n(40) == 39) { n += g.n(20); m += g.n(20); }
	switch (op) {
		case 0: { Vector<> a = rv(g, n), b = rv(g, n); Vector<> c = a + b * 2 - a / 3; add(o, c); add(o, a * b); c += a; c -= Ones * .5; c *= 3; add(o, c); add(o, -c); Vector<3> s; fillv(g, s); Vector<3> t = s ^ makeVector(1, 2, 3); add(o, t); add(o, Vector<3>(s.as_diagonal() * t)); add(o, norm(s)); add(o, unit(t + Ones)); add(o, project(unproject(s))); break; }
		case 1: { Matrix<> a(n, m), b(m, n); fillm(g, a); fillm(g, b); Matrix<> c = a * b; add(o, c); Matrix<Dynamic, Dynamic, double, ColMajor> d = b.T() + a; add(o, d); add(o, Vector<>(a * rv(g, m))); add(o, Vector<>(rv(g, n) * a)); c = c * c; c += Identity; c *= 2; add(o, c); add(o, trace(c)); add(o, norm_fro(c)); Matrix<2, 3> s; fillm(g, s); add(o, Matrix<3, 2>(s.T())); add(o, Matrix<2>(s * s.T())); break; }
		case 2: { Matrix<> a(n + 2, m + 2); fillm(g, a); a.slice(1, 1, n, m) *= 2; a[0].slice(0, m) += a[n + 1].slice(1, m); a.T()[1] = Zeros; a.slice(0, 0, 2, 2).diagonal_slice() = Ones; add(o, a); Matrix<4, 3> f; fillm(g, f); f.slice<1, 0, 2, 2>() = f.slice<2, 1, 2, 2>() * 3; f[0].slice<1, 2>() = makeVector(5, 6); add(o, f); Vector<5> v; fillv(g, v); v.slice<0, 2>() = v.slice<3, 2>(); v.slice(1, 3) *= .5; add(o, v); add(o, Matrix<1, 5>(v.as_row())); add(o, v[0]); break; }
		case 3: { Matrix<> a(n, n); spd(g, a); LU<> l(a); add(o, l.backsub(rv(g, n))); Matrix<> b(n, m); fillm(g, b); add(o, l.backsub(b)); add(o, l.get_inverse()); add(o, l.determinant()); Matrix<3> s; spd(g, s); LU<3> t(s); add(o, t.get_inverse()); add(o, t.get_lu()); t.compute(s * 2); add(o, t.determinant()); break; }
		case 4: { Matrix<> a(n, n); spd(g, a); Cholesky<> c(a); add(o, c.backsub(rv(g, n))); add(o, c.get_inverse()); add(o, c.determinant()); Matrix<3> s; spd(g, s); Cholesky<3> t(s); add(o, t.get_L()); add(o, t.get_D()); add(o, t.get_inverse()); Lapack_Cholesky<Dynamic> q(a); add(o, q.backsub(rv(g, n))); add(o, q.get_L()); add(o, q.determinant()); break; }
		case 5: { Matrix<> a(n, m); fillm(g, a); SVD<> s(a); add(o, s.get_diagonal()); add(o, s.backsub(rv(g, n))); add(o, s.get_pinv()); SQSVD<2, double> q; Matrix<2> z; fillm(g, z); q.compute(z); add(o, q.get_U()); add(o, q.get_VT()); break; }
		case 6: { Matrix<4, 3> a; fillm(g, a); QR<4, 3> q(a); add(o, q.get_Q()); add(o, q.get_R()); Matrix<> b(n, n + m); fillm(g, b); QR_Lapack<> l(b); add(o, l.get_Q()); add(o, l.get_R()); break; }
		case 7: { Matrix<> a(n, n); spd(g, a); SymEigen<> e(a); add(o, e.get_evalues()); add(o, e.backsub(rv(g, n))); add(o, e.get_inv_diag(1e9)); add(o, e.is_posdef()); Matrix<2> s; spd(g, s); SymEigen<2> t(s); add(o, t.get_evectors()); add(o, t.get_sqrtm()); Matrix<3> u; spd(g, u); SymEigen<3> w(u); add(o, w.get_evalues()); add(o, w.get_pinv()); break; }
		case 8: { Matrix<> a(n, n); spd(g, a); add(o, gaussian_elimination(a, rv(g, n))); Matrix<> b(n, m); fillm(g, b); add(o, gaussian_elimination(a, b)); add(o, determinant(a)); Matrix<3> s; spd(g, s); add(o, determinant(s)); Matrix<3, 6> j; j.slice<0, 0, 3, 3>() = s; j.slice<0, 3, 3, 3>() = Identity; gauss_jordan(j); add(o, j); add(o, determinant_LU(a)); break; }
		case 9: { SO3<> a = SO3<>::exp(pose_arg<Vector<3>>(g)), b(makeVector(1, g.d(), 0), makeVector(g.d(), 1, 2)); add(o, (a * b).ln()); add(o, a.inverse() * makeVector(1, 2, 3)); add(o, a.adjoint(makeVector(1., 2., 3.))); SE3<> e = SE3<>::exp(pose_arg<Vector<6>>(g)), f(b, makeVector(1, 2, g.d())); add(o, (e * f).ln()); add(o, (e.inverse() * makeVector(1, 2, 3, 1))); add(o, e.adjoint(pose_arg<Vector<6>>(g))); Matrix<6> q = Identity; add(o, e.trinvadjoint(q)); add(o, e.trinvadjoint(pose_arg<Vector<6>>(g))); break; }
		case 10: { SO2<> a(g.d()); SE2<> e = SE2<>::exp(pose_arg<Vector<3>>(g)); e = e * SE2<>(a, makeVector(1, g.d())); add(o, e.ln()); add(o, e.inverse() * makeVector(1, 2)); add(o, e.adjoint(pose_arg<Vector<3>>(g))); SIM2<> s = SIM2<>::exp(pose_arg<Vector<4>>(g)); add(o, (s * s).ln()); SIM3<> t = SIM3<>::exp(pose_arg<Vector<7>>(g)); add(o, (t.inverse() * t * t).ln()); add(o, t.adjoint(pose_arg<Vector<7>>(g))); add(o, t * makeVector(1, 2, 3)); break; }
		case 11: { SL<3> s(pose_arg<Vector<8>>(g)); s = s * s.inverse() * s; add(o, s.get_matrix()); add(o, s * makeVector(1, 2, 3)); add(o, s.ln()); SL<2> t(pose_arg<Vector<3>>(g)); add(o, t.inverse().get_matrix()); add(o, TooN::exp(t.get_matrix())); break; }
		case 12: { WLS<> w(n); w.clear(); w.add_prior(.5); for (int i = 0; i < m + 2; i++) w.add_mJ(g.e(), rv(g, n), 1 + g.n(3)); Matrix<> j(n, 2); fillm(g, j); Matrix<> c(2, 2); spd(g, c); w.add_mJ(rv(g, 2), j, c); WLS<> x(w); w += x; w.add_prior(rv(g, n).as_diagonal() * rv(g, n) * 0 + Ones); w.compute(); add(o, w.get_mu()); add(o, w.get_C_inv()); add(o, w.get_vector()); w.add_sparse_mJ(1.5, makeVector(2.), 0, 1); w.compute(); add(o, w.get_mu()); break; }
		case 13: { WLS<3> w; w.clear(); w.add_prior(makeVector(1., 2., 3.)); Vector<3> j; fillv(g, j); w.add_mJ(g.e(), j); Matrix<2, 3> k; fillm(g, k); w.add_mJ_rows(makeVector(1, g.d()), k, Matrix<2>(Identity)); w.compute(); add(o, w.get_mu()); IRLS<2, double, RobustI> r; r.sd_inlier = 1; r.clear(); r.add_prior(1); Vector<2> l; for (int i = 0; i < 3; i++) { fillv(g, l); r.add_mJ(g.e(), l); } r.compute(); add(o, r.get_mu()); break; }
		case 14: { Vector<> x = rv(g, n); auto f = [](const Vector<>& v) { return bowl(v); }; DownhillSimplex<> s(f, x, 1.); for (int i = 0; i < 15 && !s.finished(); i++) s.find_next_point(f); add(o, s.get_simplex()[s.get_best()]); add(o, s.get_values()); s.restart(f, .5); s.iterate(f); add(o, s.get_values()[s.get_worst()]); break; }
		case 15: { Vector<> x = rv(g, n); ConjugateGradient<> c(x, bowl, bowl_grad(x)); for (int i = 0; i < 6; i++) { c.find_next_point(bowl); if (c.finished()) break; c.update_vectors_PR(bowl_grad(c.x)); } add(o, c.x); add(o, c.y); add(o, c.h); break; }
		case 16: { double a = -2 - g.e() * g.e(), c = 3 + g.d() * g.d(); Vector<2> b = brent_line_search(a, .5, c, line(.5), line, 20 + g.n(10), 1e-8); add(o, b); add(o, golden_section_search(a, .5, c, line(.5), line, 30, 1e-6)); break; }
		case 17: { Vector<> x = rv(g, 1 + g.n(3)); add(o, numerical_gradient(bowl, x)); add(o, numerical_hessian(bowl, x)); add(o, numerical_gradient_with_errors(bowl, x)); break; }
		case 18: { std::ostringstream os; os.precision(17); Matrix<> a(n, m); fillm(g, a); SE3<> e = SE3<>::exp(pose_arg<Vector<6>>(g)); os << rv(g, n) << "\n" << a << e << "\n" << SL<2>(pose_arg<Vector<3>>(g)); std::istringstream is(os.str()); Vector<> v(n); Matrix<> b(n, m); SE3<> f; SL<2> s; is >> v >> b >> f >> s; add(o, v); add(o, b); add(o, f.ln()); add(o, s.get_matrix()); for (char ch : os.str()) add(o, ch); add(o, (bool)is); break; }
		case 19: { Vector<Resizable> v, w; for (int i = 0; i < 8; i++) { int k = g.n(6), s = v.size(); v.resize(k); for (int j = s; j < k; j++) v[j] = g.e(); if (g.n(2)) w = v; if (g.n(3) == 0) v = rv(g, g.n(5)); if (g.n(3) == 0) w = Ones(g.n(4)); if (g.n(4) == 0) v = w; if (g.n(4) == 0) std::swap(v, w); add(o, v); add(o, w); } break; }
		case 20: { Vector<3> v; Fill(v) = g.e(), 2, 3; Matrix<> a(2, 2); Fill(a) = 1, g.e(), 3, 4; Matrix<3> b = Data(1, 2, 3, 4, 5, g.e(), 7, 8, 9); Vector<> c = Ones(n) * 3; Matrix<> d = Identity(n) * 2; Matrix<2, 4> e = Zeros; Vector<Dynamic, int> i = { 1, 2, n }; add(o, v); add(o, a); add(o, b); add(o, c); add(o, d); add(o, e); add(o, i); break; }
		case 21: { Vector<200> big; fillv(g, big); Vector<200> c(big), d; d = c + big; Vector<200> h(std::move(c)); Matrix<40> q; fillm(g, q); Matrix<40> r(q); r = r.T() * 2; add(o, d); add(o, h); add(o, r); break; }
		case 22: { Matrix<4, 3> a; fillm(g, a); GR_SVD<4, 3> s(a); add(o, s.get_diagonal()); add(o, s.get_pinv()); Vector<4> b; fillv(g, b); add(o, s.backsub(b)); break; }
		case 23: { Vector<Dynamic, float> a(n); Vector<Dynamic, int> b(n); for (int i = 0; i < n; i++) { a[i] = g.d(); b[i] = g.n(9); } add(o, a + b); add(o, a * b); std::complex<double> z(g.d(), 1); Vector<2, std::complex<double>> c = makeVector(z, z * 2.), d = c * 2.; add(o, (d * c).real()); add(o, b.as_diagonal() * a); add(o, max_value(b)); add(o, min_value(a)); Matrix<Dynamic, Dynamic, float> k(n, n); k = Identity; add(o, k * a); break; }
		case 24: { switch (g.n(5)) { case 0: narrow<signed char>(g, n, m, o); break; case 1: narrow<short>(g, n, m, o); break; case 2: narrow<unsigned char>(g, n, m, o); break; case 3: narrow<int>(g, n, m, o); break; default: narrow<long double>(g, n, m, o); } break; }
	}
}
template<class P> double classify(P x) { double d = (double)x; return d != d ? -12345 : d; }
void run_fresh(uint64_t seed, Out& o) {
	G g(seed); int n = g.n(6); auto see = [&](auto& v) { for (int i = 0; i < v.size(); i++) o.push_back(classify(v[i])); }; auto seem = [&](auto& m) { for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) o.push_back(classify(m(i, j))); };
	switch (g.n(9)) {
		case 0: { Vector<> v(n); see(v); break; } case 1: { Vector<4> v; see(v); break; } case 2: { Vector<Resizable> v(n); see(v); break; } case 3: { Matrix<> m(n, 1 + g.n(3)); seem(m); break; } case 4: { Matrix<3, 2> m; seem(m); break; }
		case 5: { Vector<300> v; see(v); break; } case 6: { Matrix<Dynamic, 2> m(n, 2); seem(m); break; } case 7: { Vector<Dynamic, float> v(n); see(v); break; }
		case 8: { Vector<Resizable> v(n); for (int i = 0; i < n; i++) v[i] = 3 + i; int k = g.n(8); v.resize(k); for (int i = 0; i < k && i < n; i++) if (v[i] != 3 + i) { o.push_back(999); return; } for (int i = n; i < k; i++) o.push_back(classify(v[i])); break; }
	}
}
template<class F> int guarded(F f) {
#ifdef TOON_TEST_INTERNALS
	try { return catch_abort([&] { f(); }) ? ABORTED : SERVED; } catch (Internal::BadIndex&) { return THROWN; } catch (Internal::SliceError&) { return THROWN; } catch (Internal::SizeMismatch&) { return THROWN; } catch (Internal::VectorOverfill&) { return THROWN; } catch (Internal::StaticMatrixOverfill&) { return THROWN; } catch (Internal::Underfill&) { return THROWN; }
#else
	return catch_abort([&] { f(); }) ? ABORTED : SERVED;
#endif
}
int run_misuse(int k, uint64_t seed, Out& o) {
	Build& b = CAT(build_, CFG); G g(seed); int n = 1 + g.n(5), m = 1 + g.n(4), off = g.n(2) ? 1 + g.n(3) : -1 - g.n(n); volatile double sink; Vector<> v(n), w(n + 1 + g.n(2)); Matrix<> a(n, m), c(n + 1, m), d(n, m + 1); fillv(g, v); fillv(g, w); fillm(g, a); fillm(g, c); fillm(g, d); int r = SKIPPED;
	Vector<Resizable> z(n); fillv(g, z); Vector<> before_v = v; int bad = off > 0 ? n - 1 + off : off, badm = off > 0 ? m - 1 + off : off;
	switch (k) {
		case 0: if (b.bounds) r = guarded([&] { sink = v[bad]; }); break; case 1: if (b.bounds) r = guarded([&] { v[bad] = 1; }); break; case 2: if (b.bounds) r = guarded([&] { sink = a(0, badm); }); break; case 3: if (b.bounds) r = guarded([&] { a[bad][0] = 1; }); break; case 4: if (b.bounds) r = guarded([&] { sink = z[bad]; }); break;
		case 5: if (b.slices) r = guarded([&] { v.slice(off > 0 ? off : -1, n) = Zeros; }); break; case 6: if (b.slices) r = guarded([&] { a.slice(0, 0, n + 1, 1) = Zeros; }); break;
		case 7: if (b.sizes) r = guarded([&] { v = w; }); break; case 8: if (b.sizes) r = guarded([&] { v += w; }); break; case 9: if (b.sizes) r = guarded([&] { a = c; }); break; case 10: if (b.sizes) r = guarded([&] { a += d; }); break; case 11: if (b.sizes) r = guarded([&] { sink = v * w; }); break;
		case 12: { int q = 1 + g.n(4); if (b.fill && n != q) r = guarded([&] { Vector<> t(n); switch (q) { case 1: Fill(t) = 1; break; case 2: Fill(t) = 1, 2; break; case 3: Fill(t) = 1, 2, 3; break; default: Fill(t) = 1, 2, 3, 4; } }); break; }
		case 13: { int q = 1 + g.n(4); if (b.fill && n * m != q) r = guarded([&] { Matrix<> t(n, m); switch (q) { case 1: Fill(t) = 1; break; case 2: Fill(t) = 1, 2; break; case 3: Fill(t) = 1, 2, 3; break; default: Fill(t) = 1, 2, 3, 4; } }); break; }
		case 14: if (b.mismatch) r = guarded([&] { sink = v.slice<0, 1>(off, 1)[0]; }); break; case 15: if (b.mismatch && b.slices) r = guarded([&] { sink = v.slice<0, 1>(0, 1 + std::abs(off))[0]; }); break; case 16: if (b.mismatch) r = guarded([&] { sink = a.slice<0, 0, 1, 1>(0, off, 1, 1)(0, 0); }); break;
	}
	add(o, v); add(o, a); add(o, z); return r;
}
}
#if CFG == 0      // as shipped
Build build_0 = { "default", false, true, true, true, true, false, ANYTHING, run_op, run_fresh, run_misuse };
#elif CFG == 1
Build build_1 = { "TOON_CHECK_BOUNDS, TOON_INITIALIZE_SNAN", true, true, true, true, true, false, SNANS, run_op, run_fresh, run_misuse };
#elif CFG == 2
Build build_2 = { "NDEBUG, TOON_INITIALIZE_QNAN", false, false, false, false, false, false, QNANS, run_op, run_fresh, run_misuse };
#elif CFG == 3
Build build_3 = { "TOON_NDEBUG_SLICE, TOON_NDEBUG_MISMATCH, TOON_INITIALIZE_VAL", false, false, true, true, false, false, VALUE, run_op, run_fresh, run_misuse };
#elif CFG == 4
Build build_4 = { "TOON_CHECK_BOUNDS, TOON_INITIALIZE_RANDOM", true, true, true, true, true, false, ANYTHING, run_op, run_fresh, run_misuse };
#elif CFG == 5
Build build_5 = { "TOON_NDEBUG, TOON_INITIALIZE_NAN", false, false, false, false, false, false, QNANS, run_op, run_fresh, run_misuse };
#elif CFG == 6
Build build_6 = { "TOON_NDEBUG_SIZE, TOON_NDEBUG_FILL, TOON_CHECK_BOUNDS, TOON_INITIALIZE_RANDOM", true, true, false, false, true, false, ANYTHING, run_op, run_fresh, run_misuse };
#endif
#else
static Run* clock_run; static long clock_now;
extern "C" time_t __real_time(time_t*);
extern "C" time_t __wrap_time(time_t* t) { time_t x = __real_time(0); if (clock_run) { x = clock_now; clock_run->probe("clock_read"); } if (t) *t = x; return x; }
static void options(Run& r) {
	Build* b[BUILDS] = { &build_0, &build_1, &build_2, &build_3, &build_4, &build_5, &build_6 }; uint64_t junk = mix64(1 + r.pick_from(S_FAULT, 1000)); clock_run = &r; clock_now = (long)r.pick_from(S_FAULT, 1000) * 4294967 + r.pick_from(S_FAULT, 1000); heap::begin_epoch();
	r.set_ops(r.range(3, 25));
	while (r.next_op()) {
		int kind = r.pick(6); uint64_t seed = r.pick(1 << 20); int op = kind == 5 ? r.pick(MISUSES) : kind == 4 ? 0 : r.pick(OPS); Out first; bool have = false; uint64_t fa = r.pick_from(S_FAULT, 6), at = 1 + r.pick_from(S_FAULT, 12);
		if (r.pick_from(S_FAULT, 8) == 7) { clock_now += (long)r.pick_from(S_FAULT, 100000) - 50000; r.fault("clock_jump"); }
		for (int k = 0; k < BUILDS; k++) {
			Build& c = *b[k]; Out o; std::string what = kind == 5 ? fmt("misuse %d, seed %lu", op, (unsigned long)seed) : kind == 4 ? fmt("fresh elements, seed %lu", (unsigned long)seed) : fmt("operation %d, seed %lu", op, (unsigned long)seed); if (!k) r.log("%s", what.c_str()); r.steps(1);
			heap::garbage(junk += 7); paint_stack(junk); heap::reset_count(); int rej = SERVED; bool ab = false, cut = false; o.reserve(32768);
			if (fa == 5 && kind < 4 && op != 18) {   // streams swallow exceptions
 heap::fail_at(at); Out p; p.reserve(32768); try { ab = catch_abort([&] { heap::Armed a; c.op(op, seed, p); }); } catch (std::bad_alloc&) { cut = true; } bool fired = heap::fired(); heap::fail_at(0); if (fired) { r.fault("alloc_fail"); r.nontrivial(); if (!cut) r.fail("swallowed", "[%s] %s: a failed allocation is not reported", c.options, what.c_str()); if (heap::live_blocks()) r.fail("leak", "[%s] %s: %ld blocks left", c.options, what.c_str(), heap::live_blocks()); } else if (cut) r.fail("wrong-exception", "[%s] %s", c.options, what.c_str()); if (ab) r.fail("abort", "[%s] %s aborts", c.options, what.c_str()); }
			ab = catch_abort([&] { if (kind == 5) rej = c.misuse(op, seed, o); else { heap::Armed a; if (kind == 4) c.fresh(seed, o); else c.op(op, seed, o); } });
			if (ab) r.fail("abort", "[%s] %s aborts", c.options, what.c_str());
			if (kind == 4) {
				for (double x : o) if (x == 999 || (c.init == VALUE && x != 7) || ((c.init == SNANS || c.init == QNANS) && x != -12345)) r.fail("initial-value", "[%s] %s: a fresh element is %g, or an old one changed", c.options, what.c_str(), x); continue;
			}
			if (kind == 5) { if (rej == SKIPPED) r.probe("misuse_not_checked"); else { r.fault("misuse"); r.nontrivial(); if (rej != (c.throws ? THROWN : ABORTED)) r.fail("not-rejected", "[%s] %s is %s instead of %s", c.options, what.c_str(), rej == SERVED ? "served" : rej == ABORTED ? "aborted" : "thrown", c.throws ? "thrown" : "aborted"); } }
			else if (heap::live_blocks()) r.fail("leak", "[%s] %s: %ld blocks left", c.options, what.c_str(), heap::live_blocks());
			if (!have) { first = o; have = true; for (double x : o) r.hash_double(x); r.cover(r.hash); }
			else if (o.size() != first.size()) r.fail("differs", "%s: [%s] gives %d numbers, [%s] %d", what.c_str(), c.options, (int)o.size(), b[0]->options, (int)first.size());
			else for (size_t i = 0; i < o.size(); i++) if (!same_bits(o[i], first[i])) r.fail("differs", "%s: number %d is %.17g with [%s] and %.17g with [%s]", what.c_str(), (int)i, o[i], c.options, first[i], b[0]->options);
		}
	}
	if (heap::misuse) r.fail("heap-misuse", "%s", heap::misuse); clock_run = 0;
}
static Register c26("C26", options, "every header but functions/fadbad.h, compiled with seven sets of options", "heap (seeded failures and garbage), stack garbage, clock, abort", "a run with a fault is one with a failed allocation or a request that does not fit", true);
#endif
