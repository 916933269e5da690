// C21..C23: histories of poses - rotations, rigid motions, similarities, SL(n) - checked against matrix algebra.
//
// A run keeps a bank of group elements and composes, inverts, exponentiates, takes logarithms, applies and transfers them in
// a seeded order; elements are written to text, lost in a crash and restored, or read from torn and failing streams;
// allocations fail where dynamic operands are involved. After every step the element is compared with long-double algebra
// on homogeneous matrices; every query runs twice on different stack and heap garbage and must give the same bits.
#include "sim.h"
#include <TooN/TooN.h>
#include <TooN/so2.h>
#include <TooN/se2.h>
#include <TooN/sim2.h>
#include <TooN/so3.h>
#include <TooN/se3.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
#include <cstring>
#include <cfloat>
#include <sstream>
#include <memory>
#include <algorithm>
using namespace sim; using namespace TooN;
using std::vector; using std::string;
typedef long double ld; typedef vector<double> L;

// ------------------------------------------------------------------------------------------------- reference mathematics
struct LM {
	int n; ld a[25]; explicit LM(int k = 0, ld diag = 0) : n(k) { std::fill(a, a + 25, 0.0L); for (int i = 0; i < n; i++) (*this)(i, i) = diag; }
	ld& operator()(int i, int j) { return a[i * 5 + j]; } ld operator()(int i, int j) const { return a[i * 5 + j]; }
	ld top() const { ld m = 0; for (ld x : a) m = std::max(m, fabsl(x)); return m; }
	bool finite() const { for (ld x : a) if (!std::isfinite(x)) return false; return true; }
	LM abs() const { LM r = *this; for (ld& x : r.a) x = fabsl(x); return r; }
	LM T() const { LM r(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r(i, j) = (*this)(j, i); return r; }
};
static LM operator*(const LM& x, const LM& y) { LM r(x.n); for (int i = 0; i < x.n; i++) for (int j = 0; j < x.n; j++) for (int k = 0; k < x.n; k++) r(i, j) += x(i, k) * y(k, j); return r; }
static LM operator+(const LM& x, const LM& y) { LM r = x; for (int i = 0; i < 25; i++) r.a[i] += y.a[i]; return r; }
static LM operator-(const LM& x, const LM& y) { LM r = x; for (int i = 0; i < 25; i++) r.a[i] -= y.a[i]; return r; }
static LM operator*(const LM& x, ld s) { LM r = x; for (ld& d : r.a) d *= s; return r; }
static LM inv(const LM& x) {
	LM a = x, r(x.n, 1); int n = x.n;
	for (int c = 0; c < n; c++) { int p = c; for (int i = c; i < n; i++) if (fabsl(a(i, c)) > fabsl(a(p, c))) p = i; for (int j = 0; j < n; j++) { std::swap(a(c, j), a(p, j)); std::swap(r(c, j), r(p, j)); }
		ld d = a(c, c); for (int j = 0; j < n; j++) { a(c, j) /= d; r(c, j) /= d; } for (int i = 0; i < n; i++) if (i != c) { ld f = a(i, c); for (int j = 0; j < n; j++) { a(i, j) -= f * a(c, j); r(i, j) -= f * r(c, j); } } }
	return r;
}
static LM expm(const LM& x) { ld t = x.top() * x.n; int s = 0; while (t > 0.25L) { t /= 2; s++; } LM m = x * ldexpl(1, -s), r(x.n, 1), f(x.n, 1); for (int k = 1; k < 24; k++) { f = f * m * (1.0L / k); r = r + f; } while (s--) r = r * r; return r; }
static string show(const L& v) { string s = "("; for (size_t i = 0; i < v.size(); i++) s += fmt("%s%.17g", i ? ", " : "", v[i]); return s + ")"; }
static string show(const LM& m) { string s = "["; for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) s += fmt("%s%.12Lg", j ? " " : i ? "; " : "", m(i, j)); return s + "]"; }
static bool same(const L& a, const L& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same_bits(a[i], b[i])) return false; return true; }
template<class V> static L list(const V& v) { L o(v.size()); for (int i = 0; i < v.size(); i++) o[i] = (double)v[i]; return o; }
template<class M> static L listm(const M& m) { L o; for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) o.push_back((double)m(i, j)); return o; }
template<class M> static LM lm(const M& m) { LM r(m.num_rows()); for (int i = 0; i < r.n; i++) for (int j = 0; j < r.n; j++) r(i, j) = m(i, j); return r; }
template<int N, class P> static Vector<N, P> vec(const L& v) { Vector<N, P> o; for (int i = 0; i < N; i++) o[i] = P(v[i]); return o; }
template<class P> static Vector<Dynamic, P> dyn(const L& v) { Vector<Dynamic, P> o((int)v.size()); for (size_t i = 0; i < v.size(); i++) o[i] = P(v[i]); return o; }
static void finish(Run& r) { if (heap::live_blocks()) r.fail("leak", "%ld heap blocks left", heap::live_blocks()); if (heap::misuse) r.fail("heap-misuse", "%s", heap::misuse); }
template<class P> struct Fp { static ld eps() { return DBL_EPSILON; } static const char* name() { return "double"; } };
template<> struct Fp<float> { static ld eps() { return FLT_EPSILON; } static const char* name() { return "float"; } };
static double scaled(Run& r, int lo, int hi) { double m = r.unit(); return m * std::pow(10.0, r.range(lo, hi)); }
// magnitudes near every threshold that the implementations have
static double angle(Run& r) {
	static const double t[] = { 1e-6, 1e-5, 1e-4, 1e-3, M_PI_4, 3 * M_PI_4, M_PI, M_PI_2, 2 * M_PI };
	switch (r.pick(6)) { case 0: return r.unit() * 3.1; case 1: return 0; case 2: { double a = t[r.pick(9)]; return a * (1 + r.small_int(1) * std::pow(10.0, -r.range(2, 15))); } case 3: return std::pow(10.0, -r.range(1, 16)) * (1 + (int)r.pick(9)); case 4: return r.unit() * 10; default: return M_PI - std::pow(10.0, -r.range(1, 16)); }
}

#if PART == 21 || PART == 22
// ------------------------------------------------------------------------------- the groups: dimension, translation, scale
template<class P> const Matrix<2, 2, P>& rot(const SO2<P>& g) { return g.get_matrix(); }
template<class P> const Matrix<3, 3, P>& rot(const SO3<P>& g) { return g.get_matrix(); }
template<class P> const Matrix<2, 2, P>& rot(const SE2<P>& g) { return g.get_rotation().get_matrix(); }
template<class P> const Matrix<3, 3, P>& rot(const SE3<P>& g) { return g.get_rotation().get_matrix(); }
template<class P> const Matrix<2, 2, P>& rot(const SIM2<P>& g) { return g.get_rotation().get_matrix(); }
template<class P> const Matrix<3, 3, P>& rot(const SIM3<P>& g) { return g.get_rotation().get_matrix(); }
template<class G> ld tr(const G& g, int i) { return g.get_translation()[i]; }
template<class P> ld tr(const SO2<P>& g, int i) { return 0; }
template<class P> ld tr(const SO3<P>& g, int i) { return 0; }
template<class G> ld sc(const G& g) { return 1; }
template<class P> ld sc(const SIM2<P>& g) { return g.get_scale(); }
template<class P> ld sc(const SIM3<P>& g) { return g.get_scale(); }
template<class G> void orthogonalise(G& g) { g.get_rotation().coerce(); }
template<class P> void orthogonalise(SO2<P>& g) { g.coerce(); }
template<class P> void orthogonalise(SO3<P>& g) { g.coerce(); }

template<template<class> class Gr, class P_, int d_, int T_, int S_> struct Kind {
	typedef P_ P; typedef Gr<P> G; typedef Gr<double> GD; enum { d = d_, T = T_, S = S_, N = d + T, D = (d == 2 ? 1 : 3) + (T ? d : 0) + S };
	static string name() { return fmt("%s%d<%s>", S ? "SIM" : T ? "SE" : "SO", d, Fp<P>::name()); }
	static LM mat(const G& g) { LM m(N); ld s = sc(g); for (int i = 0; i < d; i++) { for (int j = 0; j < d; j++) m(i, j) = s * rot(g)(i, j); if (T) m(i, d) = tr(g, i); } if (T) m(d, d) = 1; return m; }
	static L bits(const G& g) { L o = listm(rot(g)); if (T) for (int i = 0; i < d; i++) o.push_back((double)tr(g, i)); if (S) o.push_back((double)sc(g)); return o; }
	static LM hat(const L& v) { LM m(N); int k = T ? d : 0; for (int i = 0; i < k; i++) m(i, d) = v[i]; if (d == 2) { m(0, 1) = -(ld)v[k]; m(1, 0) = v[k]; k++; } else { for (int i = 0; i < 3; i++) { m((i + 1) % 3, (i + 2) % 3) = -(ld)v[k + i]; m((i + 2) % 3, (i + 1) % 3) = v[k + i]; } k += 3; } if (S) for (int i = 0; i < d; i++) m(i, i) = v[k]; return m; }
	static LM log_of(const LM& h) { return h; }
};
template<class P> static SO2<P> make_exp(const SO2<P>&, const L& v) { return SO2<P>::exp(P(v[0])); }
template<class P> static SO3<P> make_exp(const SO3<P>&, const L& v) { return SO3<P>::exp(vec<3, P>(v)); }
template<class P> static SE2<P> make_exp(const SE2<P>&, const L& v) { return SE2<P>::exp(vec<3, P>(v)); }
template<class P> static SE3<P> make_exp(const SE3<P>&, const L& v) { return SE3<P>::exp(vec<6, P>(v)); }
template<class P> static SIM2<P> make_exp(const SIM2<P>&, const L& v) { return SIM2<P>::exp(vec<4, P>(v)); }
template<class P> static SIM3<P> make_exp(const SIM3<P>&, const L& v) { return SIM3<P>::exp(vec<7, P>(v)); }
// the vector is of another type than the group
template<class Q, class P> static SO2<P> make_as(const SO2<P>&, const L& v) { return SO2<P>::exp(Q(v[0])); }
template<class Q, class P> static SO3<P> make_as(const SO3<P>&, const L& v) { return SO3<P>::exp(vec<3, Q>(v)); }
template<class Q, class P> static SE2<P> make_as(const SE2<P>&, const L& v) { return SE2<P>::exp(vec<3, Q>(v)); }
template<class Q, class P> static SE3<P> make_as(const SE3<P>&, const L& v) { return SE3<P>::exp(vec<6, Q>(v)); }
template<class Q, class P> static SIM2<P> make_as(const SIM2<P>&, const L& v) { return SIM2<P>::exp(vec<4, Q>(v)); }
template<class Q, class P> static SIM3<P> make_as(const SIM3<P>&, const L& v) { return SIM3<P>::exp(vec<7, Q>(v)); }
template<class P> static SO2<P> make_dyn(const SO2<P>&, const L& v) { return SO2<P>(P(v[0])); }
template<class G> static G make_dyn(const G&, const L& v) { heap::Armed a; return G(dyn<double>(v)); }
template<class P> static L ln_of(const SO2<P>& g) { return L(1, (double)g.ln()); }
template<class G> static L ln_of(const G& g) { return list(g.ln()); }
// optional operations
template<class G> static bool left_multiply(G&, const G&) { return false; }
template<class P> static bool left_multiply(SE3<P>& g, const SE3<P>& l) { g.left_multiply_by(l); return true; }
template<class P> static bool left_multiply(SIM3<P>& g, const SIM3<P>& l) { g.left_multiply_by(l); return true; }
template<class P> static LM gen(const SO2<P>& g, int) { return lm(g.generator()); }
template<class G> static LM gen(const G& g, int i) { return lm(g.generator(i)); }
template<class G> static bool field(const G&, int, const L&, L&) { return false; }
template<class P> static bool field(const SO3<P>& g, int i, const L& p, L& o) { o = list(g.generator_field(i, vec<3, P>(p))); return true; }
template<class P> static bool field(const SE3<P>& g, int i, const L& p, L& o) { o = list(g.generator_field(i, vec<4, P>(p))); return true; }
template<class P> static bool field(const SIM3<P>& g, int i, const L& p, L& o) { o = list(g.generator_field(i, vec<4, P>(p))); return true; }
template<class P> static bool adj(const SO2<P>&, const L&, L&) { return false; }
template<class P> static bool adj(const SO3<P>& g, const L& v, L& o) { o = list(g.adjoint(vec<3, P>(v))); return true; }
template<class P> static bool adj(const SE2<P>& g, const L& v, L& o) { o = list(g.adjoint(vec<3, P>(v))); return true; }
template<class P> static bool adj(const SE3<P>& g, const L& v, L& o) { o = list(g.adjoint(vec<6, P>(v))); return true; }
template<class P> static bool adj(const SIM2<P>& g, const L& v, L& o) { o = list(g.adjoint(vec<4, P>(v))); return true; }
template<class P> static bool adj(const SIM3<P>& g, const L& v, L& o) { o = list(g.adjoint(vec<7, P>(v))); return true; }
template<class G> static bool tinv(const G&, const L&, L&) { return false; }
template<class P> static bool tinv(const SE3<P>& g, const L& v, L& o) { o = list(g.trinvadjoint(vec<6, P>(v))); return true; }
template<class P> static bool tinv(const SIM3<P>& g, const L& v, L& o) { o = list(g.trinvadjoint(vec<7, P>(v))); return true; }
template<int D, class P> static Matrix<D, D, P> square(const L& v) { Matrix<D, D, P> m; for (int i = 0; i < D * D; i++) m(i / D, i % D) = P(v[i]); return m; }
template<class G> static bool adjm(const G&, const L&, L&) { return false; }
template<class P> static bool adjm(const SE2<P>& g, const L& v, L& o) { o = listm(g.adjoint(square<3, P>(v))); return true; }
template<class P> static bool adjm(const SE3<P>& g, const L& v, L& o) { o = listm(g.adjoint(square<6, P>(v))); return true; }
template<class P> static bool adjm(const SIM2<P>& g, const L& v, L& o) { o = listm(g.adjoint(square<4, P>(v))); return true; }
template<class P> static bool adjm(const SIM3<P>& g, const L& v, L& o) { o = listm(g.adjoint(square<7, P>(v))); return true; }
template<class G> static bool tinvm(const G&, const L&, L&) { return false; }
template<class P> static bool tinvm(const SE3<P>& g, const L& v, L& o) { o = listm(g.trinvadjoint(square<6, P>(v))); return true; }
template<class P> static bool tinvm(const SIM3<P>& g, const L& v, L& o) { o = listm(g.trinvadjoint(square<7, P>(v))); return true; }
// products of different kinds, and elements made from parts; false: the kind has none
template<class P, class Q> static SO2<P> parts(const SO2<P>&, const SO2<Q>& r, const Vector<2, P>&, P) { return SO2<P>(r); }
template<class P, class Bank> static bool mixed(Bank&, SO2<P>&) { return false; }
template<class P, class Bank> static bool mixed(Bank& b, SO3<P>& g) { return b.between(g); }
template<class P, class Bank> static bool mixed(Bank& b, SE2<P>& g) { SO2<P> q = SO2<P>::exp(P(angle(b.r))); SE2<P> p = g; g = q * g; LM m(3, 1); for (int i = 0; i < 4; i++) m(i / 2, i % 2) = q.get_matrix()(i / 2, i % 2); b.expect("SO2 * SE2", g, m * b.mat(p), m.abs() * b.mat(p).abs()); return true; }
template<class P, class Bank> static bool mixed(Bank& b, SE3<P>& g) {
	if (b.r.pick(3) == 2) { Vector<3, P> t = vec<3, P>(b.some(3)); g = SE3<P>(Identity, t); LM m(4, 1); for (int i = 0; i < 3; i++) m(i, 3) = t[i]; b.fresh = true; b.expect("SE3 of a translation", g, m, LM(4)); return true; }
	SO3<P> q = SO3<P>::exp(vec<3, P>(b.tangent_rotation())); SE3<P> p = g; g = q * g; LM m(4, 1); for (int i = 0; i < 9; i++) m(i / 3, i % 3) = q.get_matrix()(i / 3, i % 3); b.expect("SO3 * SE3", g, m * b.mat(p), m.abs() * b.mat(p).abs()); return true; }
template<class P, class Bank> static bool mixed(Bank& b, SIM2<P>& g) { return false; }
template<class P, class Bank> static bool mixed(Bank& b, SIM3<P>& g) {
	if (b.r.pick(4) == 3) { g = Identity; b.fresh = true; b.expect("SIM3 = Identity", g, LM(4, 1), LM(4)); return true; }
	L v = b.some(3), w = b.tangent_rotation(); v.insert(v.end(), w.begin(), w.end()); SE3<P> q = SE3<P>::exp(vec<6, P>(v)); SIM3<P> p = g; g = g * q; LM m(4, 1); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) m(i, j) = q.get_rotation().get_matrix()(i, j); m(i, 3) = q.get_translation()[i]; } b.expect("SIM3 * SE3", g, b.mat(p) * m, b.mat(p).abs() * m.abs()); return true; }
template<class P> static SO2<P> assemble(const SO2<P>&, const Matrix<2, 2, P>& m, const L&, double) { return SO2<P>(m); }
template<class P> static SO3<P> assemble(const SO3<P>&, const Matrix<3, 3, P>& m, const L&, double) { return SO3<P>(m); }
template<class P> static SE2<P> assemble(const SE2<P>&, const Matrix<2, 2, P>& m, const L& t, double) { return SE2<P>(SO2<P>(m), vec<2, P>(t)); }
template<class P> static SE3<P> assemble(const SE3<P>&, const Matrix<3, 3, P>& m, const L& t, double) { return SE3<P>(SO3<P>(m), vec<3, P>(t)); }
template<class P> static SIM2<P> assemble(const SIM2<P>&, const Matrix<2, 2, P>& m, const L& t, double s) { return SIM2<P>(SO2<P>(m), vec<2, P>(t), P(s)); }
template<class P> static SIM3<P> assemble(const SIM3<P>&, const Matrix<3, 3, P>& m, const L& t, double s) { return SIM3<P>(SO3<P>(m), vec<3, P>(t), P(s)); }

struct FailingBuf : std::streambuf { string s; size_t at = 0, left; char c; FailingBuf(const string& t, size_t n) : s(t), left(n) {} int_type underflow() { if (at >= left) throw std::runtime_error("device"); c = s[at++]; setg(&c, &c, &c + 1); return traits_type::to_int_type(c); } };

template<class K> struct Bank {
	typedef typename K::P P; typedef typename K::G G; enum { N = K::N, D = K::D, d = K::d };
	Run& r; vector<G> g; vector<int> lin; int made = 0; bool fresh = false; uint64_t junk; string durable[2]; int digits[2], saved_lin[2]; vector<LM> saved_mat; string last; ld E;
	Bank(Run& r_) : r(r_), g(3), lin(3, 0), saved_mat(2), E(Fp<P>::eps()) { digits[0] = digits[1] = 0; }
	static LM mat(const G& x) { return K::mat(x); }
	L some(int n) { L v(n); int e = r.pick(3) ? r.range(-1, 1) : r.range(-8, 2); for (double& x : v) x = P(r.pick(3) ? r.unit() * std::pow(10.0, e) : r.small_int(3)); return v; }
	L tangent_rotation() { if (d == 2) return L(1, P(r.pick(2) ? angle(r) : -angle(r))); double a = angle(r); L w(3); int k = r.pick(4); if (k < 3) w[k] = r.pick(2) ? a : -a; else { ld n = 0; bool loose = r.pick(3) == 2; for (double& x : w) { x = r.unit() * (loose ? std::pow(10.0, -(int)r.pick(18)) : 1); n += (ld)x * x; } n = sqrtl(n); for (double& x : w) x = n > 0 ? x / (double)n * a : 0; } for (double& x : w) x = P(x); return w; }
	double log_scale() { static const double t[] = { 1e-6, 1e-3, 1e-5, 1e-7 }; switch (r.pick(4)) { case 0: return r.unit(); case 1: return 0; case 2: return (r.pick(2) ? t[r.pick(4)] * (1 + r.small_int(1) * 1e-3) : std::pow(10.0, -1 - 7 * std::fabs(r.unit()))) * (r.pick(2) ? 1 : -1); default: return r.unit() * 2; } }
	L tangent() { L v; if (K::T) v = some(d); L w = tangent_rotation(); v.insert(v.end(), w.begin(), w.end()); if (K::S) v.push_back(P(log_scale())); return v; }
	// runs a query twice, on different garbage below the stack and in the heap
	L twice(const char* what, const std::function<L()>& f) {
		L a, b; bool ab; heap::garbage(junk); paint_stack(junk); ab = catch_abort([&] { a = f(); }); heap::garbage(mix64(junk + 1)); paint_stack(junk + 7); ab = ab || catch_abort([&] { b = f(); });
		if (ab) r.fail("abort", "%s of %s aborts", what, K::name().c_str());
		if (!same(a, b)) r.fail("garbage", "%s of %s gives %s and then %s", what, K::name().c_str(), show(a).c_str(), show(b).c_str());
		for (double x : a) r.hash_double(x); return a;
	}
	void differs(const char* what, const LM& got, const LM& want, ld tol) { ld e = (got - want).top(); if (getenv("POSES_TOL")) worst(what, e, tol); if (!got.finite() || e > tol) r.fail("wrong", "%s, %s: %s instead of %s (off by %.3Lg, tolerance %.3Lg)", K::name().c_str(), what, show(got).c_str(), show(want).c_str(), e, tol); }
	void differs(const char* what, const L& got, const vector<ld>& want, ld tol) { for (size_t i = 0; i < want.size(); i++) { ld e = fabsl(got[i] - want[i]); if (getenv("POSES_TOL")) worst(what, e, tol); if (!(e <= tol)) r.fail("wrong", "%s, %s: element %zu is %.17g instead of %.17Lg (tolerance %.3Lg)", K::name().c_str(), what, i, got[i], want[i], tol); } }
	static void worst(const char* what, ld e, ld tol) { static std::map<string, ld> w; ld q = tol > 0 ? e / tol : e > 0 ? 9 : 0; ld& o = w[K::name() + what]; if (q > o * 1.05L) { o = q; fprintf(stderr, "TOL %s %s %.3Lg (err %.3Lg)\n", K::name().c_str(), what, q, e); } }
	int mylin = 0;
	// the element x just made must be the given matrix, and its rotation part a rotation
	void expect(const char* what, const G& x, const LM& want, const LM& bound, ld extra = 0) {
		LM m = mat(x); if (last.size()) r.log("%s", what); differs(what, m, want, 12 * E * (1 + bound.top()) + extra); int l = fresh ? 0 : mylin;
		LM R(d); for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) R(i, j) = rot(x)(i, j); ld o = (R * R.T() - LM(d, 1)).top();
		if (o > E * (30 + 8 * l)) r.fail("not-a-rotation", "%s, %s: the rotation part is off orthonormality by %.3Lg after %d steps", K::name().c_str(), what, o, l);
		ld det = d == 2 ? R(0, 0) * R(1, 1) - R(0, 1) * R(1, 0) : R(0, 0) * (R(1, 1) * R(2, 2) - R(1, 2) * R(2, 1)) - R(0, 1) * (R(1, 0) * R(2, 2) - R(1, 2) * R(2, 0)) + R(0, 2) * (R(1, 0) * R(2, 1) - R(1, 1) * R(2, 0)); if (det < 0.5L) r.fail("not-a-rotation", "%s, %s: the determinant is %.3Lg", K::name().c_str(), what, det);
		for (double b : K::bits(x)) r.hash_double(b); r.steps(1); r.cover(mix64(r.hash ^ d));
	}
	ld exp_tol(const L& v) { ld t = 0; int k = K::T ? d : 0; for (int i = 0; i < k; i++) t = std::max(t, (ld)fabs(v[i])); ld w = 0; for (int i = k; i < D; i++) w = std::max(w, (ld)fabs(v[i])); ld base = 16 * E * (1 + w); if (!K::T) return base; bool f = std::is_same<P, float>::value; if (K::S) return f ? 1e30L : base + 2e-9L * t * expl(w > 2 ? 2 : w); return base + t * (f ? 5e-4L : 1e-12L); }
	void tidy(int i) {   // keep elements in a moderate range
		ld t = 0; for (int k = 0; k < d && K::T; k++) t = std::max(t, fabsl(tr(g[i], k))); ld s = sc(g[i]); if (!(t < 1e4L && s > 1e-3L && s < 1e3L)) { g[i] = G(); lin[i] = 0; r.log("register %d is reset", i); }
		if (lin[i] > 60) { G before = g[i]; orthogonalise(g[i]); fresh = true; expect("coerce", g[i], mat(before), mat(before).abs(), E * (30 + 8 * lin[i]) * (1 + sc(before)) * 4); lin[i] = 0; r.probe("coerced"); }
	}
	void set(int k, const G& x, int l) { g[k] = x; lin[k] = l; }
	void op_exp() {
		int k = r.pick(3); L v = tangent(); G x; bool ctor = r.pick(3) == 2; int as = (int)r.pick(8); if (as == 6) for (double& e : v) e = (float)e; if (as == 7) { for (double& e : v) { e = std::floor(e + 0.5); if (std::fabs(e) > 3) e = 1; } } if (as >= 6) { ctor = false; r.probe("exp_of_another_element_type"); } heap::reset_count(); bool fault = ctor && r.pick_from(S_FAULT, 4) == 3; r.log("register %d = exp %s", k, show(v).c_str());
		if (fault) { heap::fail_at(1); try { make_dyn(x, v); heap::fail_at(0); } catch (std::bad_alloc&) { heap::fail_at(0); r.fault("alloc_fail"); } }
		L b = twice("exp", [&] { x = as == 6 ? make_as<float>(x, v) : as == 7 ? make_as<int>(x, v) : ctor ? make_dyn(x, v) : make_exp(x, v); return K::bits(x); }); fresh = true; LM h = K::hat(v); if (K::S && std::is_same<P, float>::value) { for (int i = 0; i < d; i++) h(i, d) = mat(x)(i, d) * 0; LM y = mat(x), w = expm(h); for (int i = 0; i < d; i++) w(i, d) = y(i, d); expect("exp", x, w, w.abs()); return set(k, x, 0); }
		expect("exp", x, expm(h), LM(N), exp_tol(v)); set(k, x, 0); r.probe("exp");
	}
	void op_compose() { int k = r.pick(3), i = r.pick(3), j = r.pick(3); G x, a = g[i], b = g[j]; r.log("register %d = %d * %d", k, i, j); twice("*", [&] { x = a * b; return K::bits(x); }); fresh = false; mylin = lin[i] + lin[j] + 1; expect("*", x, mat(a) * mat(b), mat(a).abs() * mat(b).abs()); set(k, x, mylin); }
	void op_assign() { int i = r.pick(3), j = r.pick(3); G x, a = g[i], b = g[j]; r.log("register %d *= %d", i, j); twice("*=", [&] { x = a; if (i == j) x *= x; else { G y = b; x *= y; if (!same(K::bits(y), K::bits(b))) r.fail("changes-operand", "*= changes its right operand"); } return K::bits(x); }); fresh = false; mylin = lin[i] + lin[j] + 1; expect(i == j ? "*= itself" : "*=", x, mat(a) * mat(b), mat(a).abs() * mat(b).abs()); if (i == j) r.probe("self_aliasing"); set(i, x, mylin); }
	void op_left() { int i = r.pick(3), j = r.pick(3); G x, a = g[i], b = g[j]; if (!left_multiply(x, x)) return op_compose(); r.log("register %d left_multiply_by %d", i, j); twice("left_multiply_by", [&] { x = a; if (i == j) left_multiply(x, x); else { G y = b; left_multiply(x, y); } return K::bits(x); }); fresh = false; mylin = lin[i] + lin[j] + 1; expect("left_multiply_by", x, mat(b) * mat(a), mat(b).abs() * mat(a).abs()); if (i == j) r.probe("self_aliasing"); set(i, x, mylin); }
	void op_inverse() { int k = r.pick(3), i = r.pick(3); G x, a = g[i]; r.log("register %d = inverse of %d", k, i); twice("inverse", [&] { x = a.inverse(); return K::bits(x); }); fresh = false; mylin = lin[i] + 1; LM w = inv(mat(a)); expect("inverse", x, w, w.abs() * mat(a).abs(), E * (30 + 8 * lin[i]) * (1 + (w.abs() * mat(a).abs() * w.abs()).top())); set(k, x, mylin); }
	void op_ln() {
		int i = r.pick(3); G a = g[i]; r.log("ln of register %d", i); L v = twice("ln", [&] { return ln_of(a); }); bool f = std::is_same<P, float>::value; int k = K::T ? d : 0; ld w = 0, t = 0; for (int j = 0; j < (d == 2 ? 1 : 3); j++) w += (ld)v[k + j] * v[k + j]; w = sqrtl(w); for (int j = 0; j < k; j++) t = std::max(t, (ld)fabs(v[j]));
		if (!(w <= 3.14159265358979323846L * (1 + 4 * E))) r.fail("ln-range", "%s: ln is %s, a rotation by %.17Lg", K::name().c_str(), show(v).c_str(), w);
		if (K::S && f) return; LM e = expm(K::hat(v)); ld drift = E * (16 + 12 * lin[i]); LM m = mat(a); ld tol = drift * (1 + m.top()) * (1 + t) * (K::S ? 1 + (ld)sc(a) + 1 / (ld)sc(a) : 1) + t * (K::S ? 4e-9L * (1 + (ld)sc(a)) : f ? 1e-3L : 2e-11L);
		differs("ln", e, m, tol); r.probe("ln"); if (w > 3.14L) r.probe("half_turn"); if (w < 1e-3L && w > 0) r.probe("small_rotation"); r.steps(1);
	}
	L mul(const LM& m, const L& v, vector<ld>& want, ld& bound, bool left) { want.assign(N, 0); bound = 0; for (int i = 0; i < N; i++) { ld b = 0; for (int j = 0; j < N; j++) { ld c = left ? m(j, i) : m(i, j); want[i] += c * v[j]; b += fabsl(c * v[j]); } bound = std::max(bound, b); } return v; }
	void op_apply() {
		int i = r.pick(3); const G a = g[i]; LM m = mat(a); int k = r.pick(5); L v = some(N); vector<ld> want; ld b; r.log("apply register %d to %s", i, show(v).c_str()); bool dy = r.pick(2); L got; const char* what = "* vector";
		if (K::T && k == 0) { v[N - 1] = 1; mul(m, v, want, b, false); L u(v.begin(), v.begin() + d); got = twice("* point", [&] { return list(a * vec<d, P>(u)); }); want.resize(d); what = "* point"; }
		else if (k <= 2) { mul(m, v, want, b, k == 2); what = k == 2 ? "vector *" : "* vector";
			if (dy) { if (r.pick_from(S_FAULT, 4) == 3) { heap::reset_count(); heap::fail_at(1); try { heap::Armed h; dyn<P>(v); } catch (std::bad_alloc&) { r.fault("alloc_fail"); } heap::fail_at(0); }
				got = twice(what, [&] { heap::Armed h; Vector<Dynamic, P> u = dyn<P>(v); L o; if (k == 2) { auto y = u * a; heap::Paused p; o = list(y); } else { auto y = a * u; heap::Paused p; o = list(y); } return o; }); }
			else got = twice(what, [&] { return k == 2 ? list(vec<N, P>(v) * a) : list(a * vec<N, P>(v)); }); }
		else return op_apply_matrix(a, m, k == 4, dy);
		differs(what, got, want, 12 * E * b); r.steps(1);
	}
	template<class M> static L product(const G& a, const M& x, bool left, L& out, int& rows, int& cols);
	void op_apply_matrix(const G& a, const LM& m, bool left, bool dy) {
		int c = dy ? r.range(1, 4) : 2; L x(N * c); for (double& q : x) q = P(r.pick(2) ? r.small_int(4) : r.unit()); // N x c, or c x N on the left
		string what = left ? "matrix *" : "* matrix"; L got; uint64_t fa = dy ? r.pick_from(S_FAULT, 3) : 0; heap::reset_count();
		auto run = [&]() -> L { L o; heap::Armed h;
			if (dy && !left) { Matrix<Dynamic, Dynamic, P> y(N, c); for (int i = 0; i < N * c; i++) y(i / c, i % c) = P(x[i]); auto z = a * y; heap::Paused p; o = listm(z); }
			else if (dy) { Matrix<Dynamic, Dynamic, P> y(c, N); for (int i = 0; i < N * c; i++) y(i % c, i / c) = P(x[i]); auto z = y * a; heap::Paused p; o = listm(z); }
			else if (!left) { Matrix<N, 2, P> y; for (int i = 0; i < N * c; i++) y(i / c, i % c) = P(x[i]); auto z = a * y; heap::Paused p; o = listm(z); }
			else { Matrix<2, N, P> y; for (int i = 0; i < N * c; i++) y(i % c, i / c) = P(x[i]); auto z = y * a; heap::Paused p; o = listm(z); } return o; };
		if (fa) { heap::fail_at(fa); L b0 = K::bits(a); try { run(); } catch (std::bad_alloc&) { r.fault("alloc_fail"); r.nontrivial(); } heap::fail_at(0); if (!same(b0, K::bits(a))) r.fail("changes-operand", "%s that failed changes the element", what.c_str()); }
		got = twice(what.c_str(), run); if ((int)got.size() != N * c) r.fail("shape", "%s: %zu elements", what.c_str(), got.size());
		for (int q = 0; q < c; q++) { L v(N), y(N); for (int i = 0; i < N; i++) { v[i] = x[i * c + q]; y[i] = left ? got[q * N + i] : got[i * c + q]; } vector<ld> want; ld b; mul(m, v, want, b, left); differs(what.c_str(), y, want, 12 * E * b); } r.steps(1); r.probe("matrices");
	}
	// the adjoint of g[i] as a matrix, in long double
	vector<vector<ld>> adjoint_ref(const G& a) {
		LM m = mat(a), mi = inv(m); vector<vector<ld>> A(D, vector<ld>(D)); int k = K::T ? d : 0;
		for (int c = 0; c < D; c++) { L e(D, 0.0); e[c] = 1; LM h = m * K::hat(e) * mi; for (int i = 0; i < k; i++) A[i][c] = h(i, d); if (d == 2) A[k][c] = (h(1, 0) - h(0, 1)) / 2; else for (int i = 0; i < 3; i++) A[k + i][c] = (h((i + 2) % 3, (i + 1) % 3) - h((i + 1) % 3, (i + 2) % 3)) / 2; if (K::S) { ld t = 0; for (int i = 0; i < d; i++) t += h(i, i); A[D - 1][c] = t / d; } } return A;
	}
	void op_adjoint() {
		int i = r.pick(3); const G a = g[i]; L v = some(D), o; int k = r.pick(4); L q; if (!adj(a, v, q)) return op_apply(); r.log("adjoint of register %d", i); auto A = adjoint_ref(a); ld nA = 0; for (auto& row : A) for (ld x : row) nA = std::max(nA, fabsl(x)); ld drift = E * (24 + 12 * lin[i]) * D;
		auto vecmul = [&](const vector<vector<ld>>& M, const L& x, bool transposed) { vector<ld> y(D, 0); for (int a_ = 0; a_ < D; a_++) for (int b = 0; b < D; b++) y[a_] += (transposed ? M[b][a_] : M[a_][b]) * x[b]; return y; };
		auto big = [](const L& x) { ld m = 0; for (double t : x) m = std::max(m, (ld)fabs(t)); return m; };
		if (k == 0) { o = twice("adjoint", [&] { L x; adj(a, v, x); return x; }); differs("adjoint", o, vecmul(A, v, false), drift * nA * big(v) * (1 + nA)); }
		if (k == 1 && tinv(a, v, o)) { o = twice("trinvadjoint", [&] { L x; tinv(a, v, x); return x; }); auto back = vecmul(A, o, true); vector<ld> want(v.begin(), v.end()); L gotb(back.begin(), back.end()); differs("trinvadjoint", gotb, want, drift * (1 + nA) * (big(o) + big(v)) * (1 + nA)); r.probe("trinvadjoint"); }
		if (k >= 2) { L M(D * D); for (double& x : M) x = P(r.pick(2) ? r.small_int(3) : r.unit()); bool ti = k == 3; if (!(ti ? tinvm(a, M, o) : adjm(a, M, o))) return; o = twice(ti ? "trinvadjoint of a matrix" : "adjoint of a matrix", [&] { L x; if (ti) tinvm(a, M, x); else adjm(a, M, x); return x; });
			// adjoint: A M A^T; trinvadjoint: A^T o A = M
			vector<vector<ld>> X(D, vector<ld>(D)), Y(D, vector<ld>(D)); const L& in = ti ? o : M; const L& out = ti ? M : o; for (int p = 0; p < D; p++) for (int q2 = 0; q2 < D; q2++) for (int t = 0; t < D; t++) X[p][q2] += (ti ? A[t][p] : A[p][t]) * in[t * D + q2]; for (int p = 0; p < D; p++) for (int q2 = 0; q2 < D; q2++) for (int t = 0; t < D; t++) Y[p][q2] += X[p][t] * (ti ? A[t][q2] : A[q2][t]);
			vector<ld> want; L got; for (int p = 0; p < D; p++) for (int q2 = 0; q2 < D; q2++) { want.push_back(Y[p][q2]); got.push_back(out[p * D + q2]); } differs(ti ? "trinvadjoint of a matrix" : "adjoint of a matrix", got, want, drift * D * (1 + nA) * (1 + nA) * (1 + nA) * (big(o) + big(M))); r.probe("matrix_adjoint"); }
		r.steps(1);
	}
	void op_generator() {
		int i = r.pick(D); L e(D, 0.0); e[i] = 1; LM got(N); L b = twice("generator", [&] { got = gen(g[0], i); L o; for (int x = 0; x < N; x++) for (int y = 0; y < N; y++) o.push_back((double)got(x, y)); return o; }); differs("generator", got, K::hat(e), 0);
		L p = some(N), o; if (field(g[0], i, p, o)) { o = twice("generator_field", [&] { L x; field(g[0], i, p, x); return x; }); vector<ld> want(N, 0); LM h = K::hat(e); for (int x = 0; x < N; x++) for (int y = 0; y < N; y++) want[x] += h(x, y) * p[y]; differs("generator_field", o, want, 0); } r.steps(1);
	}
	void op_matrix() {   // from a matrix that is only nearly a rotation
		int k = r.pick(3); LM R(d); for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) R(i, j) = rot(g[k])(i, j); double noise = r.pick(2) ? 0.1 : std::pow(10.0, -r.range(2, 16)); double s = r.pick(3) ? 1 : std::pow(10.0, r.range(-3, 3)); Matrix<d, d, P> M; LM X(d); for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) { M(i, j) = P((double)R(i, j) * s + s * noise * r.unit()); X(i, j) = M(i, j); }
		L t = some(d); double sca = std::exp(r.unit()); G x; r.log("register %d from a matrix, noise %g", k, noise); twice("construction from a matrix", [&] { x = assemble(x, M, t, sca); return K::bits(x); });
		for (int i = 0; i < d; i++) { for (int rep = 0; rep < 2; rep++) for (int j = 0; j < i; j++) { ld q = 0; for (int c = 0; c < d; c++) q += X(i, c) * X(j, c); for (int c = 0; c < d; c++) X(i, c) -= q * X(j, c); } ld n = 0; for (int c = 0; c < d; c++) n += X(i, c) * X(i, c); n = sqrtl(n); for (int c = 0; c < d; c++) X(i, c) /= n; }
		LM w(N, 1); for (int i = 0; i < d; i++) { for (int j = 0; j < d; j++) w(i, j) = X(i, j) * (K::S ? (ld)P(sca) : 1); if (K::T) w(i, d) = P(t[i]); } fresh = true; expect("construction from a matrix", x, w, LM(N), 40 * E * (K::S ? 3 : 1)); set(k, x, 0); r.probe("coerce");
	}
	bool between(SO3<P>& x) {   // the rotation that takes a to b
		if (r.pick(10) == 9) { L a(3), b(3); for (double& q : a) q = P(r.unit()); double f = r.pick(2) ? 0 : 1 + (int)r.pick(3); for (int i = 0; i < 3; i++) b[i] = f * a[i]; if (f == 0 && r.pick(2)) std::swap(a, b); double tiny = r.pick(2) ? sizeof(P) == 4 ? std::ldexp(1.0, -80) : std::ldexp(1.0, -400) : 1; for (double& q : a) q = P(q * tiny); r.log("rotation from %s to %s", show(a).c_str(), show(b).c_str());   // no cross product: the identity
			twice("rotation between vectors", [&] { x = SO3<P>(vec<3, P>(a), vec<3, P>(b)); return listm(x.get_matrix()); }); fresh = true; expect3(x, LM(3, 1)); r.probe("no_cross_product"); return true; }
		int as = (int)r.pick(6); if (as == 1 && sizeof(P) == 4) as = 0; auto rnd = [&](double q) { return as == 1 || as == 3 ? (double)(float)q : as == 2 ? q : (double)P(q); };   // vectors of other types than the group
		auto make = [&](const L& u, const L& v) { switch (as) { case 1: return SO3<P>(vec<3, float>(u), vec<3, float>(v)); case 2: return SO3<P>(vec<3, double>(u), vec<3, double>(v)); case 3: return SO3<P>(vec<3, float>(u), vec<3, double>(v)); default: return SO3<P>(vec<3, P>(u), vec<3, P>(v)); } };
		double small = as == 1 || as == 2 || as == 3 ? 1 : r.pick(6) ? 1 : sizeof(P) == 4 ? std::ldexp(1.0, -55) : std::ldexp(1.0, -300);
		L a(3), b(3); for (double& q : a) q = rnd(r.pick(2) ? r.small_int(3) : r.unit()); ld n = 0; for (double q : a) n += (ld)q * q; if (n < 1e-6L) a[0] = 1; double e = r.pick(3) ? std::pow(10.0, -r.range(1, 18)) : 2; int sg = r.pick(2) ? 1 : -1; double len = r.pick(3) ? 1 : std::pow(10.0, r.range(-6, 6)); for (int i = 0; i < 3; i++) b[i] = rnd((sg * a[i] + e * (r.pick(2) ? r.small_int(3) : r.unit())) * len); for (double& q : a) q = rnd(q * small); if (r.pick(2)) for (double& q : b) q = rnd(q * small);
		auto unitl = [](const L& v, ld* o) { ld m = 0; for (double q : v) m += (ld)q * q; m = sqrtl(m); for (int i = 0; i < 3; i++) o[i] = v[i] / m; return m; }; ld ua[3], ub[3], c[3], dot = 0, nc = 0; if (!(unitl(a, ua) > 0 && unitl(b, ub) > 0)) return false; for (int i = 0; i < 3; i++) { c[i] = ua[(i + 1) % 3] * ub[(i + 2) % 3] - ua[(i + 2) % 3] * ub[(i + 1) % 3]; dot += ua[i] * ub[i]; } for (ld q : c) nc += q * q; nc = sqrtl(nc);
		if (as >= 1 && as <= 3) { r.probe("vectors_of_another_element_type"); if (dot < 0 && nc < 1e-15L) return false; }
		else if (dot < 0) { Vector<3, P> n = vec<3, P>(a) ^ vec<3, P>(b); if (!(norm_sq(n) > 0)) return false; }   // exactly opposite to rounding: not defined
		if (!(norm_inf(vec<3, P>(b)) > 0) || nc == 0 && dot < 0) return false;
		r.log("rotation from %s to %s", show(a).c_str(), show(b).c_str()); twice("rotation between vectors", [&] { x = make(a, b); return listm(x.get_matrix()); });
		vector<ld> w(ub, ub + 3); L got(3); for (int i = 0; i < 3; i++) { ld q = 0; for (int j = 0; j < 3; j++) q += (ld)x.get_matrix()(i, j) * ua[j]; got[i] = (double)q; } fresh = true; between_(x, got, w, c, dot, nc); return true;
	}
	void between_(const SO3<P>& x, const L& got, const vector<ld>& w, const ld* c, ld dot, ld nc) {
		differs("rotation between vectors", got, w, 16 * E); LM ref(3, 1); if (dot > -0.999L) { LM h(3); for (int i = 0; i < 3; i++) { h((i + 1) % 3, (i + 2) % 3) = -c[i]; h((i + 2) % 3, (i + 1) % 3) = c[i]; } ref = ref + h + h * h * (1 / (1 + dot)); } else { ref = lm(x.get_matrix()); r.probe("nearly_opposite"); if (nc > 1e-3L) for (int i = 0; i < 3; i++) { ld q = 0; for (int j = 0; j < 3; j++) q += ref(i, j) * c[j] / nc; if (fabsl(q - c[i] / nc) > 1e4 * E) r.fail("wrong", "the rotation between vectors is not about their cross product"); } }
		if (dot > 0.999L) r.probe("nearly_parallel"); expect3(x, ref);
	}
	template<class X> void expect3(const X& x, const LM& ref) { }
	void expect3(const G& x, const LM& ref) { if (d == 3 && !K::T) expect("rotation between vectors", x, ref, LM(3), 200 * E); }
	void op_mixed() { int k = r.pick(3); G x = g[k]; fresh = false; mylin = lin[k] + 1; if (!mixed(*this, x)) return op_compose(); set(k, x, fresh ? 0 : mylin); r.probe("mixed_product"); }
	string text(const G& x, int prec) { std::ostringstream o; o.precision(prec); o << x; return o.str(); }
	void op_save() {
		int i = r.pick(3), slot = r.pick(2); int prec = r.pick(3) == 2 ? 6 : std::is_same<P, float>::value ? 9 : 17; durable[slot] = text(g[i], prec); digits[slot] = prec; saved_lin[slot] = lin[i]; saved_mat[slot] = mat(g[i]); r.log("register %d written with %d digits", i, prec);
		std::istringstream in(durable[slot]); LM m(N, K::T ? 1 : 0); for (int a = 0; a < d; a++) for (int b = 0; b < (K::T ? d + 1 : d); b++) { double q; if (!(in >> q)) r.fail("text", "%s is written as %s", K::name().c_str(), durable[slot].c_str()); m(a, b) = q; } ld tol = (2 * powl(10, 1 - prec) + 2 * E) * (1 + saved_mat[slot].top()); differs("the text written", m, saved_mat[slot], tol); r.steps(1);
	}
	void read_back(int k, int slot, const char* what) {
		G x = g[k]; twice(what, [&] { heap::Armed h; std::istringstream in(durable[slot]); x = g[k]; if (!(in >> x)) { heap::Paused p; r.fail("unreadable", "%s cannot be read from %s", K::name().c_str(), durable[slot].c_str()); } heap::Paused p; return K::bits(x); });
		ld u = powl(10, 1 - digits[slot]); fresh = true; LM m = saved_mat[slot]; expect(what, x, m, LM(N), (20 * u + E * (20 + 12 * saved_lin[slot])) * (1 + m.top())); set(k, x, 0);
	}
	void op_crash() {
		bool any = digits[0] || digits[1]; r.log("crash: all registers are lost"); for (int i = 0; i < 3; i++) { g[i] = G(); lin[i] = 0; } r.fault("crash"); if (!any) return; r.nontrivial(); for (int s = 0; s < 2; s++) if (digits[s]) read_back(s, s, "restored from text");
	}
	void op_bad_read() {   // a torn, corrupted or failing source: an error, and the element as before
		int k = r.pick(3); string t = text(g[r.pick(3)], 12); G before = g[k]; uint64_t kind = r.pick_from(S_FAULT, 3); int numbers = d * (K::T ? d + 1 : d); vector<std::pair<size_t, size_t>> tok; for (size_t p = 0; p < t.size();) { if (isspace(t[p])) { p++; continue; } size_t q = p; while (q < t.size() && !isspace(t[q])) q++; tok.push_back(std::make_pair(p, q)); p = q; } if ((int)tok.size() != numbers) r.fail("text", "%s is written as %zu numbers: %s", K::name().c_str(), tok.size(), t.c_str());
		auto z = tok[r.pick(numbers)]; if (kind == 0) t = t.substr(0, z.first); if (kind == 1) t[z.first] = 'x'; bool ab = false, failed = false, thrown = false; G x = before; std::unique_ptr<std::streambuf> buf(kind == 2 ? (std::streambuf*)new FailingBuf(t, z.first) : new std::stringbuf(t)); bool exc = r.pick(3) == 2;
		ab = catch_abort([&] { std::istream in(buf.get()); if (exc) in.exceptions(std::ios::badbit | std::ios::failbit); try { in >> x; failed = !in; } catch (...) { failed = thrown = true; } });
		if (ab) r.fail("abort", "%s: reading damaged text aborts", K::name().c_str()); if (!failed) r.fail("undetected", "%s: damaged text '%s' is read without an error", K::name().c_str(), t.c_str()); if (exc && !thrown) r.fail("undetected", "%s: no exception from a stream that has them switched on", K::name().c_str());
		if (!same(K::bits(x), K::bits(before))) r.fail("half-read", "%s: a read that fails changes the element from %s to %s", K::name().c_str(), show(K::bits(before)).c_str(), show(K::bits(x)).c_str()); r.fault(kind == 0 ? "torn_read" : kind == 1 ? "corrupt_read" : "failing_read"); r.nontrivial(); r.steps(1);
	}
	void check_all(const vector<L>& before, int changed) { }
	void run() {
		junk = mix64(1 + r.pick_from(S_FAULT, 1000)); last = K::name(); r.log("%s", last.c_str()); r.set_ops(r.range(4, 30));
		while (r.next_op()) {
			heap::garbage(junk);
			switch (r.pick(16)) { case 0: case 1: case 2: op_exp(); break; case 3: op_compose(); break; case 4: op_assign(); break; case 5: op_left(); break; case 6: op_inverse(); break; case 7: case 8: op_ln(); break; case 9: op_apply(); break; case 10: op_adjoint(); break; case 11: if (r.pick(4) == 3) op_generator(); else op_apply(); break; case 12: op_matrix(); break; case 13: op_mixed(); break; case 14: if (r.pick(2)) op_save(); else op_crash(); break; case 15: op_bad_read(); break; }
			for (int i = 0; i < 3; i++) tidy(i);
		}
		g.clear();
	}
};
template<class K> static void go(Run& r) { { Bank<K> b(r); b.run(); } finish(r); }
#if PART == 21
static void poses(Run& r) { switch (r.pick(8)) { case 0: go<Kind<SE3, double, 3, 1, 0>>(r); break; case 1: go<Kind<SO3, double, 3, 0, 0>>(r); break; case 2: go<Kind<SE2, double, 2, 1, 0>>(r); break; case 3: go<Kind<SO2, double, 2, 0, 0>>(r); break; case 4: go<Kind<SE3, float, 3, 1, 0>>(r); break; case 5: go<Kind<SO3, float, 3, 0, 0>>(r); break; case 6: go<Kind<SE2, float, 2, 1, 0>>(r); break; case 7: go<Kind<SO2, float, 2, 0, 0>>(r); break; } }
static Register c21("C21", poses, "so2.h so3.h se2.h se3.h and the vectors, matrices and streams beneath them", "heap (seeded failures and garbage), text store, stream buffers, abort", "a run with a fault is one with a crash, a damaged read or a failed allocation");
#else
static void poses(Run& r) { switch (r.pick(4)) { case 0: go<Kind<SIM3, double, 3, 1, 1>>(r); break; case 1: go<Kind<SIM2, double, 2, 1, 1>>(r); break; case 2: go<Kind<SIM3, float, 3, 1, 1>>(r); break; case 3: go<Kind<SIM2, float, 2, 1, 1>>(r); break; } }
static Register c22("C22", poses, "sim2.h sim3.h and the poses, vectors, matrices and streams beneath them", "heap (seeded failures and garbage), text store, stream buffers, abort", "a run with a fault is one with a crash, a damaged read or a failed allocation");
#endif
#endif

#if PART == 23
#include "scalar.h"
// the generators as documented: diag(..., 1, -1, ...), then symmetric, then antisymmetric ones
static LM generator_ref(int N, int i) {
	LM m(N); if (i < N - 1) { m(i, i) = 1; m(i + 1, i + 1) = -1; return m; } i -= N - 1; int pairs = N * (N - 1) / 2; bool anti = i >= pairs; i %= pairs;
	for (int a = 0; a < N; a++) for (int b = a + 1; b < N; b++) if (!i--) { m(a, b) = anti ? -1 : 1; m(b, a) = 1; } return m;
}
static LM combine(int N, const L& v) { LM m(N); for (int i = 0; i < N * N - 1; i++) m = m + generator_ref(N, i) * (ld)v[i]; return m; }
static ld det(const LM& x) { LM a = x; int n = x.n; ld d = 1; for (int c = 0; c < n; c++) { int p = c; for (int i = c; i < n; i++) if (fabsl(a(i, c)) > fabsl(a(p, c))) p = i; if (p != c) { d = -d; for (int j = 0; j < n; j++) std::swap(a(c, j), a(p, j)); } d *= a(c, c); if (!d) return 0; for (int i = c + 1; i < n; i++) { ld f = a(i, c) / a(c, c); for (int j = c; j < n; j++) a(i, j) -= f * a(c, j); } } return d; }
static ld rows(const LM& m) { ld t = 0; for (int i = 0; i < m.n; i++) { ld s = 0; for (int j = 0; j < m.n; j++) s += fabsl(m(i, j)); t = std::max(t, s); } return t; }
static void judge(Run& r, const char* who, const char* what, const LM& got, const LM& want, ld tol) { ld e = (got - want).top(); if (getenv("POSES_TOL")) { static std::map<string, ld> w; ld q = tol > 0 ? e / tol : e > 0 ? 9 : 0; ld& o = w[string(who) + what]; if (q > o * 1.05L) { o = q; fprintf(stderr, "TOL %s %s %.3Lg (err %.3Lg)\n", who, what, q, e); } } if (!got.finite() || e > tol) r.fail("wrong", "%s, %s: %s instead of %s (off by %.3Lg, tolerance %.3Lg)", who, what, show(got).c_str(), show(want).c_str(), e, tol); }

template<int N, class P> struct Special {
	typedef SL<N, P> G; enum { D = N * N - 1 };
	Run& r; ld E; vector<G> g; vector<int> lin; vector<LM> logs; uint64_t junk; string durable; LM saved; int digits = 0, saved_lin = 0; string who;
	Special(Run& r_) : r(r_), E(Fp<P>::eps()), g(3), lin(3, 0), logs(3, LM(N)), who(fmt("SL<%d,%s>", N, Fp<P>::name())) {}
	static LM mat(const G& x) { return lm(x.get_matrix()); }
	static L bits(const G& x) { return listm(x.get_matrix()); }
	L twice(const char* what, const std::function<L()>& f) { L a, b; heap::garbage(junk); paint_stack(junk); bool ab = catch_abort([&] { a = f(); }); heap::garbage(mix64(junk + 1)); paint_stack(junk + 7); ab = ab || catch_abort([&] { b = f(); }); if (ab) r.fail("abort", "%s of %s aborts", what, who.c_str()); if (!same(a, b)) r.fail("garbage", "%s of %s gives %s and then %s", what, who.c_str(), show(a).c_str(), show(b).c_str()); for (double x : a) r.hash_double(x); r.steps(1); return a; }
	L tangent() { L v(D, 0.0); double m = r.pick(4) == 3 ? std::pow(10.0, -r.range(2, 17)) : r.pick(3) ? 0.3 : 1; if (r.pick(4) == 3) v[r.pick(D)] = P(r.small_int(2) * m); else { bool loose = r.pick(4) == 3; for (double& x : v) x = P(r.unit() * m * (loose ? std::pow(10.0, -(int)r.pick(18)) : 1)); } return v; }
	// logarithm known: the element was made as the exponential of a small matrix, whose logarithm is the principal one
	void set(int k, const G& x, int l, const LM& lg) { g[k] = x; lin[k] = l; logs[k] = lg; LM m = mat(x); if (!(m.top() < 1e3L) || l > 40) { g[k] = G(); lin[k] = 0; logs[k] = LM(N); r.log("register %d is reset", k); } r.cover(mix64(r.hash)); }
	void check(const char* what, const G& x, const LM& want, ld tol, int l) { LM m = mat(x); judge(r, who.c_str(), what, m, want, tol); ld d = det(m), c = powl(1 + rows(m), N); if (fabsl(d - 1) > E * (20 + 12 * l) * c + N * tol * powl(1 + rows(m), N - 1)) r.fail("determinant", "%s, %s: the determinant is %.17Lg", who.c_str(), what, d); }
	ld exp_tol(ld n) { return 40 * N * E * (1 + n) * expl(n); }
	static LM none() { LM m(N); m(0, 0) = NAN; return m; }
	void op_exp() { int k = r.pick(3); L v = tangent(); G x; bool dy = r.pick(3) == 2, ctor = r.pick(2); r.log("register %d = exp %s", k, show(v).c_str()); if (dy && r.pick_from(S_FAULT, 4) == 3) { heap::reset_count(); heap::fail_at(1); try { heap::Armed a; G(dyn<P>(v)); } catch (std::bad_alloc&) { r.fault("alloc_fail"); } heap::fail_at(0); }
		twice("exp", [&] { if (dy) { heap::Armed a; auto u = dyn<P>(v); x = ctor ? G(u) : G::exp(u); } else { auto u = vec<D, P>(v); x = ctor ? G(u) : G::exp(u); } return bits(x); }); LM h = combine(N, v); check("exp", x, expm(h), exp_tol(rows(h)), 0); set(k, x, 0, rows(h) < 2 ? h : none()); r.probe("exp"); }
	void op_compose() { int k = r.pick(3), i = r.pick(3), j = r.pick(3); G x, a = g[i], b = g[j]; bool assign = r.pick(2); r.log("register %d = %d %s %d", k, i, assign ? "*=" : "*", j); twice("*", [&] { if (assign) { x = a; if (i == j) x *= x; else x *= b; } else x = a * b; return bits(x); }); if (assign && i == j) r.probe("self_aliasing"); int l = lin[i] + lin[j] + 1; check("*", x, mat(a) * mat(b), 8 * N * E * (mat(a).abs() * mat(b).abs()).top(), l); LM lg = i == j ? logs[i] * 2.0L : none(); set(k, x, l, rows(lg) < 2 ? lg : none()); }
	void op_inverse() { int k = r.pick(3), i = r.pick(3); G x, a = g[i]; r.log("register %d = inverse of %d", k, i); twice("inverse", [&] { x = a.inverse(); return bits(x); }); LM w = inv(mat(a)); check("inverse", x, w, 40 * N * E * w.top() * rows(w) * rows(mat(a)), lin[i] + 1); set(k, x, lin[i] + 1, logs[i] * -1.0L); }
	void op_ln() { int i = r.pick(3); G a = g[i]; if (!logs[i].finite() || lin[i] > 4) return op_inverse(); r.log("ln of register %d", i); L v = twice("ln", [&] { return list(a.ln()); }); LM got = combine(N, v), e = expm(logs[i]); ld kappa = rows(e) * rows(inv(e)); ld tol = (E * (200 + 100 * lin[i]) + 1e-16L) * N * kappa * kappa; judge(r, who.c_str(), "ln", got, logs[i], tol); judge(r, who.c_str(), "exp of ln", expm(got), mat(a), tol * (1 + rows(mat(a)))); r.probe("ln"); }
	void op_generator() { int i = r.pick(D); Matrix<N, N, P> m; twice("generator", [&] { m = G::generator(i); return listm(m); }); judge(r, who.c_str(), "generator", lm(m), generator_ref(N, i), 0); }
	void op_matrix() { int k = r.pick(3); Matrix<N, N, P> M; LM X(N); double s = r.pick(2) ? 1 : std::pow(10.0, r.range(-4, 4)); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) X(i, j) = M(i, j) = P((r.pick(2) ? r.unit() : r.small_int(3)) * s); ld d = det(X), n = rows(X); if (!(fabsl(d) > 0.05L * powl(n, N)) || (N % 2 == 0 && d < 0)) return op_exp();
		G x; r.log("register %d from %s", k, show(X).c_str()); twice("construction from a matrix", [&] { x = G(M); return bits(x); }); ld q = powl(fabsl(d), 1.0L / N); if (d < 0) q = -q, r.probe("negative_determinant"); check("construction from a matrix", x, X * (1 / q), 400 * N * E * n / fabsl(q), 2); set(k, x, 2, none()); }
	void op_apply() { int i = r.pick(3); const G a = g[i]; LM m = mat(a); bool left = r.pick(2), mx = r.pick(2), dy = r.pick(2); int c = mx ? (dy ? r.range(1, 3) : 2) : 1; L x(N * c), got; for (double& q : x) q = P(r.pick(2) ? r.small_int(4) : r.unit()); r.log("apply register %d", i); uint64_t fa = dy ? r.pick_from(S_FAULT, 4) : 0; heap::reset_count();
		auto run = [&]() -> L { heap::Armed h; L o;
			if (!mx && dy) { Vector<Dynamic, P> u(N); for (int p = 0; p < N; p++) u[p] = P(x[p]); Vector<N, P> z = left ? u * a : a * u; heap::Paused ps; o = list(z); }
			else if (!mx) { Vector<N, P> u; for (int p = 0; p < N; p++) u[p] = P(x[p]); Vector<N, P> z = left ? u * a : a * u; heap::Paused ps; o = list(z); }
			else if (dy && left) { Matrix<Dynamic, Dynamic, P> u(c, N); for (int p = 0; p < N * c; p++) u(p % c, p / c) = P(x[p]); Matrix<Dynamic, N, P> z = u * a; heap::Paused ps; LM q; for (int p = 0; p < N; p++) for (int t = 0; t < c; t++) o.push_back((double)z(t, p)); }
			else if (dy) { Matrix<Dynamic, Dynamic, P> u(N, c); for (int p = 0; p < N * c; p++) u(p / c, p % c) = P(x[p]); Matrix<N, Dynamic, P> z = a * u; heap::Paused ps; for (int p = 0; p < N; p++) for (int t = 0; t < c; t++) o.push_back((double)z(p, t)); }
			else if (left) { Matrix<2, N, P> u; for (int p = 0; p < N * c; p++) u(p % c, p / c) = P(x[p]); Matrix<2, N, P> z = u * a; heap::Paused ps; for (int p = 0; p < N; p++) for (int t = 0; t < c; t++) o.push_back((double)z(t, p)); }
			else { Matrix<N, 2, P> u; for (int p = 0; p < N * c; p++) u(p / c, p % c) = P(x[p]); Matrix<N, 2, P> z = a * u; heap::Paused ps; for (int p = 0; p < N; p++) for (int t = 0; t < c; t++) o.push_back((double)z(p, t)); } return o; };
		if (fa) { heap::fail_at(fa); try { run(); } catch (std::bad_alloc&) { r.fault("alloc_fail"); r.nontrivial(); } heap::fail_at(0); }
		got = twice(left ? "x * SL" : "SL * x", run); if ((int)got.size() != N * c) r.fail("shape", "%zu elements", got.size()); for (int t = 0; t < c; t++) for (int p = 0; p < N; p++) { ld w = 0, b = 0; for (int q = 0; q < N; q++) { ld u = (left ? m(q, p) : m(p, q)) * x[q * c + t]; w += u; b += fabsl(u); } if (!(fabsl(got[p * c + t] - w) <= 8 * N * E * b)) r.fail("wrong", "%s %s: element %d is %.17g instead of %.17Lg", who.c_str(), left ? "on the right" : "on the left", p, got[p * c + t], w); } }
	void op_text() {
		uint64_t k = r.pick(3);
		if (k == 0 || !digits) { int i = r.pick(3); digits = r.pick(3) == 2 ? 6 : std::is_same<P, float>::value ? 9 : 17; std::ostringstream o; o.precision(digits); o << g[i]; durable = o.str(); saved = mat(g[i]); saved_lin = lin[i]; r.log("register %d written with %d digits", i, digits); return; }
		if (k == 1) { r.log("crash"); for (int i = 0; i < 3; i++) set(i, G(), 0, LM(N)); r.fault("crash"); r.nontrivial(); G x; ld u = powl(10, 1 - digits); ld d = det(saved), bound = (20 * u + E * (40 + 12 * saved_lin)) * N * powl(1 + rows(saved), N) * (1 + saved.top()); if (!(bound < 0.01L)) return; twice("reading", [&] { std::istringstream in(durable); x = G(); if (!(in >> x)) r.fail("unreadable", "%s cannot be read from %s", who.c_str(), durable.c_str()); return bits(x); }); check("restored from text", x, saved, bound, 2); set(0, x, 2, none()); return; }
		string t = durable; int at = r.pick(N * N); size_t p = 0; for (int i = 0; i <= at; i++) { if (i) while (p < t.size() && !isspace(t[p])) p++; while (p < t.size() && isspace(t[p])) p++; } bool torn = r.pick_from(S_FAULT, 2); if (torn) t = t.substr(0, p); else t[p] = 'x'; int i = r.pick(3); G x = g[i]; std::istringstream in(t); bool ab = catch_abort([&] { in >> x; }); if (ab) r.fail("abort", "%s: reading damaged text aborts", who.c_str()); if (in) r.fail("undetected", "%s: damaged text '%s' is read without an error", who.c_str(), t.c_str()); if (!same(bits(x), bits(g[i]))) r.fail("half-read", "%s: a read that fails changes the element", who.c_str()); r.fault(torn ? "torn_read" : "corrupt_read"); r.nontrivial();
	}
	void run() { junk = mix64(1 + r.pick_from(S_FAULT, 1000)); r.log("%s", who.c_str()); r.set_ops(r.range(4, 20)); while (r.next_op()) switch (r.pick(12)) { case 0: case 1: case 2: op_exp(); break; case 3: op_compose(); break; case 4: op_inverse(); break; case 5: case 6: op_ln(); break; case 7: op_matrix(); break; case 8: if (r.pick(4) == 3) { op_generator(); break; } case 9: op_apply(); break; default: op_text(); } }
};
// ------------------------------------------------------------------------ exp, sqrt and log of matrices, step by step
// T = sim::Num counts every operation (the clock of these loops) and throws at a seeded one
template<int S, class T> struct Functions {
	Run& r; int n; uint64_t junk; ld E; Functions(Run& r_, int n_) : r(r_), n(n_), E(std::is_same<T, float>::value ? FLT_EPSILON : DBL_EPSILON) {}
	typedef Matrix<S, S, T> M;
	static double val(double x) { return x; } static double val(float x) { return x; } static double val(const sim::Num& x) { return x.v; }
	L call(int f, const LM& x) {
		M m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = T((double)x(i, j)); M o(n, n); switch (f) { case 0: o = TooN::exp(m); break; case 1: o = TooN::sqrt(m); break; case 2: o = TooN::log(m); break; }
		heap::Paused p; L v; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { v.push_back(val(o(i, j))); if (val(m(i, j)) != (double)(T)(double)x(i, j)) r.fail("changes-operand", "the argument has changed"); } return v;
	}
	void run() {
		static const char* name[] = { "exp", "sqrt", "log" }; junk = mix64(1 + r.pick_from(S_FAULT, 1000)); bool counted = std::is_same<T, sim::Num>::value; string who = fmt("%dx%d %s%s", n, n, S < 0 ? "dynamic " : "", counted ? "counted" : std::is_same<T, float>::value ? "float" : "double"); r.set_ops(r.range(1, 5));
		while (r.next_op()) {
			int f = r.pick(3); LM h(n); double m = r.pick(4) == 3 ? std::pow(10.0, -r.range(1, 18)) : r.pick(2) ? 0.2 : 0.6; int shape = r.pick(5);
			for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (shape == 0 ? true : shape == 1 ? i == j : shape == 2 ? j > i : false) h(i, j) = r.unit() * m; if (shape == 4) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) h(i, j) = r.unit() * m * (i == j ? 1 : std::pow(10.0, -(int)r.pick(18))); if (shape == 3) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { h(i, j) = r.unit() * m * 2; h(j, i) = -h(i, j); }
			double big = 1; if (f == 0 && r.pick(3) == 2) { big = r.range(2, 10); h = h * (ld)big; } ld nh = rows(h); if (f && nh > 2.2L) h = h * (2.2L / nh), nh = 2.2L; LM x = h; if (f) x = expm(h); for (ld& q : x.a) q = (T)(double)q; if (!f) h = x; bool damped = f == 0 && r.pick(8) == 7; if (damped) { double rate = std::pow(10.0, r.range(3, 17)); for (int i = 0; i < n; i++) h(i, i) -= rate * (2 + r.unit()); x = h; for (ld& q : x.a) q = (T)(double)q; r.probe("strongly damped exp"); }
			LM e = damped ? LM(n) : f ? x : expm(h), want = f == 0 ? e : f == 1 ? expm(h * 0.5L) : h; ld kappa = f ? rows(e) * rows(inv(e)) : 1; ld tol = damped ? 1e-30L : f == 0 ? 60 * n * E * (1 + nh) * expl(nh) : 300 * n * E * kappa * kappa; if (f && kappa * kappa * E > 1e-3L) continue;
			ld size = 1;
			if (f && r.pick(3) == 2) {        // far from the identity: sqrt(c x) = sqrt(c) sqrt(x), log(c x) = log(x) + log(c)
				int k = r.range(1, std::is_same<T, float>::value ? 5 : 18); if (r.pick(2)) k = -k; x = x * ldexpl(1, 2 * k);
				if (f == 1) { size = ldexpl(1, k); want = want * size; tol *= size; } else { for (int i = 0; i < n; i++) want(i, i) += 2 * k * logl(2); tol *= 1 + fabsl(2 * k); }
				r.probe("large_or_small_argument");
			}
			r.log("%s of %s %s", name[f], who.c_str(), show(x).c_str()); L got[2]; ScalarEnv::reset();
			for (int rep = 0; rep < 2; rep++) {
				uint64_t fa = rep ? 0 : r.pick_from(S_FAULT, 4); heap::reset_count(); if (fa == 2) heap::fail_at(1 + r.pick_from(S_FAULT, S < 0 ? 40 : 1)); ScalarEnv::reset(); bool planned = counted && fa == 3; uint64_t budget = 400000; ScalarEnv::throw_at = counted ? (planned ? 1 + r.pick_from(S_FAULT, 2000) : budget) : 0;
				heap::garbage(junk + rep); paint_stack(junk + 3 * rep); ScalarEnv::blank = rep ? -3.5 : 1e9; long live = ScalarEnv::live; bool ab = false, cut = false;
				try { ab = catch_abort([&] { heap::Armed a; got[rep] = call(f, x); }); } catch (std::bad_alloc&) { if (!heap::fired()) r.fail("wrong-exception", "bad_alloc without a failed allocation"); r.fault("alloc_fail"); cut = true; } catch (Interrupt&) { if (!planned) r.fail("no-progress", "%s of %s %s takes more than %llu operations", name[f], who.c_str(), show(x).c_str(), (unsigned long long)budget); r.fault("element_throws"); cut = true; }
				heap::fail_at(0); ScalarEnv::throw_at = 0; if (ab) r.fail("abort", "%s of %s aborts", name[f], who.c_str()); if (ScalarEnv::live != live) r.fail("leak", "%ld elements left after %s", ScalarEnv::live - live, name[f]); if (cut) { r.nontrivial(); got[rep].clear(); rep--; if (heap::live_blocks()) r.fail("leak", "%ld heap blocks left after %s", heap::live_blocks(), name[f]); continue; } r.steps(ScalarEnv::ops + 1);
			}
			if (!same(got[0], got[1])) r.fail("garbage", "%s of %s gives %s and then %s", name[f], who.c_str(), show(got[0]).c_str(), show(got[1]).c_str()); LM y(n); for (int i = 0; i < n * n; i++) y(i / n, i % n) = got[0][i]; for (double q : got[0]) r.hash_double(q);
			judge(r, who.c_str(), name[f], y, want, tol); if (f == 1) judge(r, who.c_str(), "square of sqrt", y * y, x, tol * 4 * size); r.cover(r.hash); r.probe(name[f]);
		}
	}
};
static void special(Run& r) {
	{ switch (r.pick(9)) { case 0: Special<3, double>(r).run(); break; case 1: Special<2, double>(r).run(); break; case 2: Special<4, double>(r).run(); break; case 3: Special<3, float>(r).run(); break; case 4: Functions<Dynamic, double>(r, r.range(1, 5)).run(); break; case 5: Functions<Dynamic, sim::Num>(r, r.range(1, 4)).run(); break; case 6: Functions<3, sim::Num>(r, 3).run(); break; case 7: Functions<2, double>(r, 2).run(); break; case 8: Functions<3, float>(r, 3).run(); break; } } finish(r);
}
static Register c23("C23", special, "sl.h, exp/sqrt/log of helpers.h, gaussian elimination, determinants and the matrices and streams beneath them", "heap (seeded failures and garbage), element type (counts operations, throws at a seeded one), text store, abort", "a run with a fault is one with a crash, a damaged read, a failed allocation or a throwing element");
#endif
