// C12..C16: decomposition objects that are kept, reused, copied, lost and restored.
//
// A run keeps a few objects of one decomposition class and drives them through decompositions of many kinds of matrix
// (regular, graded, rank-deficient, zero, repeated spectra, NaN) in every storage, queries, copies and assignments, with
// allocations failing and LAPACK failing to converge in between; the heap hands out seeded garbage. After every query the
// answer must be what a brand-new object gives (bit for bit) and must pass an independent long-double oracle.
#include "sim.h"
#include "wide.h"
#include <TooN/TooN.h>
#include <cstring>
#include <memory>
#include <algorithm>
using namespace sim; using namespace TooN;
using std::vector; using std::string;
typedef long double ld;

// ------------------------------------------------------------------------------------------------ LAPACK under control
static int lapack_fail = 0; static bool lapack_failed = false;      // the next decomposition call reports non-convergence
static bool lapack_fault(int lwork, int* info) { if (lwork == -1 || !lapack_fail) return false; lapack_fail = 0; lapack_failed = true; *info = 1; return true; }
template<class P> static void spoil(P* p, int n) { for (int i = 0; i < n; i++) p[i] = P(0.5 + i % 7); }
extern "C" {
#define GESVD(X, P) \
void __real_##X##gesvd_(const char*, const char*, int*, int*, P*, int*, P*, P*, int*, P*, int*, P*, int*, int*); \
void __wrap_##X##gesvd_(const char* ju, const char* jv, int* m, int* n, P* a, int* lda, P* s, P* u, int* ldu, P* vt, int* ldvt, P* w, int* lw, int* info) { \
	if (lapack_fault(*lw, info)) { spoil(a, *m * *n); spoil(s, std::min(*m, *n)); return; } __real_##X##gesvd_(ju, jv, m, n, a, lda, s, u, ldu, vt, ldvt, w, lw, info); }
#define SYEV(X, P) \
void __real_##X##syev_(const char*, const char*, int*, P*, int*, P*, P*, int*, int*); \
void __wrap_##X##syev_(const char* jz, const char* ul, int* n, P* a, int* lda, P* w, P* wk, int* lw, int* info) { \
	if (lapack_fault(*lw, info)) { spoil(a, *n * *n); spoil(w, *n); return; } __real_##X##syev_(jz, ul, n, a, lda, w, wk, lw, info); }
#if PART == 14
GESVD(d, double) GESVD(s, float)
#endif
#if PART == 16
SYEV(d, double) SYEV(s, float)
#endif
}

// ------------------------------------------------------------------------------------------------- reference mathematics
struct Mat { int R, C; vector<double> a; Mat(int r = 0, int c = 0) : R(r), C(c), a(r * c, 0.0) {} double& operator()(int i, int j) { return a[i * C + j]; } double operator()(int i, int j) const { return a[i * C + j]; } bool finite() const { for (double d : a) if (!std::isfinite(d)) return false; return true; } ld norm() const { ld m = 0; for (int i = 0; i < R; i++) { ld t = 0; for (int j = 0; j < C; j++) t += fabsl((*this)(i, j)); m = std::max(m, t); } return m; } };
struct LMat { int R, C; vector<ld> a; LMat(int r = 0, int c = 0) : R(r), C(c), a(r * c, 0.0L) {} LMat(const Mat& m) : R(m.R), C(m.C), a(m.a.begin(), m.a.end()) {} ld& operator()(int i, int j) { return a[i * C + j]; } ld operator()(int i, int j) const { return a[i * C + j]; }
	LMat T() const { LMat t(C, R); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) t(j, i) = (*this)(i, j); return t; }
	ld norm() const { ld m = 0; for (int i = 0; i < R; i++) { ld t = 0; for (int j = 0; j < C; j++) t += fabsl((*this)(i, j)); if (!(t <= m)) m = t; } return m; } };
static LMat operator*(const LMat& x, const LMat& y) { LMat z(x.R, y.C); for (int i = 0; i < x.R; i++) for (int j = 0; j < y.C; j++) { ld t = 0; for (int k = 0; k < x.C; k++) t += x(i, k) * y(k, j); z(i, j) = t; } return z; }
static LMat operator-(LMat x, const LMat& y) { for (size_t i = 0; i < x.a.size(); i++) x.a[i] -= y.a[i]; return x; }
static LMat eye(int n) { LMat m(n, n); for (int i = 0; i < n; i++) m(i, i) = 1; return m; }
// one-sided Jacobi: A (R >= C) = U diag(s) VT
static void jacobi_svd(LMat A, LMat& U, vector<ld>& s, LMat& V) {
	bool flip = A.R < A.C; if (flip) A = A.T(); int n = A.C; V = eye(n);
	for (int sweep = 0; sweep < 60; sweep++) { bool any = false;
		for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
			ld a = 0, b = 0, c = 0; for (int i = 0; i < A.R; i++) { a += A(i, p) * A(i, p); b += A(i, q) * A(i, q); c += A(i, p) * A(i, q); }
			if (fabsl(c) <= 1e-19L * sqrtl(a * b) || c == 0) continue; any = true;
			ld z = (b - a) / (2 * c), t = (z >= 0 ? 1 : -1) / (fabsl(z) + sqrtl(1 + z * z)), cs = 1 / sqrtl(1 + t * t), sn = cs * t;
			for (int i = 0; i < A.R; i++) { ld x = A(i, p), y = A(i, q); A(i, p) = cs * x - sn * y; A(i, q) = sn * x + cs * y; }
			for (int i = 0; i < n; i++) { ld x = V(i, p), y = V(i, q); V(i, p) = cs * x - sn * y; V(i, q) = sn * x + cs * y; }
		} if (!any) break; }
	vector<std::pair<ld, int>> o; for (int j = 0; j < n; j++) { ld t = 0; for (int i = 0; i < A.R; i++) t += A(i, j) * A(i, j); o.push_back({ -sqrtl(t), j }); }
	std::sort(o.begin(), o.end()); U = LMat(A.R, n); LMat W(n, n); s.assign(n, 0);
	for (int k = 0; k < n; k++) { s[k] = -o[k].first; for (int i = 0; i < A.R; i++) U(i, k) = s[k] > 0 ? A(i, o[k].second) / s[k] : 0; for (int i = 0; i < n; i++) W(i, k) = V(i, o[k].second); }
	V = W; if (flip) std::swap(U, V);
}
struct Spectrum { LMat U, V; vector<ld> s; Spectrum(const Mat& A) { jacobi_svd(LMat(A), U, s, V); }
	// the pseudo inverse that drops what is below s[0]/cond; false when that is a close call at this precision
	bool pinv(ld cond, ld eps, LMat& P, int& rank, ld& kappa) const {
		int k = (int)s.size(); rank = 0; kappa = 1; P = LMat(V.R, U.R); if (!(s[0] > 0)) return true;
		for (int i = 0; i < k; i++) { ld m = s[i] * cond; if (m > s[0] * 0.2L && m < s[0] * 5) return false; if (s[i] < 1000 * k * eps * s[0] && 5000 * k * eps * cond > 1) return false;
			if (m > s[0]) { rank++; kappa = s[0] / s[i]; for (int a = 0; a < V.R; a++) for (int b = 0; b < U.R; b++) P(a, b) += V(a, i) * U(b, i) / s[i]; } }
		return true; } };
static ld det_of(LMat A) { ld d = 1; int n = A.R; for (int c = 0; c < n; c++) { int p = c; for (int i = c + 1; i < n; i++) if (fabsl(A(i, c)) > fabsl(A(p, c))) p = i; if (A(p, c) == 0) return 0; if (p != c) { for (int j = 0; j < n; j++) std::swap(A(p, j), A(c, j)); d = -d; } d *= A(c, c); for (int i = c + 1; i < n; i++) { ld f = A(i, c) / A(c, c); for (int j = c; j < n; j++) A(i, j) -= f * A(c, j); } } return d; }
static ld row_product(const Mat& A) { ld p = 1; for (int i = 0; i < A.R; i++) { ld t = 0; for (int j = 0; j < A.C; j++) t += fabsl(A(i, j)); p *= t; } return p; }
template<class P> static bool out_of_range(const Mat& A) { ld p = row_product(A); return p > (sizeof(P) == 4 ? 1e36L : 1e300L); }     // determinants
template<class P> struct Eps { static ld v() { return 2.3e-16L; } static int span() { return 60; } };
template<> struct Eps<float> { static ld v() { return 1.2e-7L; } static int span() { return 8; } };

// ------------------------------------------------------------------------------------------------------ matrices to use
enum Kind { INTS, UNIT, SCALED, GRADED, DEFICIENT, ZERO, SPECIAL, REPEATED, TRIANGULAR, LOOSE, POISON, KINDS };
static const char* kind_name(int k) { static const char* n[] = { "integers", "reals", "scaled", "graded", "rank-deficient", "zero", "permutation-like", "repeated spectrum", "triangular", "loosely coupled", "not-finite" }; return n[k]; }
template<class P> static Mat random_matrix(Run& r, int R, int C, int kind) {
	Mat m(R, C); int sp = Eps<P>::span();
	switch (kind) {
		default: case INTS: for (double& d : m.a) d = r.small_int(4); break;
		case UNIT: for (double& d : m.a) d = r.unit(); break;
		case SCALED: { if (r.pick(4) == 0) sp *= 5; double s = std::ldexp(1.0, r.range(-sp, sp)); for (double& d : m.a) d = r.unit() * s; } break;
		case GRADED: for (int i = 0; i < R; i++) { double s = std::ldexp(1.0, -(int)r.pick(12) * (1 + std::min(i, 6))); for (int j = 0; j < C; j++) m(i, j) = r.unit() * s; } break;
		case DEFICIENT: { int k = r.range(0, std::max(0, std::min(R, C) - 1)); Mat a(R, k), b(k, C); for (double& d : a.a) d = r.small_int(3); for (double& d : b.a) d = r.small_int(3); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) for (int q = 0; q < k; q++) m(i, j) += a(i, q) * b(q, j); } break;
		case ZERO: break;
		case SPECIAL: { vector<int> p(C); for (int i = 0; i < C; i++) p[i] = i; for (int i = C - 1; i > 0; i--) std::swap(p[i], p[r.pick(i + 1)]); for (int i = 0; i < R && i < C; i++) m(i, p[i]) = 1 + r.small_int(2); } break;
		case REPEATED: { for (int i = 0; i < R && i < C; i++) m(i, i) = 1 + (int)r.pick(2); for (int t = 0; t < 3; t++) { int a = (int)r.pick(R), b = (int)r.pick(R); if (a == b) continue; double c = 0.6, s = 0.8; for (int j = 0; j < C; j++) { double x = m(a, j), y = m(b, j); m(a, j) = c * x - s * y; m(b, j) = s * x + c * y; } } } break;
		case TRIANGULAR: { bool up = r.pick(2); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) if (up ? j >= i : j <= i) m(i, j) = r.small_int(3) + (i == j ? 4 : 0); } break;
		case LOOSE: for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) m(i, j) = (i == j ? r.unit() : 0.5 + r.unit() / 2) * std::ldexp(1.0, i == j ? 0 : -(int)r.pick(sizeof(P) == 4 ? 24 : 60)); break;      // elements of very different sizes, so that rounding errors of some are as large as others
		case POISON: for (double& d : m.a) d = r.small_int(4); if (!m.a.empty()) m.a[r.pick(m.a.size())] = r.pick(3) == 2 ? INFINITY : NAN; break;
	}
	for (double& d : m.a) d = (double)(P)d;
	return m;
}
template<class P> static void symmetrise(Mat& m) { for (int i = 0; i < m.R; i++) for (int j = 0; j < i; j++) m(i, j) = m(j, i); }
static string show(const Mat& m) { string s = "["; for (int i = 0; i < m.R; i++) { for (int j = 0; j < m.C; j++) s += fmt("%s%.17g", j ? " " : "", m(i, j)); if (i + 1 < m.R) s += "; "; } return s + "]"; }

// hands f the matrix in one of several storages
template<int R, int C, class P, class F> static void with_matrix(const Mat& A, int form, const F& f) {
	auto put = [&](auto&& m) { for (int i = 0; i < A.R; i++) for (int j = 0; j < A.C; j++) m(i, j) = P(A(i, j)); };
	switch (form % 4) {
		case 0: { Matrix<R, C, P> m(A.R, A.C); put(m); f(m); } break;
		case 1: { Matrix<R, C, P, ColMajor> m(A.R, A.C); put(m); f(m); } break;
		case 2: { Matrix<C, R, P> m(A.C, A.R); put(m.T()); f(m.T()); } break;
		case 3: { Matrix<Dynamic, Dynamic, P> m(A.R + 2, A.C + 3); for (int i = 0; i < A.R + 2; i++) for (int j = 0; j < A.C + 3; j++) m(i, j) = 77; auto s = m.template slice<1, 2, R, C>(1, 2, A.R, A.C); put(s); f(s); } break;
	}
}
template<int N, class P, class F> static void with_vector(const Mat& b, int form, const F& f) {
	switch (form % 3) {
		case 0: { Vector<N, P> v(b.R); for (int i = 0; i < b.R; i++) v[i] = P(b(i, 0)); f(v); } break;
		case 1: { Vector<Dynamic, P> v(b.R); for (int i = 0; i < b.R; i++) v[i] = P(b(i, 0)); f(v); } break;
		case 2: { Matrix<Dynamic, Dynamic, P> m(b.R, 3); for (int i = 0; i < b.R; i++) { m(i, 0) = 77; m(i, 1) = P(b(i, 0)); m(i, 2) = 77; } f(m.T()[1]); } break;
	}
}
template<class M> static void flat(vector<double>& o, const M& m) { for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) o.push_back((double)m(i, j)); }
template<class V> static void flatv(vector<double>& o, const V& v) { for (int i = 0; i < v.size(); i++) o.push_back((double)v[i]); }
static LMat take(const vector<double>& v, size_t& at, int R, int C) { LMat m(R, C); for (int i = 0; i < R * C; i++) m.a[i] = v.at(at + i); at += R * C; return m; }
template<int N> using Int = std::integral_constant<int, N>;

// ---------------------------------------------------------------------------------------------------------- the histories
// run-time sizes are small, and now and then larger than anything there might be fixed space for
static int large = 0;
template<int S> static int size_of(Run& r, int lo, int hi) { return S >= 0 ? S : large ? r.range(std::max(lo, hi), std::max(lo, large)) : r.range(lo, std::max(lo, hi)); }
struct Large { Run& r; bool on; Large(Run& r_) : r(r_), on(r_.pick(60) == 59) { again(); } void again() { large = on && r.pick(2) ? (r.pick(4) == 3 ? 48 : 20) : 0; } ~Large() { large = 0; } };
template<class A> struct Hist {
	typedef typename A::Obj Obj;
	struct Slot { std::unique_ptr<Obj> o; Mat m; int form; bool ok; };
	Run& r; int R, C; vector<Slot> s, saved; uint64_t junk;
	Hist(Run& r_) : r(r_) { Large g(r); R = A::rows(r); g.again(); C = A::cols(r, R); if (R > 7 || C > 7) r.probe("large"); }
	[[noreturn]] void bad(const Slot& t, const char* cls, const string& what) { r.fail(cls, "%s: %s, of %s", A::name(), what.c_str(), show(t.m).c_str()); }
	// runs f with the planned faults; false: f was cut short
	bool attempt(const char* op, Slot& t, const std::function<void()>& f, bool lapack) {
		uint64_t fa = r.pick_from(S_FAULT, 6); heap::reset_count(); bool cut = false; lapack_failed = false;
		if (fa == 4) heap::fail_at(1 + r.pick_from(S_FAULT, 4)); if (fa == 5 && lapack) lapack_fail = 1;
		paint_stack(junk);
		try { heap::Armed a; f(); } catch (std::bad_alloc&) { cut = true; if (!heap::fired()) bad(t, "wrong-exception", string("bad_alloc from ") + op); r.fault("alloc_fail"); }
		catch (...) { heap::fail_at(0); lapack_fail = 0; if (t.m.finite() || lapack_failed) bad(t, "wrong-exception", string("exception from ") + op); throw; }
		heap::fail_at(0); lapack_fail = 0; if (lapack_failed) { cut = true; r.fault("lapack_does_not_converge"); }
		r.steps(1); r.log("%s%s", op, cut ? " fails" : ""); return !cut;
	}
	void step() {
		size_t k = r.pick(s.size()); Slot& t = s[k];
		switch (r.pick(10)) {
			case 0: case 1: case 2: {   // another matrix
				int kind = (int)r.pick(KINDS), form = (int)r.pick(4); Mat m = A::gen(r, R, C, kind); r.log("slot %zu: %s %s", k, kind_name(kind), show(m).c_str());
				t.m = m; t.form = form; bool reuse = t.o && A::can_compute && r.pick(4); if (!reuse) t.o.reset();
				try { t.ok = attempt("decompose", t, [&] { if (reuse) A::compute(*t.o, m, form); else A::make(t.o, m, form); }, true); } catch (sim::Violation&) { throw; } catch (...) { t.ok = false; t.o.reset(); r.probe("not_finite_rejected"); }
				if (reuse) { r.nontrivial(); r.probe("reused"); }
				if (kind == POISON) t.ok = false;      // nothing is promised about the values; only what follows matters
				if (t.ok) { r.probe((string("kind ") + kind_name(kind)).c_str()); r.cover(mix64(kind) ^ mix64(R * 16 + C)); uint64_t h = 0; for (double d : m.a) { uint64_t b; memcpy(&b, &d, 8); h = mix64(h ^ b); } r.cover(h); }
			} break;
			case 3: saved[k].m = t.m; saved[k].form = t.form; saved[k].ok = t.ok; { heap::Paused p; saved[k].o.reset(t.o ? new Obj(*t.o) : 0); } r.log("slot %zu: copied", k); break;
			case 4: {   // the object is lost; its copy takes over
				Slot& v = saved[k]; if (!v.ok) break; r.fault("object_lost_and_restored"); r.nontrivial(); heap::Paused p;
				if (t.o && r.pick(2)) A::assign(*t.o, *v.o); else t.o.reset(new Obj(*v.o)); t.m = v.m; t.form = v.form; t.ok = true; r.log("slot %zu: restored", k);
			} break;
			default: query(t);
		}
	}
	void query(Slot& t) {
		if (!t.ok) return;
		int q = (int)r.pick(A::queries); if (!A::may(t.m, q)) return; int form = (int)r.pick(12); Mat arg; { int ar, ac; A::shape(R, C, q, form, ar, ac); arg = random_matrix<typename A::P>(r, ar, ac, r.pick(2) ? INTS : UNIT); }
		vector<double> out; Obj& o = *t.o;
		if (!attempt(fmt("query %d", q).c_str(), t, [&] { vector<double> v; v.reserve(400); A::ask(o, q, arg, form, v); heap::Paused p; out = v; }, false)) { r.probe("query_cut_short"); out.clear(); { heap::Paused p; A::ask(o, q, arg, form, out); } }
		for (double d : out) r.hash_double(d);
		heap::Paused p;
		vector<double> again; A::ask(o, q, arg, form, again); same(t, q, out, again, "asking again");
		{   // an object that has seen nothing else
			heap::garbage(mix64(junk + 1)); paint_stack(mix64(junk + 2)); std::unique_ptr<Obj> f; A::make(f, t.m, t.form); vector<double> v; A::ask(*f, q, arg, form, v); heap::garbage(junk); same(t, q, out, v, "a new object");
		}
		string e = A::judge(t.m, q, arg, form, out); if (!e.empty()) bad(t, "wrong-answer", e);
		r.probe(fmt("query %d", q).c_str());
	}
	void same(const Slot& t, int q, const vector<double>& a, const vector<double>& b, const char* who) {
		if (a.size() != b.size()) bad(t, "depends-on-history", fmt("query %d has %zu values, %s gives %zu", q, a.size(), who, b.size()));
		for (size_t i = 0; i < a.size(); i++) if (!same_bits(a[i], b[i]) && !(a[i] == 0 && b[i] == 0)) bad(t, "depends-on-history", fmt("query %d gives %.17g, %s %.17g", q, a[i], who, b[i]));
	}
	void run() {
		junk = mix64(r.pick_from(S_FAULT, 1000)); heap::garbage(junk);
		int n = r.range(1, 3); s.resize(n); saved.resize(n); for (int i = 0; i < n; i++) s[i].ok = saved[i].ok = false;
		r.set_ops(r.range(4, 25)); while (r.next_op()) step();
		heap::garbage(0);
	}
};
template<class A> static void hist(Run& r) { Hist<A> h(r); h.run(); }
static void finish(Run& r) { if (heap::live_blocks()) r.fail("leak", "%ld heap blocks left", heap::live_blocks()); if (heap::misuse) r.fail("heap-misuse", "%s", heap::misuse); }
static void start() { heap::begin_epoch(); lapack_fail = 0; }

#if PART == 12
// -------------------------------------------------------------------------------------------------------- C12: Cholesky
#include <TooN/Cholesky.h>
#include <TooN/Lapack_Cholesky.h>
// positive definite, or (exact) semidefinite
template<class P> static Mat spd(Run& r, int n, int kind, bool semi) {
	if (kind == POISON) { Mat m = random_matrix<P>(r, n, n, POISON); symmetrise<P>(m); return m; }
	if (semi && (kind == DEFICIENT || kind == ZERO || kind == REPEATED)) {   // L D L^T, everything exact
		Mat L(n, n); vector<double> d(n); for (int i = 0; i < n; i++) { L(i, i) = 1; for (int j = 0; j < i; j++) L(i, j) = r.small_int(2); d[i] = kind == ZERO ? 0 : r.pick(2) ? std::ldexp(1.0, (int)r.pick(3)) : 0; }
		Mat m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) m(i, j) += L(i, k) * d[k] * L(j, k); return m; }
	Mat b = random_matrix<P>(r, n, n, kind == SPECIAL || kind == TRIANGULAR ? kind : kind == GRADED ? UNIT : INTS), m(n, n);
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { for (int k = 0; k < n; k++) m(i, j) += b(i, k) * b(j, k); if (i == j) m(i, j) += 1 + (kind == UNIT ? 0.5 : 0); }
	double s = kind == SCALED ? std::ldexp(1.0, r.range(-Eps<P>::span(), Eps<P>::span())) : 1; vector<double> g(n, 1); if (kind == GRADED) for (double& x : g) x = std::ldexp(1.0, -(int)r.pick(8));
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = (double)(P)(m(i, j) * s * g[i] * g[j]);
	for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) m(j, i) = m(i, j);
	return m;
}
template<class O, int N, class P_, bool Lap> struct Chol {
	typedef O Obj; typedef P_ P; static const bool can_compute = true; static const int queries = 8;
	static const char* name() { return Lap ? (N < 0 ? "Lapack_Cholesky<>" : "Lapack_Cholesky<N>") : (N < 0 ? "Cholesky<>" : "Cholesky<N>"); }
	static int rows(Run& r) { return size_of<N>(r, 1, 6); } static int cols(Run&, int R) { return R; }
	static Mat gen(Run& r, int n, int, int kind) { return spd<P>(r, n, kind, true); }
	static void make(std::unique_ptr<O>& o, const Mat& m, int f) { with_matrix<N, N, P>(m, f, [&](const auto& x) { o.reset(new O(x)); }); }
	static void compute(O& o, const Mat& m, int f) { with_matrix<N, N, P>(m, f, [&](const auto& x) { o.compute(x); }); }
	static void assign(O& a, const O& b) { a = b; }
	static void shape(int n, int, int q, int form, int& R, int& C) { R = n; C = q == 1 ? 1 + form % 3 : 1; }
	static bool may(const Mat& m, int q) { return !(Lap && q != 4 && det_pivot(m) < m.R); }
	static int det_pivot(const Mat& A) { LMat x(A); int k = 0; for (int c = 0; c < A.R; c++) { if (x(c, c) == 0) continue; k++; for (int i = c + 1; i < A.R; i++) { ld f = x(i, c) / x(c, c); for (int j = c; j < A.R; j++) x(i, j) -= f * x(c, j); } } return k; }
	template<class O2> static void factors(O2& o, vector<double>& v, std::true_type) { flat(v, o.get_L()); }
	template<class O2> static void factors(O2& o, vector<double>& v, std::false_type) { flat(v, o.get_L()); flat(v, o.get_unscaled_L()); flat(v, o.get_D()); }
	static void ask(O& o, int q, const Mat& a, int form, vector<double>& v) {
		switch (q) {
			case 0: with_vector<N, P>(a, form, [&](const auto& x) { flatv(v, o.backsub(x)); }); break;
			case 1: if (a.C == 2) with_matrix<N, 2, P>(a, form, [&](const auto& x) { flat(v, o.backsub(x)); }); else with_matrix<N, Dynamic, P>(a, form, [&](const auto& x) { flat(v, o.backsub(x)); }); break;
			case 2: flat(v, o.get_inverse()); break;
			case 3: v.push_back((double)o.determinant()); break;
			case 4: v.push_back(o.rank()); break;
			case 5: factors(o, v, std::integral_constant<bool, Lap>()); break;
			case 6: with_vector<N, P>(a, form, [&](const auto& x) { v.push_back((double)o.mahalanobis(x)); }); break;
			case 7: { const O& c = o; Vector<N, P> b(a.R); for (int i = 0; i < a.R; i++) b[i] = P(a(i, 0)); flatv(v, c.backsub(b)); } break;
		}
	}
	static string judge(const Mat& A, int q, const Mat& arg, int, const vector<double>& out) {
		int n = A.R; ld e = Eps<P>::v() * 60 * n * n, nA = A.norm(); int rk = det_pivot(A); bool full = rk == n; size_t at = 0;
		if (q == 4) { int g = (int)out[0]; bool nonpos = false; for (int i = 0; i < n; i++) nonpos = nonpos || A(i, i) <= 0; if (Lap ? (full && g != n) || (nonpos && g >= n) || g < 0 || g > n : g != rk) return fmt("rank is %d, not %d", g, rk); return ""; }
		if (q == 3) { if ((Lap && !full) || out_of_range<P>(A)) return ""; ld d = det_of(LMat(A)); if (!full) d = 0; if (!(fabsl(out[0] - d) <= e * row_product(A) + 1e-290L)) return fmt("determinant is %.17g, not %.17Lg", out[0], d); return ""; }
		if (q == 5) {
			if (Lap && !full) return ""; LMat L = take(out, at, n, n); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (L(i, j) != 0) return "L is not lower triangular";
			for (int i = 0; i < n; i++) if (!(L(i, i) >= 0)) return "L has a negative diagonal";
			if (!((L * L.T() - LMat(A)).norm() <= e * nA)) return fmt("L L^T is off by %.6Lg", (L * L.T() - LMat(A)).norm());
			if (!Lap) { LMat U = take(out, at, n, n), D = take(out, at, n, n); for (int i = 0; i < n; i++) { if (U(i, i) != 1) return "unscaled L has not a unit diagonal"; for (int j = 0; j < n; j++) if ((j > i && U(i, j) != 0) || (i != j && D(i, j) != 0)) return "unscaled L or D is not triangular or diagonal"; } if (!((U * D * U.T() - LMat(A)).norm() <= e * nA)) return fmt("L D L^T is off by %.6Lg", (U * D * U.T() - LMat(A)).norm()); }
			return ""; }
		if (!full) return "";      // the inverse of a singular matrix
		if (q == 2) { LMat X = take(out, at, n, n); if (!((LMat(A) * X - eye(n)).norm() <= e * nA * X.norm())) return fmt("A times the inverse is off by %.6Lg", (LMat(A) * X - eye(n)).norm()); return ""; }
		if (q == 6) { Mat b = arg; LMat x = solve(A, b); ld w = 0, aw = 0, nb = 0, nx = 0; for (int i = 0; i < n; i++) { w += b(i, 0) * x(i, 0); nb += fabsl(b(i, 0)); nx += fabsl(x(i, 0)); aw += fabsl(b(i, 0) * x(i, 0)); } Spectrum sp(A); ld k = sp.s[0] / sp.s.back(); if (!(fabsl(out[0] - w) <= e * k * nb * nx + e * aw)) return fmt("mahalanobis is %.17g, not %.17Lg", out[0], w); return ""; }
		LMat X = take(out, at, n, arg.C), r = LMat(A) * X - LMat(arg); if (!(r.norm() <= e * nA * X.norm() + e * LMat(arg).norm())) return fmt("backsub leaves a residual of %.6Lg", r.norm()); return "";
	}
	static LMat solve(const Mat& A, const Mat& b) { LMat x(A), y(b); int n = A.R; for (int c = 0; c < n; c++) { int p = c; for (int i = c + 1; i < n; i++) if (fabsl(x(i, c)) > fabsl(x(p, c))) p = i; for (int j = 0; j < n; j++) std::swap(x(p, j), x(c, j)); for (int j = 0; j < y.C; j++) std::swap(y(p, j), y(c, j)); for (int i = 0; i < n; i++) if (i != c) { ld f = x(i, c) / x(c, c); for (int j = c; j < n; j++) x(i, j) -= f * x(c, j); for (int j = 0; j < y.C; j++) y(i, j) -= f * y(c, j); } } for (int i = 0; i < n; i++) for (int j = 0; j < y.C; j++) y(i, j) /= x(i, i); return y; }
};
template<int N> static void wide_cholesky(Run& r) {
	using namespace wide; r.set_ops(r.range(1, 6)); string who = fmt("Cholesky<%d, long double>", N);
	while (r.next_op()) {
		int n = N < 0 ? r.extent(1, 6, 24) : N, cols = r.range(1, 3), how = r.pick(4); Numbers g(r.pick(1 << 30)); Matrix<N, N, W> a(n, n); Matrix<N, Dynamic, W> b(n, cols), x(n, cols); Vector<N, W> v(n);
		for (int i = 0; i < n; i++) { for (int j = 0; j <= i; j++) a(i, j) = a(j, i) = g(); for (int c = 0; c < cols; c++) b(i, c) = g(); } for (int i = 0; i < n; i++) a(i, i) = n + fabsl(a(i, i));
		r.log("%s, way %d, %d by %d", who.c_str(), how, n, n); paint_stack(g.g.next()); Cholesky<N, W> ch(a);
		if (how == 0) { for (int i = 0; i < n; i++) v[i] = b(i, 0); Vector<N, W> y = ch.backsub(v); for (int i = 0; i < n; i++) x(i, 0) = y[i]; residual(r, "Cholesky::backsub of a vector", a, n, x, b, 1); }
		else if (how == 1) { x = ch.backsub(b); residual(r, "Cholesky::backsub of a matrix", a, n, x, b, cols); }
		else if (how == 2) { Matrix<N, N, W> i = ch.get_inverse(), one = Identity(n); residual(r, "Cholesky::get_inverse", a, n, i, one, n); }
		else { for (int i = 0; i < n; i++) v[i] = b(i, 0); Q want = 0, size = 0; Vector<N, W> y = ch.backsub(v); for (int i = 0; i < n; i++) want += (Q)v[i] * (Q)y[i], size += mag((Q)v[i] * (Q)y[i]); W got = ch.mahalanobis(v); if (!(mag((Q)got - want) <= size * (Q)LDBL_EPSILON * 100 * n)) r.fail("wrong-answer", "Cholesky::mahalanobis of %d long doubles is off by %g", n, (double)mag((Q)got - want)); r.hash_double((double)got); }
		r.cover(r.hash); r.probe("long double"); r.nontrivial();
	}
}
static void c12(Run& r) {
	start();
	switch (r.pick(10)) {
		case 8: wide_cholesky<Dynamic>(r); break;
		case 9: wide_cholesky<4>(r); break;
		case 0: hist<Chol<Cholesky<>, -1, double, false>>(r); break;
		case 1: hist<Chol<Cholesky<3>, 3, double, false>>(r); break;
		case 2: hist<Chol<Cholesky<Dynamic, float>, -1, float, false>>(r); break;
		case 3: hist<Chol<Lapack_Cholesky<Dynamic>, -1, double, true>>(r); break;
		case 4: hist<Chol<Lapack_Cholesky<4>, 4, double, true>>(r); break;
		case 5: hist<Chol<Lapack_Cholesky<Dynamic, float>, -1, float, true>>(r); break;
		case 6: hist<Chol<Cholesky<5, float>, 5, float, false>>(r); break;
		default: hist<Chol<Cholesky<2>, 2, double, false>>(r);
	}
	finish(r);
}
static Register R12("C12", c12, "Cholesky, Lapack_Cholesky; system LAPACK", "global operator new (failures, garbage)", "an object was reused or restored from a copy");
#endif

#if PART == 13
// ------------------------------------------------------------------------------ C13: LU, elimination and determinants
#include <TooN/LU.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/gauss_jordan.h>
#include <TooN/determinant.h>
static bool regular(const Mat& A, ld eps) { Spectrum s(A); return s.s[0] > 0 && s.s.back() > s.s[0] * 200 * A.R * A.R * eps; }
static bool zero_line(const Mat& A) { for (int i = 0; i < A.R; i++) { bool zr = true, zc = true; for (int j = 0; j < A.R; j++) { zr = zr && A(i, j) == 0; zc = zc && A(j, i) == 0; } if (zr || zc) return true; } return false; }
template<class P> static string judge_solution(const Mat& A, const LMat& X, const LMat& B, ld slack) {
	int n = A.R; ld e = Eps<P>::v() * 100 * n * n * n * slack, nx = X.norm(); LMat r = LMat(A) * X - B;
	for (ld d : X.a) if (!std::isfinite((double)d)) return "the solution of a regular system is not finite";
	if (!(r.norm() <= e * (A.norm() * nx + B.norm()))) return fmt("the solution leaves a residual of %.6Lg (matrix %.3Lg, solution %.3Lg)", r.norm(), A.norm(), nx); return "";
}
template<class P> static string judge_det(const Mat& A, double got) {
	ld d = det_of(LMat(A)), scale = std::min(row_product(A), powl(A.norm(), A.R)); { Mat T(A.C, A.R); for (int i = 0; i < A.R; i++) for (int j = 0; j < A.C; j++) T(j, i) = A(i, j); scale = std::max(scale, row_product(T)); }
	ld big = std::is_same<P, float>::value ? 1e34L : 1e300L, small = std::is_same<P, float>::value ? 1e-34L : 1e-300L; if (scale > big || (scale != 0 && scale < small)) return "";
	if (zero_line(A) && got != 0) return fmt("the determinant of a matrix with a zero row or column is %.17g", got);
	if (!(fabsl(got - d) <= Eps<P>::v() * 200 * A.R * A.R * scale)) return fmt("determinant is %.17g, not %.17Lg", got, d); return "";
}
template<int N, class P_> struct ALU {
	typedef P_ P; typedef LU<N, P> Obj; static const bool can_compute = true; static const int queries = 8;
	static const char* name() { return N < 0 ? "LU<>" : "LU<N>"; }
	static int rows(Run& r) { return size_of<N>(r, 1, 6); } static int cols(Run&, int R) { return R; }
	static Mat gen(Run& r, int n, int, int kind) { return random_matrix<P>(r, n, n, kind); }
	static void make(std::unique_ptr<Obj>& o, const Mat& m, int f) { with_matrix<N, N, P>(m, f, [&](const auto& x) { o.reset(new Obj(x)); }); }
	static void compute(Obj& o, const Mat& m, int f) { with_matrix<N, N, P>(m, f, [&](const auto& x) { o.compute(x); }); }
	static void assign(Obj& a, const Obj& b) { a = b; }
	static bool may(const Mat&, int) { return true; }
	static void shape(int n, int, int q, int form, int& R, int& C) { R = n; C = q == 1 || q == 2 ? 1 + form % 3 : 1; }
	static void ask(Obj& o, int q, const Mat& a, int form, vector<double>& v) {
		switch (q) {
			case 0: with_vector<N, P>(a, form, [&](const auto& x) { flatv(v, o.backsub(x)); }); break;
			case 1: if (a.C == 2) with_matrix<N, 2, P>(a, form, [&](const auto& x) { flat(v, o.backsub(x)); }); else if (a.C == 3) with_matrix<N, 3, P>(a, form, [&](const auto& x) { flat(v, o.backsub(x)); }); else with_matrix<N, 1, P>(a, form, [&](const auto& x) { flat(v, o.backsub(x)); }); break;
			case 2: with_matrix<N, Dynamic, P>(a, form, [&](const auto& x) { flat(v, o.backsub(x)); }); break;
			case 3: flat(v, o.get_inverse()); break;
			case 4: v.push_back((double)o.determinant()); break;
			case 5: v.push_back(o.get_info()); break;
			case 6: flat(v, o.get_lu()); break;
			case 7: with_matrix<Dynamic, Dynamic, P>(a, form, [&](const auto& x) { flat(v, o.backsub(x)); }); break;
		}
	}
	static string judge(const Mat& A, int q, const Mat& arg, int, const vector<double>& out) {
		int n = A.R; size_t at = 0;
		if (q == 4) return judge_det<P>(A, out[0]);
		if (q == 5) { if (zero_line(A) && out[0] <= 0) return fmt("info is %g for a matrix with a zero row or column", out[0]); if (regular(A, Eps<P>::v()) && out[0] != 0) return fmt("info is %g for a regular matrix", out[0]); return ""; }
		if (q == 6) {   // the factors, conflated: their product is the matrix with its columns permuted
			LMat F = take(out, at, n, n), L(n, n), U = eye(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) (j <= i ? L : U)(i, j) = F(i, j); LMat Z = L * U; vector<bool> used(n, false); ld e = Eps<P>::v() * 100 * n * n * A.norm();
			for (int j = 0; j < n; j++) { int best = -1; ld bd = 0; for (int k = 0; k < n; k++) if (!used[k]) { ld d = 0; for (int i = 0; i < n; i++) d += fabsl(Z(i, j) - A(i, k)); if (best < 0 || d < bd) { best = k; bd = d; } } used[best] = true; if (!(bd <= e * n)) return fmt("the product of the factors has a column that is no column of the matrix (off by %.6Lg)", bd); }
			return ""; }
		if (!regular(A, Eps<P>::v())) return "";
		if (q == 3) { LMat X = take(out, at, n, n); return judge_solution<P>(A, X, eye(n), 4); }
		return judge_solution<P>(A, take(out, at, n, arg.C), LMat(arg), 1);
	}
};
// the function templates, behind an object that only keeps the matrix
template<int N, class P_> struct AElim {
	typedef P_ P; struct Obj { Matrix<N, N, P> m; int form; Obj(const Mat& a, int f) : m(a.R, a.C), form(f) { for (int i = 0; i < a.R; i++) for (int j = 0; j < a.C; j++) m(i, j) = P(a(i, j)); } };
	static const bool can_compute = false; static const int queries = 7;
	static const char* name() { return N < 0 ? "elimination of run-time size" : "elimination of static size"; }
	static int rows(Run& r) { return size_of<N>(r, 1, 6); } static int cols(Run&, int R) { return R; }
	static Mat gen(Run& r, int n, int, int kind) { return random_matrix<P>(r, n, n, kind); }
	static void make(std::unique_ptr<Obj>& o, const Mat& m, int f) { o.reset(new Obj(m, f)); }
	static void compute(Obj&, const Mat&, int) {}
	static void assign(Obj& a, const Obj& b) { a.m = b.m; a.form = b.form; }
	static bool may(const Mat&, int) { return true; }
	static void shape(int n, int, int q, int form, int& R, int& C) { R = n; C = q == 1 || q == 2 ? 1 + form % 3 : 1; }
	template<class M> static void jordan(M& w, const Obj& o, const Mat& a, vector<double>& v) { int n = o.m.num_rows(); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) w(i, j) = o.m(i, j); for (int j = 0; j < a.C; j++) w(i, n + j) = P(a(i, j)); } gauss_jordan(w); flat(v, w); }
	static void ask(Obj& o, int q, const Mat& a, int form, vector<double>& v) {
		int n = o.m.num_rows(); Mat A(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = (double)o.m(i, j);
		switch (q) {
			case 0: { Vector<N, P> b(n); for (int i = 0; i < n; i++) b[i] = P(a(i, 0)); flatv(v, gaussian_elimination(o.m, b)); } break;
			case 1: { Matrix<N, Dynamic, P> b(n, a.C); for (int i = 0; i < n; i++) for (int j = 0; j < a.C; j++) b(i, j) = P(a(i, j)); flat(v, gaussian_elimination(o.m, b)); } break;
			case 2: if (form % 2) { Matrix<Dynamic, Dynamic, P> w(n, n + a.C); jordan(w, o, a, v); } else { Matrix<Dynamic, Dynamic, P, ColMajor> w(n, n + a.C); jordan(w, o, a, v); } break;
			case 3: with_matrix<N, N, P>(A, form, [&](const auto& x) { v.push_back((double)determinant(x)); }); break;
			case 4: with_matrix<N, N, P>(A, form, [&](const auto& x) { v.push_back((double)determinant_gaussian_elimination(x)); }); break;
			case 5: with_matrix<N, N, P>(A, form, [&](const auto& x) { v.push_back((double)determinant_LU(x)); }); break;
			case 6: with_matrix<Dynamic, N, P>(A, form, [&](const auto& x) { v.push_back((double)determinant(x)); }); break;
		}
	}
	static string judge(const Mat& A, int q, const Mat& arg, int, const vector<double>& out) {
		int n = A.R; if (q >= 3) return judge_det<P>(A, out[0]);
		if (!regular(A, Eps<P>::v())) return ""; size_t at = 0;
		if (q == 2) { LMat W = take(out, at, n, n + arg.C), X(n, arg.C); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) if (W(i, j) != (i == j)) return "Gauss-Jordan does not leave the identity"; for (int j = 0; j < arg.C; j++) X(i, j) = W(i, n + j); } Spectrum s(A); return judge_solution<P>(A, X, LMat(arg), std::min<ld>(s.s[0] / s.s.back(), 1e6L)); }
		return judge_solution<P>(A, take(out, at, n, arg.C), LMat(arg), 1);
	}
};
template<int N> static void wide_elimination(Run& r) {
	using namespace wide; static const char* name[] = { "gaussian_elimination of a vector", "gaussian_elimination of a matrix", "gauss_jordan" }; r.set_ops(r.range(1, 6)); string who = N < 0 ? "run-time size" : "static size";
	while (r.next_op()) {
		int n = N < 0 ? r.extent(1, 6, 24) : N, cols = r.range(1, 3), how = r.pick(3); Numbers g(r.pick(1 << 30)); Matrix<N, N, W> a(n, n); Matrix<N, Dynamic, W> b(n, cols), x(n, cols); Vector<N, W> v(n);
		for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) a(i, j) = g(); for (int c = 0; c < cols; c++) b(i, c) = g(); } int shift = r.range(0, n - 1); for (int i = 0; i < n; i++) a(i, (i + shift) % n) += 2 * n;   // regular, the pivots are off the diagonal
		r.log("%s, %s %d", name[how], who.c_str(), n); paint_stack(g.g.next());
		if (how == 0) { for (int i = 0; i < n; i++) v[i] = b(i, 0); Vector<N, W> y = gaussian_elimination(a, v); for (int i = 0; i < n; i++) x(i, 0) = y[i]; cols = 1; }
		else if (how == 1) x = gaussian_elimination(a, b);
		else { Matrix<Dynamic, Dynamic, W> w(n, n + cols); w.slice(0, 0, n, n) = a; w.slice(0, n, n, cols) = b; gauss_jordan(w); x = w.slice(0, n, n, cols); }
		residual(r, name[how], a, n, x, b, cols); r.cover(r.hash); r.probe("long double"); r.nontrivial();
	}
}
static void c13(Run& r) {
	start();
	switch (r.pick(12)) {
		case 10: wide_elimination<Dynamic>(r); break;
		case 11: wide_elimination<4>(r); break;
		case 0: hist<ALU<-1, double>>(r); break;
		case 1: hist<ALU<3, double>>(r); break;
		case 2: hist<ALU<-1, float>>(r); break;
		case 3: hist<ALU<4, float>>(r); break;
		case 4: hist<ALU<5, double>>(r); break;
		case 5: hist<AElim<-1, double>>(r); break;
		case 6: hist<AElim<3, double>>(r); break;
		case 7: hist<AElim<2, double>>(r); break;
		case 8: hist<AElim<-1, float>>(r); break;
		default: hist<AElim<5, double>>(r);
	}
	finish(r);
}
static Register R13("C13", c13, "LU, gaussian_elimination, gauss_jordan, determinant; system LAPACK", "global operator new (failures, garbage)", "an object was reused or restored from a copy");
#endif

#if PART == 14
// ----------------------------------------------------------------------------------------------------------- C14: SVD
#include <TooN/SVD.h>
#include <TooN/GR_SVD.h>
static ld orth_error(const LMat& M) { return (M.T() * M - eye(M.C)).norm(); }
static const ld conds[] = { 1e9L, 1e3L, 50, 1e5L };
template<class P> struct Pseudo {      // answers about the pseudo-inverse, against the reference
	static string solve(const Mat& A, const LMat& X, const LMat& B, ld cond, const char* what) {
		Spectrum s(A); LMat I; int rank; ld kappa; ld e = Eps<P>::v() * 100 * (A.R + A.C) * (A.R + A.C); if (!s.pinv(cond, Eps<P>::v(), I, rank, kappa)) return "";
		LMat Z = I * B, d = X - Z; ld lim = e * kappa * (kappa * LMat(I).norm() * B.norm()) + e * Z.norm(); if (kappa * kappa * e > 0.1L) return "";
		if (!(d.norm() <= lim)) return fmt("%s is off by %.6Lg (condition %.3Lg, kappa %.3Lg)", what, d.norm(), cond, kappa); return "";
	}
	static string rank(const Mat& A, int got, ld cond) { Spectrum s(A); LMat I; int rank; ld kappa; if (!s.pinv(cond, Eps<P>::v(), I, rank, kappa)) return ""; if (rank != got) return fmt("rank is %d, not %d (condition %.3Lg)", got, rank, cond); return ""; }
};
template<class O, int M, int N, class P_> struct ASVD {
	typedef O Obj; typedef P_ P; static const bool can_compute = true; static const int queries = 6;
	static const char* name() { return M < 0 ? N < 0 ? "SVD<>" : "SVD<Dynamic,N>" : N < 0 ? "SVD<M,Dynamic>" : "SVD<M,N>"; }
	static int rows(Run& r) { return size_of<M>(r, 1, 6); } static int cols(Run& r, int R) { return std::is_base_of<SQSVD<N, P>, O>::value ? R : size_of<N>(r, 1, 6); }
	static Mat gen(Run& r, int R, int C, int kind) { if (kind != POISON) return random_matrix<P>(r, R, C, kind); Mat m(R, C); for (double& d : m.a) d = r.small_int(4) * (std::is_same<P, float>::value ? 1e37 : 1e307); return m; }   // gesvd of LAPACK 3.12 does not end on NaN or infinity
	static void make(std::unique_ptr<Obj>& o, const Mat& m, int f) { with_matrix<M, N, P>(m, f, [&](const auto& x) { o.reset(new Obj(x)); }); }
	static void compute(Obj& o, const Mat& m, int f) { with_matrix<M, N, P>(m, f, [&](const auto& x) { o.compute(x); }); }
	static void assign(Obj& a, const Obj& b) { a = b; }
	static bool may(const Mat&, int) { return true; }
	static void shape(int R, int, int q, int form, int& r, int& c) { r = R; c = q == 1 ? 1 + form % 3 : 1; }
	static P cond(int form) { return P(conds[(form / 3) % 4]); }
	static void ask(Obj& o, int q, const Mat& a, int form, vector<double>& v) {
		switch (q) {
			case 0: with_vector<M, P>(a, form, [&](const auto& x) { if (form < 3) flatv(v, o.backsub(x)); else flatv(v, o.backsub(x, cond(form))); }); break;
			case 1: if (a.C == 2) with_matrix<M, 2, P>(a, form, [&](const auto& x) { flat(v, o.backsub(x, cond(form))); }); else with_matrix<M, Dynamic, P>(a, form, [&](const auto& x) { flat(v, o.backsub(x, cond(form))); }); break;
			case 2: flat(v, o.get_pinv(cond(form))); break;
			case 3: v.push_back(form < 3 ? o.rank() : o.rank(cond(form))); break;
			case 4: v.push_back((double)o.determinant()); break;
			case 5: flat(v, o.get_U()); flatv(v, o.get_diagonal()); flat(v, o.get_VT()); break;
		}
	}
	static string judge(const Mat& A, int q, const Mat& arg, int form, const vector<double>& out) {
		int R = A.R, C = A.C, k = std::min(R, C); size_t at = 0; ld e = Eps<P>::v() * 60 * (R + C) * (R + C), c = cond(form);
		switch (q) {
			case 0: case 1: return Pseudo<P>::solve(A, take(out, at, C, arg.C), LMat(arg), c, "backsub");
			case 2: return Pseudo<P>::solve(A, take(out, at, C, R), eye(R), c, "the pseudo-inverse");
			case 3: return Pseudo<P>::rank(A, (int)out[0], c);
			case 4: { Spectrum s(A); ld p = 1, top = powl(s.s[0], k); for (ld x : s.s) p *= x; if (top > (std::is_same<P, float>::value ? 1e34L : 1e300L) || (top != 0 && top < (std::is_same<P, float>::value ? 1e-34L : 1e-300L))) return ""; if (!(fabsl(fabsl(out[0]) - p) <= e * top)) return fmt("the product of the singular values is %.17g, not %.17Lg", out[0], p); return ""; }
			default: { LMat U = take(out, at, R, k), S(k, k), D = take(out, at, 1, k), W = take(out, at, k, C); for (int i = 0; i < k; i++) { S(i, i) = D(0, i); if (!(D(0, i) >= 0)) return "a singular value is negative"; if (i && !(D(0, i) <= D(0, i - 1))) return "the singular values are not in descending order"; }
				if (!(orth_error(U) <= e)) return fmt("the columns of U are not orthonormal: %.6Lg", orth_error(U)); if (!(orth_error(W.T()) <= e)) return fmt("the rows of VT are not orthonormal: %.6Lg", orth_error(W.T()));
				ld d = (U * S * W - LMat(A)).norm(); if (!(d <= e * A.norm())) return fmt("U D VT is off by %.6Lg", d); return ""; }
		}
	}
};
template<int M, int N, class P_> struct AGR {
	typedef P_ P; typedef GR_SVD<M, N, P> Obj; static const bool can_compute = false; static const int queries = 7;
	static const char* name() { return "GR_SVD"; }
	static int rows(Run&) { return M; } static int cols(Run&, int) { return N; }
	static Mat gen(Run& r, int R, int C, int kind) { return random_matrix<P>(r, R, C, kind == POISON ? INTS : kind); }
	static void make(std::unique_ptr<Obj>& o, const Mat& m, int f) { with_matrix<M, N, P>(m, f, [&](const auto& x) { o.reset(new Obj(x)); }); }
	static void compute(Obj&, const Mat&, int) {}
	static void assign(Obj& a, const Obj& b) { a = b; }
	static bool may(const Mat&, int) { return true; }
	static void shape(int R, int, int q, int form, int& r, int& c) { r = R; c = q == 1 ? 1 + form % 3 : 1; }
	static P cond(int form) { return P(conds[(form / 3) % 4]); }
	static void ask(Obj& o, int q, const Mat& a, int form, vector<double>& v) {
		switch (q) {
			case 0: with_vector<M, P>(a, form, [&](const auto& x) { if (form < 3) flatv(v, o.backsub(x)); else flatv(v, o.backsub(x, cond(form))); }); break;
			case 1: with_matrix<M, Dynamic, P>(a, form, [&](const auto& x) { flat(v, o.backsub(x, cond(form))); }); break;
			case 2: flat(v, o.get_pinv(cond(form))); break;
			case 3: v.push_back((double)o.get_largest_singular_value()); v.push_back((double)o.get_smallest_singular_value()); v.push_back((double)o.get_diagonal()[o.get_smallest_singular_value_index()]); break;
			case 4: { heap::Paused p; Obj c(o); c.reorder(); flat(v, c.get_U()); flatv(v, c.get_diagonal()); flat(v, c.get_V()); } break;
			case 5: flat(v, o.get_U()); flatv(v, o.get_diagonal()); flat(v, o.get_V()); break;
			case 6: { GR_SVD<M, N, P, false, false> x(Matrix<M, N, P>(o.get_U() * o.get_diagonal().as_diagonal() * o.get_V().T())); flatv(v, x.get_diagonal()); std::sort(v.begin(), v.end()); } break;
		}
	}
	static string judge(const Mat& A, int q, const Mat& arg, int form, const vector<double>& out) {
		size_t at = 0; ld e = Eps<P>::v() * 100 * (M + N) * (M + N), c = cond(form), n = A.norm();
		switch (q) {
			case 0: case 1: return Pseudo<P>::solve(A, take(out, at, N, arg.C), LMat(arg), c, "backsub");
			case 2: return Pseudo<P>::solve(A, take(out, at, N, M), eye(M), c, "the pseudo-inverse");
			case 3: { Spectrum s(A); ld lo = M < N ? 0 : s.s.back(); if (!(fabsl(out[0] - s.s[0]) <= e * n) || !(fabsl(out[1] - lo) <= e * n) || out[1] != out[2]) return fmt("extreme singular values are %.17g %.17g (%.17g), not %.17Lg %.17Lg", out[0], out[1], out[2], s.s[0], lo); return ""; }
			case 6: { Spectrum s(A); for (int i = 0; i < N; i++) { ld w = i < (int)s.s.size() ? s.s[i] : 0; if (!(fabsl(out[N - 1 - i] - w) <= 4 * e * n)) return fmt("singular value %d without U and V is %.17g, not %.17Lg", i, out[N - 1 - i], w); } return ""; }
			default: { LMat U = take(out, at, M, N), S(N, N), D = take(out, at, 1, N), V = take(out, at, N, N); for (int i = 0; i < N; i++) { S(i, i) = D(0, i); if (!(D(0, i) >= 0)) return "a singular value is negative"; if (q == 4 && i && D(0, i) > D(0, i - 1)) return "reorder leaves the singular values unsorted"; }
				if (!(orth_error(V) <= e)) return fmt("the columns of V are not orthonormal: %.6Lg", orth_error(V)); ld d = (U * S * V.T() - LMat(A)).norm(); if (!(d <= e * n)) return fmt("U D V^T is off by %.6Lg", d);
				for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) { if (D(0, i) <= 1e3L * e * n || D(0, j) <= 1e3L * e * n) continue; ld t = i == j ? -1 : 0; for (int k = 0; k < M; k++) t += U(k, i) * U(k, j); if (!(fabsl(t) <= e)) return fmt("columns %d and %d of U are not orthonormal: %.6Lg", i, j, t); }
				return ""; }
		}
	}
};
template<int M, int N> static void wide_svd(Run& r) {
	using namespace wide; r.set_ops(r.range(1, 6)); string who = fmt("GR_SVD<%d, %d, long double>", M, N);
	while (r.next_op()) {
		int how = r.pick(3); Numbers g(r.pick(1 << 30)); Matrix<M, N, W> a; for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) a(i, j) = g(); r.log("%s, way %d", who.c_str(), how); paint_stack(g.g.next());
		GR_SVD<M, N, W> s(a); if (r.pick(2)) s.reorder(); Matrix<M, N, W> ud = s.get_U(), u = ud; for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) ud(i, j) *= s.get_diagonal()[j]; Matrix<N, N, W> v = s.get_V(), vt, one = Identity; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) vt(i, j) = v(j, i);
		product(r, "the GR_SVD", ud, vt, a, M, N, N); product(r, "V V^T of the GR_SVD", v, vt, one, N, N, N);
		W low = s.get_smallest_singular_value(), high = s.get_largest_singular_value();
		if (M == N && low > high * 1e-3L) { Matrix<M, 2, W> b; Matrix<N, 2, W> x; for (int i = 0; i < N; i++) for (int j = 0; j < 2; j++) b(i, j) = g(); x = s.backsub(b); Q scale = 0; for (int i = 0; i < N; i++) for (int j = 0; j < 2; j++) scale = std::max(scale, mag(x(i, j)) * (Q)high); Q worst = 0; for (int i = 0; i < N; i++) for (int j = 0; j < 2; j++) { Q t = -(Q)b(i, j); for (int k = 0; k < N; k++) t += (Q)a(i, k) * (Q)x(k, j); worst = std::max(worst, mag(t)); }
			if (!(worst <= scale * (Q)(high / low) * (Q)LDBL_EPSILON * 200 * N)) r.fail("wrong-answer", "%s::backsub leaves a residual of %g", who.c_str(), (double)worst); r.probe("solved"); }
		r.cover(r.hash); r.probe("long double"); r.nontrivial();
	}
}
static void c14(Run& r) {
	start();
	switch (r.pick(18)) {
		case 16: wide_svd<4, 4>(r); break;
		case 17: wide_svd<5, 3>(r); break;
		case 0: hist<ASVD<SVD<>, -1, -1, double>>(r); break;
		case 1: hist<ASVD<SVD<3, 4>, 3, 4, double>>(r); break;
		case 2: hist<ASVD<SVD<5, 2>, 5, 2, double>>(r); break;
		case 3: hist<ASVD<SVD<Dynamic, 3>, -1, 3, double>>(r); break;
		case 4: hist<ASVD<SVD<3, Dynamic>, 3, -1, double>>(r); break;
		case 5: hist<ASVD<SVD<Dynamic, Dynamic, float>, -1, -1, float>>(r); break;
		case 6: hist<ASVD<SQSVD<Dynamic, double>, -1, -1, double>>(r); break;
		case 7: hist<ASVD<SQSVD<4, double>, 4, 4, double>>(r); break;
		case 8: hist<ASVD<SVD<3, 3, float>, 3, 3, float>>(r); break;
		case 9: hist<AGR<3, 3, double>>(r); break;
		case 10: hist<AGR<5, 3, double>>(r); break;
		case 11: hist<AGR<2, 4, double>>(r); break;
		case 12: hist<AGR<6, 6, double>>(r); break;
		case 13: hist<AGR<4, 4, float>>(r); break;
		case 14: hist<AGR<1, 1, double>>(r); break;
		default: if (r.pick(8)) hist<AGR<4, 1, double>>(r); else { r.probe("many_columns"); hist<AGR<40, 36, double>>(r); }     // more singular values than iterations allowed for one
	}
	finish(r);
}
static Register R14("C14", c14, "SVD, SQSVD, GR_SVD; system LAPACK except where it is made to fail", "LAPACK gesvd when it is made not to converge; global operator new (failures, garbage)", "an object was reused or restored from a copy");
#endif

#if PART == 15
// ------------------------------------------------------------------------------------------------------------ C15: QR
#include <TooN/QR.h>
#include <TooN/QR_Lapack.h>
template<class O, int M, int N, class P_, int Lap> struct AQR {      // Lap: 0 QR, 1 QR_Lapack, 2 with pivoting
	typedef O Obj; typedef P_ P; static const bool can_compute = false; static const int queries = 3;
	static const char* name() { return Lap == 0 ? "QR" : Lap == 1 ? "QR_Lapack" : "QR_Lapack with pivoting"; }
	static int rows(Run& r) { return size_of<M>(r, 1, 6); } static int cols(Run& r, int R) { return size_of<N>(r, R, 7); }
	static Mat gen(Run& r, int R, int C, int kind) { return random_matrix<P>(r, R, C, kind); }
	template<class X> static void build(std::unique_ptr<Obj>& o, const X& x, Int<0>) { o.reset(new Obj(x)); }
	template<class X> static void build(std::unique_ptr<Obj>& o, const X& x, Int<1>) { o.reset(new Obj(x)); }
	template<class X> static void build(std::unique_ptr<Obj>& o, const X& x, Int<2>) { o.reset(new Obj(x, true)); }
	static void make(std::unique_ptr<Obj>& o, const Mat& m, int f) { with_matrix<M, N, P>(m, f, [&](const auto& x) { build(o, x, Int<Lap>()); }); }
	static void compute(Obj&, const Mat&, int) {}
	static void assign(Obj& a, const Obj& b) { a = b; }
	static bool may(const Mat&, int) { return true; }
	static void shape(int R, int, int, int, int& r, int& c) { r = R; c = 1; }
	static void pivots(Obj& o, vector<double>& v, Int<0>) { for (int i = 0; i < o.get_R().num_cols(); i++) v.push_back(i); }
	static void pivots(Obj& o, vector<double>& v, Int<1>) { flatv(v, o.get_P()); }
	static void pivots(Obj& o, vector<double>& v, Int<2>) { flatv(v, o.get_P()); }
	static void ask(Obj& o, int q, const Mat&, int, vector<double>& v) { if (q == 0) flat(v, o.get_Q()); if (q == 1) flat(v, o.get_R()); if (q == 2) { flat(v, o.get_Q()); flat(v, o.get_R()); pivots(o, v, Int<Lap>()); } }
	static string judge(const Mat& A, int q, const Mat&, int, const vector<double>& out) {
		int R = A.R, C = A.C; size_t at = 0; ld e = Eps<P>::v() * 60 * C * C;
		if (q != 1) { LMat Q = take(out, at, R, R); ld d = (Q.T() * Q - eye(R)).norm(); if (!(d <= e)) return fmt("Q is not orthogonal: %.6Lg", d); if (q == 0) return ""; at = 0; }
		LMat Q = q == 2 ? take(out, at, R, R) : LMat(), T = take(out, at, R, C);
		for (int i = 0; i < R; i++) for (int j = 0; j < i; j++) if (T(i, j) != 0) return fmt("R(%d,%d) is %.17Lg: not upper triangular", i, j, T(i, j));
		if (Lap == 2) for (int i = 1; i < R; i++) if (!(fabsl(T(i, i)) <= fabsl(T(i - 1, i - 1)) * (1 + e) + e * A.norm() * 1e-3L)) return "the diagonal of R is not in descending order";
		// lengths are kept
		if (q == 1) { for (int j = 0; j < C && Lap < 2; j++) { ld a = 0, b = 0; for (int i = 0; i < R; i++) { a += (ld)A(i, j) * A(i, j); b += T(i, j) * T(i, j); } if (!(fabsl(sqrtl(a) - sqrtl(b)) <= e * A.norm())) return fmt("column %d of R has length %.17Lg, not %.17Lg", j, sqrtl(b), sqrtl(a)); } return ""; }
		LMat P(1, C); P = take(out, at, 1, C); vector<bool> used(C, false); for (int j = 0; j < C; j++) { int p = (int)P(0, j); if (p < 0 || p >= C || used[p]) return "P is not a permutation"; used[p] = true; if (Lap < 2 && p != j) return "columns are permuted without pivoting"; }
		LMat Z = Q * T; for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) if (!(fabsl(Z(i, j) - A(i, (int)P(0, j))) <= e * A.norm())) return fmt("Q R is off by %.6Lg at (%d,%d)", Z(i, j) - A(i, (int)P(0, j)), i, j);
		return "";
	}
};
template<int M, int N> static void wide_qr(Run& r) {
	using namespace wide; r.set_ops(r.range(1, 6)); string who = fmt("QR<%d, %d, long double>", M, N);
	while (r.next_op()) {
		int m = M < 0 ? r.extent(1, 6, 20) : M, n = N < 0 ? m + (int)r.pick(4) : N; Numbers g(r.pick(1 << 30)); Matrix<M, N, W> a(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a(i, j) = g(); r.log("%s, %d by %d", who.c_str(), m, n); paint_stack(g.g.next());
		QR<M, N, W> q(a); Matrix<Dynamic, Dynamic, W> Qm(m, m), Qt(m, m), one(m, m), R(q.get_R()); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { Qm(i, j) = q.get_Q()(i, j); Qt(j, i) = Qm(i, j); one(i, j) = i == j; }
		product(r, "the QR decomposition", Qm, R, a, m, m, n); product(r, "Q Q^T of the QR decomposition", Qm, Qt, one, m, m, m);
		for (int i = 0; i < m; i++) for (int j = 0; j < i && j < n; j++) if (R(i, j) != 0) r.fail("wrong-answer", "R of %s is not upper triangular", who.c_str());
		r.cover(r.hash); r.probe("long double"); r.nontrivial();
	}
}
static void c15(Run& r) {
	start();
	switch (r.pick(14)) {
		case 12: wide_qr<Dynamic, Dynamic>(r); break;
		case 13: wide_qr<3, 4>(r); break;
		case 0: hist<AQR<QR<>, -1, -1, double, 0>>(r); break;
		case 1: hist<AQR<QR<3, 4>, 3, 4, double, 0>>(r); break;
		case 2: hist<AQR<QR<4>, 4, 4, double, 0>>(r); break;
		case 3: hist<AQR<QR<Dynamic, Dynamic, float>, -1, -1, float, 0>>(r); break;
		case 4: hist<AQR<QR<2, Dynamic>, 2, -1, double, 0>>(r); break;
		case 5: hist<AQR<QR_Lapack<>, -1, -1, double, 1>>(r); break;
		case 6: hist<AQR<QR_Lapack<>, -1, -1, double, 2>>(r); break;
		case 7: hist<AQR<QR_Lapack<3, 5>, 3, 5, double, 2>>(r); break;
		case 8: hist<AQR<QR_Lapack<4, 4>, 4, 4, double, 1>>(r); break;
		case 9: hist<AQR<QR_Lapack<Dynamic, Dynamic, float>, -1, -1, float, 2>>(r); break;
		case 10: hist<AQR<QR_Lapack<3, Dynamic>, 3, -1, double, 2>>(r); break;
		default: hist<AQR<QR<1, 3>, 1, 3, double, 0>>(r);
	}
	finish(r);
}
static Register R15("C15", c15, "QR, QR_Lapack; system LAPACK", "global operator new (failures, garbage)", "an object was reused or restored from a copy");
#endif

#if PART == 16
// ------------------------------------------------------------------------------------------------------- C16: SymEigen
#include <TooN/SymEigen.h>
// A = sum w v v^T by the Jacobi method
static void jacobi_eig(LMat A, vector<ld>& w, LMat& V) {
	int n = A.R; V = eye(n);
	for (int sweep = 0; sweep < 80; sweep++) { ld off = 0, all = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { all += A(i, j) * A(i, j); if (i != j) off += A(i, j) * A(i, j); } if (off <= 1e-40L * all || off == 0) break;
		for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) { if (A(p, q) == 0) continue; ld th = (A(q, q) - A(p, p)) / (2 * A(p, q)), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(1 + th * th)), c = 1 / sqrtl(1 + t * t), s = c * t;
			for (int k = 0; k < n; k++) { ld x = A(k, p), y = A(k, q); A(k, p) = c * x - s * y; A(k, q) = s * x + c * y; } for (int k = 0; k < n; k++) { ld x = A(p, k), y = A(q, k); A(p, k) = c * x - s * y; A(q, k) = s * x + c * y; }
			for (int k = 0; k < n; k++) { ld x = V(k, p), y = V(k, q); V(k, p) = c * x - s * y; V(k, q) = s * x + c * y; } } }
	vector<std::pair<ld, int>> o; for (int i = 0; i < n; i++) o.push_back({ A(i, i), i }); std::sort(o.begin(), o.end()); LMat W(n, n); w.assign(n, 0); for (int k = 0; k < n; k++) { w[k] = o[k].first; for (int i = 0; i < n; i++) W(i, k) = V(i, o[k].second); } V = W;
}
template<int N, class P_> struct AEig {
	typedef P_ P; typedef SymEigen<N, P> Obj; static const bool can_compute = true; static const int queries = 8;
	static const char* name() { return N == 2 ? "SymEigen<2>" : N == 3 ? "SymEigen<3>" : N < 0 ? "SymEigen<>" : "SymEigen<N>"; }
	static int rows(Run& r) { return size_of<N>(r, 1, 6); } static int cols(Run&, int R) { return R; }
	static Mat gen(Run& r, int n, int, int kind) { 
		if (r.pick(3) == 2) { Mat b = random_matrix<P>(r, n, n, kind == POISON ? INTS : kind), m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { for (int k = 0; k < n; k++) m(i, j) += b(i, k) * b(j, k); m(i, j) = (double)(P)m(i, j); m(j, i) = m(i, j); } return m; }
		Mat m = random_matrix<P>(r, n, n, kind == POISON ? INTS : kind); if (kind == REPEATED) { Mat t(n, n); LMat b(m); b = b * b.T(); for (int i = 0; i < n * n; i++) t.a[i] = (double)(P)(double)b.a[i]; m = t; } symmetrise<P>(m); return m; }
	static void make(std::unique_ptr<Obj>& o, const Mat& m, int f) { with_matrix<N, N, P>(m, f, [&](const auto& x) { o.reset(new Obj(x)); }); }
	static void compute(Obj& o, const Mat& m, int f) { with_matrix<N, N, P>(m, f, [&](const auto& x) { o.compute(x); }); }
	static void assign(Obj& a, const Obj& b) { a = b; }
	static bool may(const Mat&, int) { return true; }
	static void shape(int n, int, int q, int form, int& R, int& C) { R = n; C = q == 1 ? 1 + form % 3 : 1; }
	static double cond(int form) { static const double c[] = { 1e9, 1e3, 50, 1e5 }; return c[(form / 3) % 4]; }
	static void ask(Obj& o, int q, const Mat& a, int form, vector<double>& v) {
		const Obj& c = o;
		switch (q) {
			case 0: with_vector<N, P>(a, form, [&](const auto& x) { flatv(v, c.backsub(x)); }); break;
			case 1: if (a.C == 2) with_matrix<N, 2, P>(a, form, [&](const auto& x) { flat(v, c.backsub(x)); }); else with_matrix<N, Dynamic, P>(a, form, [&](const auto& x) { flat(v, c.backsub(x)); }); break;
			case 2: flat(v, c.get_pinv(cond(form))); break;
			case 3: v.push_back(c.is_posdef()); v.push_back(c.is_negdef()); break;
			case 4: v.push_back((double)c.get_determinant()); break;
			case 5: flat(v, c.get_evectors()); flatv(v, o.get_evalues()); break;
			case 6: flat(v, c.get_sqrtm()); break;
			case 7: flat(v, c.get_isqrtm(cond(form))); break;
		}
	}
	// the closed form for 2 loses half of the digits where the off-diagonal element is small
	static ld eps(ld) { ld e = Eps<P>::v(); return N == 2 ? sqrtl(e) : e; }
	static string judge(const Mat& A, int q, const Mat& arg, int form, const vector<double>& out) {
		int n = A.R; size_t at = 0; vector<ld> w; LMat V; jacobi_eig(LMat(A), w, V); ld top = std::max(fabsl(w[0]), fabsl(w[n - 1])), e = eps(0) * 100 * n * n; LMat LA(A);
		auto rebuild = [&](const std::function<ld(ld)>& f) { LMat m(n, n); for (int k = 0; k < n; k++) { ld x = f(w[k]); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) += V(i, k) * x * V(j, k); } return m; };
		auto close_call = [&](ld c) { for (ld x : w) { ld m = fabsl(x) * c; if (m > top * 0.2L && m < top * 5) return true; if (fabsl(x) < 100 * e * top && 500 * e * c > 1) return true; } return false; };
		auto kappa = [&](ld c) { ld k = 1; for (ld x : w) if (fabsl(x) * c > top) k = std::max(k, top / fabsl(x)); return k; };
		switch (q) {
			case 0: case 1: case 2: { ld c = q == 2 ? (ld)cond(form) : 1e9L; if (close_call(c)) return ""; ld k = kappa(c); if (k * k * e > 0.1L) return ""; LMat I = rebuild([&](ld x) { return fabsl(x) * c > top ? 1 / x : 0; }), B = q == 2 ? eye(n) : LMat(arg), d = take(out, at, n, B.C) - I * B; if (!(d.norm() <= e * k * I.norm() * k * B.norm())) return fmt("%s is off by %.6Lg (kappa %.3Lg)", q == 2 ? "the pseudo-inverse" : "backsub", d.norm(), k); return ""; }
			case 3: { if (top == 0) { if (out[0] || out[1]) return "the zero matrix is called definite"; return ""; } if (fabsl(w[0]) > e * top && (out[0] != 0) != (w[0] > 0)) return fmt("is_posdef is %g with smallest eigenvalue %.6Lg", out[0], w[0]); if (fabsl(w[n - 1]) > e * top && (out[1] != 0) != (w[n - 1] < 0)) return fmt("is_negdef is %g with largest eigenvalue %.6Lg", out[1], w[n - 1]); return ""; }
			case 4: { if (top > 0 && (powl(top, n) > (sizeof(P) == 4 ? 1e36L : 1e300L) || powl(top, n) < (sizeof(P) == 4 ? 1e-30L : 1e-280L))) return ""; ld p = 1; for (ld x : w) p *= x; if (!(fabsl(out[0] - p) <= e * powl(top, n) + 1e-290L)) return fmt("determinant is %.17g, not %.17Lg", out[0], p); return ""; }
			case 5: { LMat U = take(out, at, n, n), D(n, n), l = take(out, at, 1, n); for (int i = 0; i < n; i++) { D(i, i) = l(0, i); if (i && !(l(0, i) >= l(0, i - 1))) return "the eigenvalues are not in ascending order"; if (!(fabsl(l(0, i) - w[i]) <= e * top)) return fmt("eigenvalue %d is %.17Lg, not %.17Lg", i, l(0, i), w[i]); }
				ld d = (U * U.T() - eye(n)).norm(); if (!(d <= e)) return fmt("the eigenvectors are not orthonormal: %.6Lg", d); d = (U.T() * D * U - LA).norm(); if (!(d <= e * top * n)) return fmt("V^T D V is off by %.6Lg", d); return ""; }
			case 6: { if (w[0] < 0 && w[0] > -e * top * 10) return ""; if (w[0] < 0) return ""; if (w[0] < 10 * e * top) return ""; LMat S = take(out, at, n, n); ld d = (S.T() * S - LA).norm(); if (!(d <= e * top * n)) return fmt("the square of the square root is off by %.6Lg", d); return ""; }
			case 7: { ld c = cond(form), lo = 1e9L * top; if (w[0] < 10 * e * top) return ""; ld st = sqrtl(top); for (ld x : w) { ld m = sqrtl(x) * c; if (m > st * 0.2L && m < st * 5) return ""; } ld k = 1; for (ld x : w) if (sqrtl(x) * c > st) k = std::max(k, top / x); if (k * k * e > 0.1L) return "";
				LMat I = rebuild([&](ld x) { return sqrtl(x) * c > st ? 1 / sqrtl(x) : 0; }), d = take(out, at, n, n) - I; (void)lo; if (!(d.norm() <= e * k * k * I.norm())) return fmt("the inverse square root is off by %.6Lg (kappa %.3Lg)", d.norm(), k); return ""; }
		}
		return "";
	}
};
static void c16(Run& r) {
	start();
	switch (r.pick(8)) {
		case 0: hist<AEig<-1, double>>(r); break;
		case 1: hist<AEig<2, double>>(r); break;
		case 2: hist<AEig<3, double>>(r); break;
		case 3: hist<AEig<4, double>>(r); break;
		case 4: hist<AEig<-1, float>>(r); break;
		case 5: hist<AEig<2, float>>(r); break;
		case 6: hist<AEig<3, float>>(r); break;
		default: hist<AEig<5, float>>(r);
	}
	finish(r);
}
static Register R16("C16", c16, "SymEigen (closed forms for 2 and 3, LAPACK otherwise); system LAPACK except where it is made to fail", "LAPACK syev when it is made not to converge; global operator new (failures, garbage)", "an object was reused or restored from a copy");
#endif
