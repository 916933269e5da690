// C24: expressions over vectors and matrices of mixed element types, storage and layout, checked against scalar arithmetic.
//
// A run keeps a bank of objects of every element type (int, float, double, complex): static, run-time sized, column-major,
// and pieces of a larger matrix. Each step takes two operands from it - possibly the same object twice - forms one
// expression, and compares every element of the result with the same C++ arithmetic on the elements. Allocations fail at
// seeded points and the step is repeated; heap and stack are filled with seeded garbage; everything in the bank that the
// step does not assign to must keep its bits.
#include "sim.h"
#include <TooN/TooN.h>
#include <complex>
#include <limits>
#include <algorithm>
#include <cstring>
#include <functional>
using namespace sim; using namespace TooN;
using std::vector; using std::string; using std::complex;
typedef complex<double> C; typedef vector<C> L;

// --------------------------------------------------------------------------------------------------------- the bank
template<class E> struct Store {
	Vector<3, E> v3; Vector<Dynamic, E> vd; Matrix<3, 3, E> m3; Matrix<3, 3, E, ColMajor> c3; Matrix<Dynamic, Dynamic, E> md; Matrix<Dynamic, Dynamic, E, ColMajor> big; Matrix<2, 4, E> m24; Matrix<4, 2, E> m42; Vector<Resizable, E> vr;
	Store(int n) : vd(n), md(n, n), big(n + 2, n + 2) { vr.resize(n); }
};
struct World {
	Run& r; int n; Store<int> i; Store<float> f; Store<double> d; Store<C> c; uint64_t junk;
	World(Run& r_, int n_) : r(r_), n(n_), i(n_), f(n_), d(n_), c(n_), junk(0) {}
};
template<class E> Store<E>& of(World& w); template<> inline Store<int>& of(World& w) { return w.i; } template<> inline Store<float>& of(World& w) { return w.f; } template<> inline Store<double>& of(World& w) { return w.d; } template<> inline Store<C>& of(World& w) { return w.c; }
template<class E> struct Name; template<> struct Name<int> { static const char* s() { return "int"; } }; template<> struct Name<float> { static const char* s() { return "float"; } }; template<> struct Name<double> { static const char* s() { return "double"; } }; template<> struct Name<C> { static const char* s() { return "complex"; } };
inline C up(int x) { return C(x); } inline C up(float x) { return C(x); } inline C up(double x) { return C(x); } inline C up(bool x) { return C(x); } inline C up(const C& x) { return x; } inline C up(const complex<float>& x) { return C(x.real(), x.imag()); }
template<class T> struct Plain { typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type type; };
template<class V> struct El { typedef typename Plain<decltype(std::declval<V&>()[0])>::type type; };
template<class M> struct Em { typedef typename Plain<decltype(std::declval<M&>()(0, 0))>::type type; };
template<int S, class P, class B> L flat(const Vector<S, P, B>& v) { L o; for (int i = 0; i < v.size(); i++) o.push_back(up(v[i])); return o; }
template<int R, int Q, class P, class B> L flat(const Matrix<R, Q, P, B>& m) { L o; for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) o.push_back(up(m(i, j))); return o; }
inline L flat(int x) { return L(1, up(x)); } inline L flat(float x) { return L(1, up(x)); } inline L flat(double x) { return L(1, up(x)); } inline L flat(const C& x) { return L(1, x); } inline L flat(bool x) { return L(1, up(x)); } inline L flat(const L& l) { return l; }
template<class V> vector<typename El<V>::type> elems(const V& v) { vector<typename El<V>::type> o; for (int i = 0; i < v.size(); i++) o.push_back(v[i]); return o; }
template<class E> struct Grid { int r, c; vector<E> a; Grid(int r_, int c_) : r(r_), c(c_), a(r_ * c_) {} E& operator()(int i, int j) { return a[i * c + j]; } const E& operator()(int i, int j) const { return a[i * c + j]; } };
template<class M> Grid<typename Em<M>::type> grid(const M& m) { Grid<typename Em<M>::type> g(m.num_rows(), m.num_cols()); for (int i = 0; i < g.r; i++) for (int j = 0; j < g.c; j++) g(i, j) = m(i, j); return g; }
template<class T, class F> L table(int n, F f) { L o; for (int i = 0; i < n; i++) o.push_back(up((T)f(i))); return o; }
#define LIST(n, expr) [&] { L o_; for (int i = 0; i < (n); i++) o_.push_back(up(expr)); return o_; }()
#define GRID(rows, cols, expr) [&] { L o_; for (int i = 0; i < (rows); i++) for (int j = 0; j < (cols); j++) o_.push_back(up(expr)); return o_; }()
inline string show(const L& v) { string s = "("; for (size_t i = 0; i < v.size(); i++) s += fmt(v[i].imag() ? "%s%.17g%+.17gi" : "%s%.17g", i ? ", " : "", v[i].real(), v[i].imag()); return s + ")"; }
inline bool same(double a, double b) { return a == b || (a != a && b != b); }
inline bool same(const L& a, const L& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i].real(), b[i].real()) || !same(a[i].imag(), b[i].imag())) return false; return true; }
// the bits of everything in the bank
typedef string Bits;
template<class E> void snap(Bits& o, Store<E>& s) { auto add = [&](const E* p, int k) { o.append((const char*)p, k * sizeof(E)); }; int n = s.vd.size(); add(&s.v3[0], 3); add(&s.vd[0], n); add(&s.vr[0], n); add(&s.m3(0, 0), 9); add(&s.c3(0, 0), 9); add(&s.md(0, 0), n * n); add(&s.big(0, 0), (n + 2) * (n + 2)); add(&s.m24(0, 0), 8); add(&s.m42(0, 0), 8); }
inline Bits snap(World& w) { Bits o; o.reserve(8192); snap(o, w.i); snap(o, w.f); snap(o, w.d); snap(o, w.c); return o; }
// small values: sums and products of a few of them are exact in every type
inline void draw(Run& r, int& x) { x = r.small_int(9); } inline void draw(Run& r, float& x) { x = r.small_int(30) / 4.0f; } inline void draw(Run& r, double& x) { x = r.small_int(30) / 4.0; } inline void draw(Run& r, C& x) { int a = r.small_int(12), b = r.small_int(12); x = C(a / 4.0, b / 4.0); }
template<class E> void refill(Run& r, Store<E>& s) { for (int i = 0; i < 3; i++) { draw(r, s.v3[i]); for (int j = 0; j < 3; j++) { draw(r, s.m3(i, j)); draw(r, s.c3(i, j)); } } for (int i = 0; i < s.vd.size(); i++) { draw(r, s.vd[i]); draw(r, s.vr[i]); for (int j = 0; j < s.vd.size(); j++) draw(r, s.md(i, j)); } for (int i = 0; i < s.big.num_rows(); i++) for (int j = 0; j < s.big.num_cols(); j++) draw(r, s.big(i, j)); for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) { draw(r, s.m24(i, j)); draw(r, s.m42(j, i)); } }
template<class E> bool tame(E x) { return std::fabs((double)x) <= 12 && std::fmod((double)x * 4, 1) == 0; } inline bool tame(const C& x) { return tame(x.real()) && tame(x.imag()); }
template<class X> void settle(Run& r, X& x, std::true_type) { for (int i = 0; i < x.size(); i++) if (!tame(x[i])) draw(r, x[i]); }
template<class X> void settle(Run& r, X& x, std::false_type) { for (int i = 0; i < x.num_rows(); i++) for (int j = 0; j < x.num_cols(); j++) if (!tame(x(i, j))) draw(r, x(i, j)); }
template<class E> void settle(Run& r, Store<E>& s) { settle(r, s.v3, std::true_type()); settle(r, s.vd, std::true_type()); settle(r, s.vr, std::true_type()); settle(r, s.m3, std::false_type()); settle(r, s.c3, std::false_type()); settle(r, s.md, std::false_type()); settle(r, s.big, std::false_type()); settle(r, s.m24, std::false_type()); settle(r, s.m42, std::false_type()); }

inline void down(int& e, const C& x) { e = (int)x.real(); } inline void down(float& e, const C& x) { e = (float)x.real(); } inline void down(double& e, const C& x) { e = x.real(); } inline void down(C& e, const C& x) { e = x; }
template<int S, class P, class B> void put(Vector<S, P, B>& v, const L& l) { for (int i = 0; i < v.size(); i++) down(v[i], l[i]); }
template<int R, int Q, class P, class B> void put(Matrix<R, Q, P, B>& m, const L& l) { int k = 0; for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) down(m(i, j), l[k++]); }
inline void expect(World& w, const string& what, const L& got, const L& want, double tol) {
	bool ok = got.size() == want.size(); for (size_t i = 0; ok && i < got.size(); i++) ok = same(got[i].real(), want[i].real()) && same(got[i].imag(), want[i].imag()) || std::abs(got[i] - want[i]) <= tol * std::abs(want[i]);
	if (!ok) w.r.fail("wrong", "%s is %s instead of %s", what.c_str(), show(got).c_str(), show(want).c_str());
}
// f returns the value of an expression; everything in the bank stays as it is
void value_core(World& w, const string& what, const std::function<L()>& f, const L& want, double tol);
void effect_core(World& w, const string& what, const std::function<L()>& read, const std::function<void(const L&)>& put, const std::function<void()>& f, const L& want, double tol);
template<class F> void value(World& w, const string& what, F f, const L& want, double tol = 0) { value_core(w, what, [&]() -> L { auto x = f(); heap::Paused p; return flat(x); }, want, tol); }
// f assigns to x, and to nothing else; afterwards x has the elements in want
template<class X, class F> void effect(World& w, const string& what, X& x, F f, const L& want, double tol = 0) { effect_core(w, what, [&] { return flat(x); }, [&](const L& l) { put(x, l); }, f, want, tol); }
#ifndef PART
void value_core(World& w, const string& what, const std::function<L()>& f, const L& want, double tol) {
	Run& r = w.r; Bits before = snap(w); L got; uint64_t fa = r.pick_from(S_FAULT, 6), k = 1 + r.pick_from(S_FAULT, 3); r.log("%s", what.c_str());
	for (int rep = 0; rep < 2; rep++) {
		heap::garbage(w.junk + rep); paint_stack(w.junk + 3 * rep); heap::reset_count(); if (fa == 5 && !rep) heap::fail_at(k); bool ab = false, cut = false; L g;
		try { ab = catch_abort([&] { heap::Armed a; L v = f(); heap::Paused p; g = v; }); } catch (std::bad_alloc&) { cut = true; }
		bool fired = heap::fired(); heap::fail_at(0); if (cut && !fired) r.fail("wrong-exception", "%s: bad_alloc although no allocation failed", what.c_str()); if (cut) { r.fault("alloc_fail"); r.nontrivial(); }
		if (ab) r.fail("abort", "%s aborts", what.c_str()); if (heap::live_blocks() && cut) r.fail("leak", "%s: %ld blocks left", what.c_str(), heap::live_blocks());
		if (snap(w) != before) r.fail("changes-operand", "%s changes an object", what.c_str()); if (!cut) { if (got.size() && !same(g, got)) r.fail("garbage", "%s is %s and then %s", what.c_str(), show(got).c_str(), show(g).c_str()); got = g; expect(w, what, got, want, tol); }
	}
	r.steps(1); for (const C& x : got) { r.hash_double(x.real()); r.hash_double(x.imag()); } r.cover(r.hash);
}
void effect_core(World& w, const string& what, const std::function<L()>& read, const std::function<void(const L&)>& put, const std::function<void()>& f, const L& want, double tol) {
	Run& r = w.r; Bits before = snap(w); L old = read(); uint64_t fa = r.pick_from(S_FAULT, 6), k = 1 + r.pick_from(S_FAULT, 3); r.log("%s", what.c_str());
	for (int rep = 0; rep < 2; rep++) {
		heap::garbage(w.junk + rep); paint_stack(w.junk + 3 * rep); heap::reset_count(); if (fa == 5 && !rep) heap::fail_at(k); bool ab = false, cut = false;
		try { ab = catch_abort([&] { heap::Armed a; f(); }); } catch (std::bad_alloc&) { cut = true; }
		bool fired = heap::fired(); heap::fail_at(0); if (cut && !fired) r.fail("wrong-exception", "%s: bad_alloc although no allocation failed", what.c_str()); if (ab) r.fail("abort", "%s aborts", what.c_str());
		if (cut) { r.fault("alloc_fail"); r.nontrivial(); if (snap(w) != before) r.fail("half-done", "%s changes something although an allocation failed before it could start", what.c_str()); continue; }
		expect(w, what, read(), want, tol); L now = read(); put(old); if (snap(w) != before) r.fail("changes-other", "%s changes another object", what.c_str()); put(now); r.hash_double(now.empty() ? 0 : now[0].real()); break;
	}
	r.steps(1); r.cover(r.hash); settle(r, w.i); settle(r, w.f); settle(r, w.d); settle(r, w.c);
}
#endif
template<class T> struct Div { static double tol() { return 4 * std::numeric_limits<T>::epsilon(); } };
template<> struct Div<int> { static double tol() { return 0; } }; template<> struct Div<C> { static double tol() { return 16 * std::numeric_limits<double>::epsilon(); } };
template<class T> double dtol(const T&) { return Div<T>::tol(); }

// ------------------------------------------------------------------------------------------------- picking operands
#ifdef PART
template<class E, class F> void any_vector(World& w, F f) {
	Store<E>& s = of<E>(w); string t = Name<E>::s(); uint64_t k = w.r.pick(4);
	if (k == 0 && w.n == 3) return f(s.v3, "Vector<3," + t + ">"); if (k == 3) return f(s.vr, "Vector<Resizable," + t + ">");
	if (k == 1) { int row = w.r.pick(w.n + 2); auto v = s.big[row].slice(1, w.n); return f(v, fmt("row %d of Matrix<%s,ColMajor> from 1", row, t.c_str())); }
	f(s.vd, "Vector<Dynamic," + t + ">");
}
template<class E, class F> void any_vector_right(World& w, F f) {   // fewer kinds
	Store<E>& s = of<E>(w); string t = Name<E>::s();
	if (w.n == 3 && w.r.pick(3) == 1) return f(s.v3, "Vector<3," + t + ">"); if (w.r.pick(2)) return f(s.vd, "Vector<Dynamic," + t + ">"); int row = w.r.pick(w.n + 2); auto v = s.big[row].slice(1, w.n); f(v, fmt("row %d of Matrix<%s,ColMajor> from 1", row, t.c_str()));
}
template<class E, class F> void any_matrix(World& w, F f) {
	Store<E>& s = of<E>(w); string t = Name<E>::s(); uint64_t k = w.r.pick(4);
	if (k == 0 && w.n == 3) return f(s.m3, "Matrix<3,3," + t + ">"); if (k == 2 && w.n == 3) return f(s.c3, "Matrix<3,3," + t + ",ColMajor>");
	if (k == 1) { auto m = s.big.slice(1, 1, w.n, w.n); return f(m, "middle of Matrix<" + t + ",ColMajor>"); }
	f(s.md, "Matrix<Dynamic,Dynamic," + t + ">");
}
template<class E, class F> void any_matrix_right(World& w, F f) {   // fewer kinds
	Store<E>& s = of<E>(w); string t = Name<E>::s();
	if (w.n == 3 && w.r.pick(2)) return f(s.m3, "Matrix<3,3," + t + ">"); auto m = s.big.slice(1, 1, w.n, w.n); f(m, "middle of Matrix<" + t + ",ColMajor>");
}
template<class E> E nonzero(Run& r) { E x; draw(r, x); return x == E(0) ? E(1) : x; }
template<class T, class S> bool fits(const S& s) { return up((T)s) == up(s); }
template<class E, class S> struct Storable { enum { value = 1 }; }; template<class E> struct Storable<E, C> { enum { value = std::is_same<E, C>::value }; };
template<bool ok> struct When { template<class F> static bool run(F f) { f(); return true; } }; template<> struct When<false> { template<class F> static bool run(F) { return false; } };

template<class X, class Y> bool cast_ok(const X& x, const Y&) { return true; }
struct Assign { // operations whose result is stored in an element of the left operand's type
	template<class A, class B> static void vv(World& w, A& a, const B& b, const string& na, const string& nb) {
		typedef typename El<A>::type E; auto x = elems(a); auto y = elems(b); int n = x.size();
		switch (w.r.pick(5)) {
			case 0: effect(w, na + " += " + nb, a, [&] { a += b; }, LIST(n, (x[i] += y[i], x[i]))); break;
			case 1: effect(w, na + " -= " + nb, a, [&] { a -= b; }, LIST(n, (x[i] -= y[i], x[i]))); break;
			case 2: effect(w, na + " = " + nb, a, [&] { a = b; }, LIST(n, (x[i] = y[i], x[i]))); break;
			case 3: effect(w, na + " = itself + " + nb, a, [&] { a = a + b; }, LIST(n, (x[i] = x[i] + y[i], x[i]))); break;
			case 4: effect(w, na + " = " + nb + " - itself", a, [&] { a = b - a; }, LIST(n, (x[i] = y[i] - x[i], x[i]))); break;
		}
	}
	template<class A, class B> static void mm(World& w, A& a, const B& b, const string& na, const string& nb) {
		auto x = grid(a); auto y = grid(b); int n = x.r, c = x.c;
		switch (w.r.pick(4)) {
			case 0: effect(w, na + " += " + nb, a, [&] { a += b; }, GRID(n, c, (x(i, j) += y(i, j), x(i, j)))); break;
			case 1: effect(w, na + " -= " + nb, a, [&] { a -= b; }, GRID(n, c, (x(i, j) -= y(i, j), x(i, j)))); break;
			case 2: effect(w, na + " = " + nb, a, [&] { a = b; }, GRID(n, c, (x(i, j) = y(i, j), x(i, j)))); break;
			case 3: { auto p = product(x, y); effect(w, na + " = itself * " + nb, a, [&] { a = a * b; }, GRID(n, c, (x(i, j) = p(i, j), x(i, j)))); break; }
		}
	}
	template<class X, class Y> static auto product(const X& x, const Y& y) -> Grid<typename Plain<decltype(x(0, 0) * y(0, 0))>::type> { typedef typename Plain<decltype(x(0, 0) * y(0, 0))>::type T; Grid<T> g(x.r, y.c); for (int i = 0; i < x.r; i++) for (int j = 0; j < y.c; j++) { T s = 0; for (int k = 0; k < x.c; k++) s += x(i, k) * y(k, j); g(i, j) = s; } return g; }
};
struct NoAssign { template<class A, class B> static void vv(World&, A&, const B&, const string&, const string&) {} template<class A, class B> static void mm(World&, A&, const B&, const string&, const string&) {} };

template<class A, class B> auto dot(const A& x, const B& y) -> typename Plain<decltype(x[0] * y[0])>::type { typename Plain<decltype(x[0] * y[0])>::type s = 0; for (size_t i = 0; i < x.size(); i++) s += x[i] * y[i]; return s; }
template<class A, class B> bool cross(World& w, const A&, const B&, const string&) { return false; }
template<class P, class B1, class Q, class B2> bool cross(World& w, const Vector<3, P, B1>& a, const Vector<3, Q, B2>& b, const string& what) { auto x = elems(a); auto y = elems(b); value(w, what, [&] { return a ^ b; }, LIST(3, x[(i + 1) % 3] * y[(i + 2) % 3] - x[(i + 2) % 3] * y[(i + 1) % 3])); w.r.probe("cross_product"); return true; }
template<class A, class B> void vectors(World& w, A& a, B& b, const string& na, const string& nb) {
	typedef typename El<A>::type E; typedef typename El<B>::type F; auto x = elems(a); auto y = elems(b); int n = x.size(); string p = na + ", " + nb + ": ";
	switch (w.r.pick(11)) {
		case 0: value(w, p + "a + b", [&] { return a + b; }, LIST(n, x[i] + y[i])); break;
		case 1: value(w, p + "a - b", [&] { return a - b; }, LIST(n, x[i] - y[i])); break;
		case 2: value(w, p + "a * b", [&] { return a * b; }, flat(dot(x, y))); break;
		case 3: value(w, p + "diagmult(a, b)", [&] { return diagmult(a, b); }, LIST(n, x[i] * y[i])); break;
		case 4: if (cross(w, a, b, p + "a ^ b")) break;
		case 5: value(w, p + "a.as_col() * b.as_row()", [&] { return a.as_col() * b.as_row(); }, GRID(n, n, x[i] * y[j])); break;
		case 6: value(w, p + "a.as_diagonal() * b", [&] { return a.as_diagonal() * b; }, LIST(n, x[i] * y[i])); break;
		case 7: value(w, p + "-a - (b - a) + b", [&] { return -a - (b - a) + b; }, LIST(n, -x[i] - (y[i] - x[i]) + y[i])); break;
		case 8: { bool eq = true; for (int i = 0; i < n; i++) if (x[i] != y[i]) eq = false; value(w, p + "a == b", [&] { return a == b; }, flat(eq)); value(w, p + "a != b", [&] { return a != b; }, flat(!eq)); break; }
		default: std::conditional<Storable<E, F>::value, Assign, NoAssign>::type::vv(w, a, b, na, nb);
	}
}
template<class A, class B> void matrices(World& w, A& a, B& b, const string& na, const string& nb) {
	typedef typename Em<A>::type E; typedef typename Em<B>::type F; auto x = grid(a); auto y = grid(b); int n = x.r; string p = na + ", " + nb + ": ";
	switch (w.r.pick(10)) {
		case 0: value(w, p + "a + b", [&] { return a + b; }, GRID(n, n, x(i, j) + y(i, j))); break;
		case 1: value(w, p + "a - b", [&] { return a - b; }, GRID(n, n, x(i, j) - y(i, j))); break;
		case 2: { auto q = Assign::product(x, y); value(w, p + "a * b", [&] { return a * b; }, GRID(n, n, q(i, j))); break; }
		case 3: { Grid<F> t(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) t(i, j) = y(j, i); auto q = Assign::product(x, t); value(w, p + "a * b.T()", [&] { return a * b.T(); }, GRID(n, n, q(i, j))); break; }
		case 4: { bool eq = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (x(i, j) != y(i, j)) eq = false; value(w, p + "a == b", [&] { return a == b; }, flat(eq)); value(w, p + "a != b", [&] { return a != b; }, flat(!eq)); break; }
		case 5: value(w, p + "a.T() - b.T()", [&] { return a.T() - b.T(); }, GRID(n, n, x(j, i) - y(j, i))); break;
		case 6: value(w, p + "diagonal of a times b", [&] { return a.diagonal_slice() * b.diagonal_slice(); }, [&] { typedef typename Plain<decltype(x(0, 0) * y(0, 0))>::type T; T s = 0; for (int i = 0; i < n; i++) s += x(i, i) * y(i, i); return flat(s); }()); break;
		default: std::conditional<Storable<E, F>::value, Assign, NoAssign>::type::mm(w, a, b, na, nb);
	}
}
template<class A, class B> void matrix_vector(World& w, A& a, B& b, const string& na, const string& nb) {
	auto x = grid(a); auto y = elems(b); int n = x.r; string p = na + ", " + nb + ": ";
	switch (w.r.pick(7)) {
		case 0: value(w, p + "M * v", [&] { return a * b; }, [&] { typedef typename Plain<decltype(x(0, 0) * y[0])>::type T; L o; for (int i = 0; i < n; i++) { T s = 0; for (int j = 0; j < n; j++) s += x(i, j) * y[j]; o.push_back(up(s)); } return o; }()); break;
		case 1: value(w, p + "v * M", [&] { return b * a; }, [&] { typedef typename Plain<decltype(y[0] * x(0, 0))>::type T; L o; for (int i = 0; i < n; i++) { T s = 0; for (int j = 0; j < n; j++) s += y[j] * x(j, i); o.push_back(up(s)); } return o; }()); break;
		case 2: value(w, p + "diagmult(M, v)", [&] { return diagmult(a, b); }, GRID(n, n, x(i, j) * y[j])); break;
		case 3: value(w, p + "diagmult(v, M)", [&] { return diagmult(b, a); }, GRID(n, n, y[i] * x(i, j))); break;
		case 4: value(w, p + "v.as_diagonal() * M", [&] { return b.as_diagonal() * a; }, GRID(n, n, y[i] * x(i, j))); break;
		case 5: value(w, p + "M * v.as_diagonal()", [&] { return a * b.as_diagonal(); }, GRID(n, n, x(i, j) * y[j])); break;
		case 6: { typedef typename Plain<decltype(x(0, 0) * y[0])>::type T; T s = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) s += y[i] * x(i, j) * y[j]; value(w, p + "v * M * v", [&] { return b * a * b; }, flat(s)); break; }
	}
}
template<class A, class B> void rectangles(World& w, A& a, B& b, const string& what) { auto x = grid(a); auto y = grid(b); auto q = Assign::product(x, y); value(w, what + ": a * b", [&] { return a * b; }, GRID(x.r, y.c, q(i, j))); auto q2 = Assign::product(y, x); value(w, what + ": b * a", [&] { return b * a; }, GRID(y.r, x.c, q2(i, j))); }

// ------------------------------------------------------------------------------------------------------ with scalars
struct SameType { template<class A, class S> static void v(World& w, A& a, const S& s, const string& p) { typedef typename El<A>::type E; auto x = elems(a); int n = x.size(); if (!fits<E>(s)) return;
		switch (w.r.pick(4)) { case 0: effect(w, p + "a *= s", a, [&] { a *= s; }, LIST(n, x[i] * E(s))); break; case 1: if (E(s) != E(0)) effect(w, p + "a /= s", a, [&] { a /= s; }, LIST(n, x[i] / E(s)), Div<E>::tol()); break;
			case 2: { int k = w.r.pick(n); E t = x[k]; effect(w, p + fmt("a *= a[%d]", k), a, [&] { a *= a[k]; }, LIST(n, x[i] * t)); w.r.probe("scalar_is_an_element"); break; } case 3: { int k = w.r.pick(n); E t = x[k]; if (t != E(0)) effect(w, p + fmt("a /= a[%d]", k), a, [&] { a /= a[k]; }, LIST(n, x[i] / t), Div<E>::tol()); w.r.probe("scalar_is_an_element"); break; } } }
	template<class A, class S> static void m(World& w, A& a, const S& s, const string& p) { typedef typename Em<A>::type E; auto x = grid(a); int n = x.r; if (!fits<E>(s)) return;
		switch (w.r.pick(4)) { case 0: effect(w, p + "a *= s", a, [&] { a *= s; }, GRID(n, n, x(i, j) * E(s))); break; case 1: if (E(s) != E(0)) effect(w, p + "a /= s", a, [&] { a /= s; }, GRID(n, n, x(i, j) / E(s)), Div<E>::tol()); break;
			case 2: { int k = w.r.pick(n), l = w.r.pick(n); E t = x(k, l); effect(w, p + fmt("a *= a(%d,%d)", k, l), a, [&] { a *= a(k, l); }, GRID(n, n, x(i, j) * t)); w.r.probe("scalar_is_an_element"); break; } case 3: { int k = w.r.pick(n), l = w.r.pick(n); E t = x(k, l); if (t != E(0)) effect(w, p + fmt("a /= a[%d][%d]", k, l), a, [&] { a /= a[k][l]; }, GRID(n, n, x(i, j) / t), Div<E>::tol()); break; } } } };
struct OtherType { template<class A, class S> static void v(World&, A&, const S&, const string&) {} template<class A, class S> static void m(World&, A&, const S&, const string&) {} };
template<class A, class S> void scaled(World& w, A& a, const S& s, const string& na) {
	typedef typename El<A>::type E; auto x = elems(a); int n = x.size(); string p = na + fmt(", s = %s(%g%+gi): ", Name<S>::s(), up(s).real(), up(s).imag());
	switch (w.r.pick(5)) {
		case 0: value(w, p + "a * s", [&] { return a * s; }, LIST(n, x[i] * s)); break;
		case 1: value(w, p + "s * a", [&] { return s * a; }, LIST(n, s * x[i])); break;
		case 2: if (s != S(0)) value(w, p + "a / s", [&] { return a / s; }, LIST(n, x[i] / s), dtol(x[0] / s)); break;
		case 3: value(w, p + "s * a * s - a", [&] { return s * a * s - a; }, LIST(n, s * x[i] * s - x[i])); break;
		default: std::conditional<Storable<E, S>::value, SameType, OtherType>::type::v(w, a, s, p);
	}
}
template<class A, class S> void scaled_m(World& w, A& a, const S& s, const string& na) {
	typedef typename Em<A>::type E; auto x = grid(a); int n = x.r; string p = na + fmt(", s = %s(%g%+gi): ", Name<S>::s(), up(s).real(), up(s).imag());
	switch (w.r.pick(5)) {
		case 0: value(w, p + "a * s", [&] { return a * s; }, GRID(n, n, x(i, j) * s)); break;
		case 1: value(w, p + "s * a", [&] { return s * a; }, GRID(n, n, s * x(i, j))); break;
		case 2: if (s != S(0)) value(w, p + "a / s", [&] { return a / s; }, GRID(n, n, x(i, j) / s), dtol(x(0, 0) / s)); break;
		case 3: value(w, p + "s * a.T()", [&] { return s * a.T(); }, GRID(n, n, s * x(j, i))); break;
		default: std::conditional<Storable<E, S>::value, SameType, OtherType>::type::m(w, a, s, p);
	}
}
// ------------------------------------------------------------------------------- Ones, Zeros and Identity, and scaled
template<class A, class S, class T> void ones(World& w, A& a, const S& s, const T& t, const string& na) {
	typedef typename El<A>::type E; auto x = elems(a); int n = x.size(); string p = na + fmt(", s = %s(%g), t = %s(%g): ", Name<S>::s(), (double)s, Name<T>::s(), (double)t); bool ok = fits<E>(s); auto q = s / t, m = s * t; 
	switch (w.r.pick(14)) {
		case 0: value(w, p + "a + Ones", [&] { return a + Ones; }, LIST(n, x[i] + E(1))); break;
		case 1: value(w, p + "a - Ones", [&] { return a - Ones; }, LIST(n, x[i] - E(1))); break;
		case 2: value(w, p + "Ones - a", [&] { return Ones - a; }, LIST(n, E(1) - x[i])); break;
		case 3: value(w, p + "a + Ones*s", [&] { return a + Ones * s; }, LIST(n, x[i] + s)); break;
		case 4: value(w, p + "a - s*Ones", [&] { return a - s * Ones; }, LIST(n, x[i] - s)); break;
		case 5: value(w, p + "Ones*s - a", [&] { return Ones * s - a; }, LIST(n, s - x[i])); break;
		case 6: value(w, p + "s*Ones + a", [&] { return s * Ones + a; }, LIST(n, s + x[i])); break;
		case 7: value(w, p + "a + Ones*s/t", [&] { return a + Ones * s / t; }, LIST(n, x[i] + q), dtol(x[0] + q)); break;
		case 8: value(w, p + "a - t*(Ones*s)", [&] { return a - t * (Ones * s); }, LIST(n, x[i] - m)); break;
		case 9: if (ok) effect(w, p + "a += Ones*s", a, [&] { a += Ones * s; }, LIST(n, x[i] + E(s))); break;
		case 10: if (ok) effect(w, p + "a -= Ones*s", a, [&] { a -= Ones * s; }, LIST(n, x[i] - E(s))); break;
		case 11: if (ok) effect(w, p + "a = Ones*s", a, [&] { a = Ones * s; }, LIST(n, E(s))); else effect(w, p + "a = -Ones", a, [&] { a = -Ones; }, LIST(n, E(-1))); break;
		case 12: effect(w, p + "a = Zeros", a, [&] { a = Zeros; }, LIST(n, E(0))); break;
		case 13: if (ok) value(w, p + "Vector<> of -(Ones(n)*s)", [&] { return Vector<Dynamic, E>(-(Ones(n) * s)); }, LIST(n, E(-s))); value(w, p + "Vector<> of Ones(n)*s/t", [&] { return Vector<Dynamic, decltype(q)>(Ones(n) * s / t); }, LIST(n, q), dtol(q)); value(w, p + "Vector<> of Zeros(n)", [&] { return Vector<Dynamic, E>(Zeros(n)); }, LIST(n, E(0))); break;
	}
}
template<class A, class S, class T> void ones_m(World& w, A& a, const S& s, const T& t, const string& na) {
	typedef typename Em<A>::type E; auto x = grid(a); int n = x.r, c = w.r.range(1, 4); string p = na + fmt(", s = %s(%g), t = %s(%g): ", Name<S>::s(), (double)s, Name<T>::s(), (double)t); bool ok = fits<E>(s); auto q = s / t, m = s * t; decltype(s + x(0, 0)) zero = 0;
	switch (w.r.pick(18)) {
		case 0: value(w, p + "a + Identity", [&] { return a + Identity; }, GRID(n, n, x(i, j) + E(i == j))); break;
		case 1: value(w, p + "a - Identity", [&] { return a - Identity; }, GRID(n, n, x(i, j) - E(i == j))); break;
		case 2: value(w, p + "Identity - a", [&] { return Identity - a; }, GRID(n, n, E(i == j) - x(i, j))); break;
		case 3: value(w, p + "a + Identity*s", [&] { return a + Identity * s; }, GRID(n, n, x(i, j) + (i == j ? s : S(0)))); break;
		case 4: value(w, p + "a - s*Identity", [&] { return a - s * Identity; }, GRID(n, n, x(i, j) - (i == j ? s : S(0)))); break;
		case 5: value(w, p + "Identity*s - a", [&] { return Identity * s - a; }, GRID(n, n, (i == j ? s : S(0)) - x(i, j))); break;
		case 6: value(w, p + "a.T() + Identity*s/t", [&] { return a.T() + Identity * s / t; }, GRID(n, n, x(j, i) + (i == j ? q : decltype(q)(0))), dtol(x(0, 0) + q)); break;
		case 7: value(w, p + "a + Ones*s", [&] { return a + Ones * s; }, GRID(n, n, x(i, j) + s)); break;
		case 8: value(w, p + "a - Ones*s", [&] { return a - Ones * s; }, GRID(n, n, x(i, j) - s)); value(w, p + "a - Ones", [&] { return a - Ones; }, GRID(n, n, x(i, j) - E(1))); break;
		case 9: value(w, p + "Ones*s - a", [&] { return Ones * s - a; }, GRID(n, n, s - x(i, j))); break;
		case 10: if (ok) effect(w, p + "a += Identity*s", a, [&] { a += Identity * s; }, GRID(n, n, x(i, j) + (i == j ? E(s) : E(0)))); break;
		case 11: if (ok) effect(w, p + "a += Ones*s", a, [&] { a += Ones * s; }, GRID(n, n, x(i, j) + E(s))); break;
		case 12: if (ok) effect(w, p + "a -= Ones*s", a, [&] { a -= Ones * s; }, GRID(n, n, x(i, j) - E(s))); break;
		case 13: if (ok) effect(w, p + "a = Identity*s", a, [&] { a = Identity * s; }, GRID(n, n, i == j ? E(s) : E(0))); else effect(w, p + "a = Identity", a, [&] { a = Identity; }, GRID(n, n, E(i == j))); break;
		case 14: if (ok) effect(w, p + "a = Ones*s", a, [&] { a = Ones * s; }, GRID(n, n, E(s))); else effect(w, p + "a = Zeros", a, [&] { a = Zeros; }, GRID(n, n, E(0))); break;
		case 15: value(w, p + "Matrix<> of Identity(n)*s/t", [&] { return Matrix<Dynamic, Dynamic, decltype(q)>(Identity(n) * s / t); }, GRID(n, n, i == j ? q : decltype(q)(0)), dtol(q)); if (ok) value(w, p + "Matrix<> of -(Identity*s)(n)", [&] { return Matrix<Dynamic, Dynamic, E>((-(Identity * s))(n)); }, GRID(n, n, i == j ? E(-s) : E(0))); break;
		case 16: value(w, p + "Matrix<> of Ones(n,c)*s/t", [&] { return Matrix<Dynamic, Dynamic, decltype(q)>(Ones(n, c) * s / t); }, GRID(n, c, q), dtol(q)); if (ok) value(w, p + "Matrix<> of s*Ones(c,n)", [&] { return Matrix<Dynamic, Dynamic, E>(s * Ones(c, n)); }, GRID(c, n, E(s))); value(w, p + "Matrix<> of Zeros(n,c)", [&] { return Matrix<Dynamic, Dynamic, E>(Zeros(n, c)); }, GRID(n, c, E(0))); break;
		case 17: value(w, p + "Ones*s + a + Identity*t", [&] { return Ones * s + a + Identity * t; }, GRID(n, n, s + x(i, j) + (i == j ? t : T(0)))); break;
	}
}
// ------------------------------------------------------------------------------------------------------ one operand
template<class E> struct Real { enum { value = 1 }; }; template<> struct Real<C> { enum { value = 0 }; };
template<class A> void alone_any(World& w, A& a, const string& na) { auto x = elems(a); int n = x.size(); typedef typename El<A>::type E; switch (w.r.pick(3)) { case 2: { bool one = w.r.pick(4); for (int i = 0; i < n; i++) a[i] = E(0); if (one) a[w.r.pick(n)] = E(1); value(w, na + ": a != Zeros", [&] { const A& k = a; return k != Zeros; }, flat(one)); for (int i = 0; i < n; i++) a[i] = x[i]; break; } case 0: value(w, na + ": -a", [&] { return -a; }, LIST(n, -x[i])); break; case 1: value(w, na + ": norm_sq(a)", [&] { return norm_sq(a); }, flat(dot(x, x))); break; } }
template<class A> void alone_any_m(World& w, A& a, const string& na) {
	typedef typename Em<A>::type E; auto x = grid(a); int n = x.r; switch (w.r.pick(5)) { case 4: { bool one = w.r.pick(4); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a(i, j) = E(0); if (one) a(w.r.pick(n), w.r.pick(n)) = E(1); value(w, na + ": a != Zeros", [&] { const A& k = a; return k != Zeros; }, flat(one)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a(i, j) = x(i, j); break; } case 0: value(w, na + ": -a", [&] { return -a; }, GRID(n, n, -x(i, j))); break; case 1: { E t = 0; for (int i = 0; i < n; i++) t += x(i, i); value(w, na + ": trace(a)", [&] { return trace(a); }, flat(t)); break; } case 2: value(w, na + ": a.T()", [&] { return a.T(); }, GRID(n, n, x(j, i))); break; case 3: effect(w, na + ": diagonal += diagonal", a, [&] { a.diagonal_slice() += a.diagonal_slice(); }, GRID(n, n, i == j ? x(i, j) + x(i, j) : x(i, j))); break; } }
template<class E> static double mag(E x) { return x < 0 ? -(double)x : (double)x; }
template<class A> void do_normalize(A& a) { normalize(a.as_slice()); }
template<class P> void do_normalize(Vector<3, P>& a) { normalize(a); } template<class P> void do_normalize(Vector<Dynamic, P>& a) { normalize(a); } 
template<class A> void projections(World& w, A& a, const string& na) { typedef typename El<A>::type E; auto x = elems(a); int n = x.size(); double e = std::numeric_limits<E>::epsilon(); if (n > 1 && x[n - 1]) value(w, na + ": project(a)", [&] { return project(a); }, LIST(n - 1, x[i] / x[n - 1]), 4 * e); value(w, na + ": unproject(a)", [&] { return unproject(a); }, LIST(n + 1, i < n ? x[i] : E(1))); value(w, na + ": project(unproject(a))", [&] { return project(unproject(a)); }, LIST(n, x[i])); }
template<class E> void projections(World&, Vector<Resizable, E>&, const string&) {}
struct Fraction {   // needs a type with fractions
	template<class A> static void v(World& w, A& a, const string& na) {
		typedef typename El<A>::type E; auto x = elems(a); int n = x.size(); double ss = 0, e = std::numeric_limits<E>::epsilon(); for (E q : x) ss += (double)q * q; double h = std::sqrt(ss);
		switch (w.r.pick(6)) {
			case 0: value(w, na + ": norm(a)", [&] { return norm(a); }, flat((E)h), 4 * e); value(w, na + ": norm_2(a)", [&] { return norm_2(a); }, flat((E)h), 4 * e); break;
			case 1: if (h) value(w, na + ": unit(a)", [&] { return unit(a); }, LIST(n, x[i] / h), 8 * e); break;
			case 2: if (h) { effect(w, na + ": normalize(a)", a, [&] { do_normalize(a); }, LIST(n, x[i] / h), 8 * e); } break;
			case 3: projections(w, a, na); break;
			case 4: { E old = a[w.r.pick(n)]; int k = w.r.pick(n); E keep = a[k]; const E bad[] = { std::numeric_limits<E>::quiet_NaN(), std::numeric_limits<E>::infinity(), -std::numeric_limits<E>::infinity(), keep }; int b = w.r.pick(4); a[k] = bad[b]; value(w, na + ": isnan", [&] { return TooN::isnan(a); }, flat(b == 0)); value(w, na + ": isfinite", [&] { return TooN::isfinite(a); }, flat(b == 3)); a[k] = keep; break; }
			default: { projections(w, a, na); Matrix<2, Dynamic, E> h(2, n); for (int i = 0; i < n; i++) { h(0, i) = x[i]; h(1, i) = x[n - 1 - i]; } value(w, na + ": unproject(Matrix<2,Dynamic> of it and its reverse)", [&] { return unproject(h); }, GRID(3, n, i == 0 ? x[j] : i == 1 ? x[n - 1 - j] : E(1))); break; }
		}
	}
	template<class A> static void m(World& w, A& a, const string& na) {
		typedef typename Em<A>::type E; auto x = grid(a); int n = x.r; double ss = 0, e = std::numeric_limits<E>::epsilon(); for (E q : x.a) ss += (double)q * q;
		switch (w.r.pick(5)) {
			case 0: value(w, na + ": norm_fro(a)", [&] { return norm_fro(a); }, flat((E)std::sqrt(ss)), 4 * e); break;
			case 1: effect(w, na + ": Symmetrize(a)", a, [&] { Symmetrize(a); }, GRID(n, n, i == j ? x(i, j) : (x(i, j) + x(j, i)) / 2), 4 * e); break;
			case 2: { bool ok = n > 1; for (int j = 0; j < n; j++) if (!x(n - 1, j)) ok = false; if (ok) value(w, na + ": project(a)", [&] { return project(a); }, GRID(n - 1, n, x(i, j) / x(n - 1, j)), 4 * e); break; }
			case 3: value(w, na + ": unproject(a)", [&] { return unproject(a); }, GRID(n + 1, n, i < n ? x(i, j) : E(1))); break;
			case 4: { int k = w.r.pick(n), l = w.r.pick(n); E keep = a(k, l); bool bad = w.r.pick(2); if (bad) a(k, l) = std::numeric_limits<E>::quiet_NaN(); value(w, na + ": isnan", [&] { return TooN::isnan(a); }, flat(bad)); a(k, l) = keep; break; }
		}
	}
};
struct Nothing { template<class A> static void v(World& w, A& a, const string& na) { alone_any(w, a, na); } template<class A> static void m(World& w, A& a, const string& na) { alone_any_m(w, a, na); } };
// the index may be that of any element with the extreme value
template<class P> void element(World& w, const string& what, const P& got, int n, const std::function<double(int)>& at, double want) { if ((double)got.first != want || got.second < 0 || got.second >= n || at(got.second) != want) w.r.fail("wrong", "%s gives %g at %d", what.c_str(), (double)got.first, (int)got.second); }
struct Ordered {
	template<class A> static void v(World& w, A& a, const string& na) {
		typedef typename El<A>::type E; auto x = elems(a); int n = x.size(); E lo = *std::min_element(x.begin(), x.end()), hi = *std::max_element(x.begin(), x.end()); E s = 0, m = 0; for (E q : x) { s += mag(q); m = std::max<E>(m, mag(q)); }
		switch (w.r.pick(4)) {
			case 0: value(w, na + ": min_value", [&] { return min_value(a); }, flat(lo)); value(w, na + ": max_value", [&] { return max_value(a); }, flat(hi)); break;
			case 1: element(w, na + ": min_element", min_element(a), n, [&](int i) { return (double)x[i]; }, lo); element(w, na + ": max_element", max_element(a), n, [&](int i) { return (double)x[i]; }, hi); break;
			case 2: value(w, na + ": norm_1(a)", [&] { return norm_1(a); }, flat(s)); value(w, na + ": norm_inf(a)", [&] { return norm_inf(a); }, flat(m)); break;
			default: std::conditional<std::numeric_limits<E>::is_integer, Nothing, Fraction>::type::v(w, a, na);
		}
	}
	template<class A> static void m(World& w, A& a, const string& na) {
		typedef typename Em<A>::type E; auto x = grid(a); int n = x.r; E lo = *std::min_element(x.a.begin(), x.a.end()), hi = *std::max_element(x.a.begin(), x.a.end()); L rlo(n), rhi(n), clo(n), chi(n); E ri = 0, ci = 0;
		for (int i = 0; i < n; i++) { E a1 = x(i, 0), a2 = a1, b1 = x(0, i), b2 = b1, rs = 0, cs = 0; for (int j = 0; j < n; j++) { a1 = std::min(a1, x(i, j)); a2 = std::max(a2, x(i, j)); b1 = std::min(b1, x(j, i)); b2 = std::max(b2, x(j, i)); rs += mag(x(i, j)); cs += mag(x(j, i)); } rlo[i] = a1; rhi[i] = a2; clo[i] = b1; chi[i] = b2; ri = std::max(ri, rs); ci = std::max(ci, cs); }
		auto where = [&](const std::pair<E, std::pair<int, int>>& p, E want, const char* what) { int i = p.second.first, j = p.second.second; if (p.first != want || i < 0 || j < 0 || i >= n || j >= n || x(i, j) != want) w.r.fail("wrong", "%s: %s gives %g at (%d,%d)", na.c_str(), what, (double)p.first, i, j); };
		auto lines = [&](const std::pair<Vector<Dynamic, E>, Vector<Dynamic, E>>& p, const L& want, bool row, const char* what) { expect(w, na + ": " + what, flat(p.first), want, 0); if (p.second.size() != n) w.r.fail("wrong", "%s: %d indices", what, p.second.size()); for (int i = 0; i < n; i++) { int k = (int)p.second[i]; if (k < 0 || k >= n || up(row ? x(i, k) : x(k, i)) != want[i]) w.r.fail("wrong", "%s: %s gives index %d in line %d", na.c_str(), what, k, i); } };
		switch (w.r.pick(6)) {
			case 0: value(w, na + ": min_value", [&] { return min_value(a); }, flat(lo)); value(w, na + ": max_value", [&] { return max_value(a); }, flat(hi)); where(min_element(a), lo, "min_element"); where(max_element(a), hi, "max_element"); break;
			case 1: value(w, na + ": min_value_vertical", [&] { return min_value_vertical(a); }, clo); value(w, na + ": max_value_vertical", [&] { return max_value_vertical(a); }, chi); break;
			case 2: value(w, na + ": min_value_horizontal", [&] { return min_value_horizontal(a); }, rlo); value(w, na + ": max_value_horizontal", [&] { return max_value_horizontal(a); }, rhi); break;
			case 3: lines(min_element_vertical(a), clo, false, "min_element_vertical"); lines(max_element_vertical(a), chi, false, "max_element_vertical"); lines(min_element_horizontal(a), rlo, true, "min_element_horizontal"); lines(max_element_horizontal(a), rhi, true, "max_element_horizontal"); break;
			case 4: value(w, na + ": norm_inf(a)", [&] { return norm_inf(a); }, flat(ri)); value(w, na + ": norm_1(a)", [&] { return norm_1(a); }, flat(ci)); break;
			default: std::conditional<std::numeric_limits<E>::is_integer, Nothing, Fraction>::type::m(w, a, na);
		}
	}
};
template<class E> void crossmat(World& w, std::true_type) { auto& v = of<E>(w).v3; auto x = elems(v); value(w, "cross_product_matrix", [&] { return cross_product_matrix(v); }, GRID(3, 3, i == j ? E(0) : (j - i + 3) % 3 == 1 ? -x[3 - i - j] : x[3 - i - j])); value(w, "makeVector", [&] { return makeVector(x[0], x[1], x[2], x[1]); }, LIST(4, x[i == 3 ? 1 : i])); }
template<class E> void crossmat(World&, std::false_type) {}
inline void inverse2(World& w) { auto& b = w.d.md; if (w.n < 2) return; Matrix<2> m = b.slice<0, 0, 2, 2>(); double det = m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0); if (!det) return; value(w, "inv", [&] { return inv(m); }, LIST(4, (i == 0 ? m(1, 1) : i == 3 ? m(0, 0) : i == 1 ? -m(0, 1) : -m(1, 0)) / det), 1e-15); }

template<class E, class F> void pair_step(World& w) {
	switch (w.r.pick(8)) {
		case 0: case 1: case 2: any_vector<E>(w, [&](auto& a, const string& na) { any_vector_right<F>(w, [&](auto& b, const string& nb) { vectors(w, a, b, na, nb); }); }); break;
		case 3: case 4: any_matrix<E>(w, [&](auto& a, const string& na) { any_matrix_right<F>(w, [&](auto& b, const string& nb) { matrices(w, a, b, na, nb); }); }); break;
		case 5: case 6: any_matrix_right<E>(w, [&](auto& a, const string& na) { any_vector_right<F>(w, [&](auto& b, const string& nb) { matrix_vector(w, a, b, na, nb); }); }); break;
		case 7: { auto& a = of<E>(w); auto& b = of<F>(w); if (w.r.pick(2)) rectangles(w, a.m24, b.m42, fmt("Matrix<2,4,%s>, Matrix<4,2,%s>", Name<E>::s(), Name<F>::s())); else { auto t = a.m42.T(); auto u = b.m24.T(); rectangles(w, t, u, fmt("Matrix<4,2,%s>.T(), Matrix<2,4,%s>.T()", Name<E>::s(), Name<F>::s())); } break; }
	}
}
template<class E, class S> void scalar_step(World& w) { S s; draw(w.r, s); if (w.r.pick(2)) any_vector<E>(w, [&](auto& a, const string& na) { scaled(w, a, s, na); }); else any_matrix<E>(w, [&](auto& a, const string& na) { scaled_m(w, a, s, na); }); }
template<class E, class S, class T> void ones_step(World& w) { S s; T t; draw(w.r, s); t = T(1 << w.r.pick(3)); if (w.r.pick(4) == 3) t = -t; if (w.r.pick(2)) any_vector<E>(w, [&](auto& a, const string& na) { ones(w, a, s, t, na); }); else any_matrix<E>(w, [&](auto& a, const string& na) { ones_m(w, a, s, t, na); }); }
template<class E> void alone_step(World& w) { typedef typename std::conditional<Real<E>::value, Ordered, Nothing>::type O; switch (w.r.pick(6)) { case 0: any_vector<E>(w, [&](auto& a, const string& na) { alone_any(w, a, na); }); break; case 1: any_matrix<E>(w, [&](auto& a, const string& na) { alone_any_m(w, a, na); }); break; case 2: case 3: any_vector<E>(w, [&](auto& a, const string& na) { O::v(w, a, na); }); break; case 4: any_matrix<E>(w, [&](auto& a, const string& na) { O::m(w, a, na); }); break; case 5: crossmat<E>(w, std::integral_constant<bool, Real<E>::value>()); if (std::is_same<E, double>::value) inverse2(w); break; } }
#define PAIR_STEP(E, f) void f(World& w) { switch (w.r.pick(3)) { case 0: return pair_step<E, int>(w); case 1: return pair_step<E, float>(w); default: return pair_step<E, double>(w); } }
#define REST_STEP(E, f) void f(World& w) { switch (w.r.pick(3)) { case 0: switch (w.r.pick(3)) { case 0: return scalar_step<E, int>(w); case 1: return scalar_step<E, float>(w); default: return scalar_step<E, double>(w); } case 1: switch (w.r.pick(3)) { case 0: return w.r.pick(2) ? ones_step<E, int, int>(w) : ones_step<E, int, double>(w); case 1: return ones_step<E, float, int>(w); default: return ones_step<E, double, double>(w); } default: return alone_step<E>(w); } }
#if PART == 1
PAIR_STEP(int, pair_int)
#elif PART == 2
PAIR_STEP(float, pair_float)
#elif PART == 3
PAIR_STEP(double, pair_double)
#elif PART == 4
void step_complex(World& w) { switch (w.r.pick(5)) { case 0: return pair_step<C, C>(w); case 1: return pair_step<C, double>(w); case 2: return scalar_step<C, C>(w); case 3: return scalar_step<C, double>(w); default: return alone_step<C>(w); } }
#elif PART == 5
REST_STEP(int, rest_int)
#elif PART == 6
REST_STEP(float, rest_float)
#elif PART == 7
REST_STEP(double, rest_double)
#endif
#else
void pair_int(World&); void pair_float(World&); void pair_double(World&); void step_complex(World&); void rest_int(World&); void rest_float(World&); void rest_double(World&);
static void expressions(Run& r) {
	heap::begin_epoch(); { World w(r, r.pick(2) ? 3 : r.extent(1, 5, 17)); w.junk = mix64(1 + r.pick_from(S_FAULT, 1000)); refill(r, w.i); refill(r, w.f); refill(r, w.d); refill(r, w.c); r.set_ops(r.range(5, 60)); r.log("size %d", w.n);
	while (r.next_op()) { if (r.pick(24) == 23) { refill(r, w.i); refill(r, w.f); refill(r, w.d); refill(r, w.c); } switch (r.pick(4)) { case 0: r.pick(4) ? rest_double(w) : pair_double(w); break; case 1: r.pick(4) ? rest_int(w) : pair_int(w); break; case 2: r.pick(4) ? rest_float(w) : pair_float(w); break; case 3: step_complex(w); break; } } }
	if (heap::live_blocks()) r.fail("leak", "%ld heap blocks left", heap::live_blocks()); if (heap::misuse) r.fail("heap-misuse", "%s", heap::misuse);
}
static Register c24("C24", expressions, "operators.hh objects.h diagmatrix.h helpers.h make_vector.hh, vectors and matrices of all storage classes", "heap (seeded failures and garbage), stack garbage, abort", "a run with a fault is one with a failed allocation");
#endif
