// C25: every way to give an object its elements at once: makeVector, Data, Fill, initializer lists, arrays, named elements,
// wrapped memory and planar complex numbers.
//
// A run draws a list of values, a number of them and a destination, and initialises the destination with them while
// allocations fail, the element type throws at a seeded operation, and heap and stack hold seeded garbage. Afterwards every
// element is the one given; if the initialisation was cut short, every element is the one given or the one before, and
// nothing is left behind.
#include "sim.h"
#include "scalar.h"
#include <TooN/TooN.h>
#include <TooN/named_elements.h>
#include <TooN/internal/planar_complex.hh>
#include <complex>
#include <utility>
using namespace sim; using namespace TooN;
using std::vector; using std::string; using std::complex;
typedef complex<double> C;
TOON_MAKE_NAMED_ELEMENT_VECTOR(Quad, w, x, y, z)
TOON_MAKE_NAMED_ELEMENT_VECTOR(Pair, first, second)
TOON_MAKE_NAMED_ELEMENT_VECTOR(Nine, a, b, c, d, e, f, g, h, i)

inline void set(Num& a, int k) { a.v = k / 4.0; } inline void set(int& a, int k) { a = k; } inline void set(float& a, int k) { a = k / 4.0f; } inline void set(double& a, int k) { a = k / 4.0; } inline void set(C& a, int k) { a = C(k / 4.0, k % 7 / 2.0); }
inline bool eq(const Num& a, const Num& b) { return a.v == b.v; } inline bool eq(int a, int b) { return a == b; } inline bool eq(float a, float b) { return a == b; } inline bool eq(double a, double b) { return a == b; } inline bool eq(const C& a, const C& b) { return a == b; }
inline string text(const Num& a) { return dbl(a.v); } inline string text(double a) { return dbl(a); } inline string text(const C& a) { return dbl(a.real()) + "+" + dbl(a.imag()) + "i"; }
template<class T> const char* name(); template<> inline const char* name<Num>() { return "user type"; } template<> inline const char* name<int>() { return "int"; } template<> inline const char* name<float>() { return "float"; } template<> inline const char* name<double>() { return "double"; } template<> inline const char* name<C>() { return "complex"; }
template<class T> bool faulty() { return std::is_same<T, Num>::value; }

struct World {
	Run& r; uint64_t junk; World(Run& r_) : r(r_), junk(1 + r_.pick_from(S_FAULT, 1000)) {}
	// distinct values
	template<class T> vector<T> values(int n) { int at = r.pick(60); vector<T> x(n); for (int i = 0; i < n; i++) set(x[i], (at + i) * ((at + i) % 2 ? -1 : 1)); return x; }
	// f gives the elements; read(i) is the i-th afterwards. Returns false if it was cut short.
	bool attempt(const string& what, const std::function<void()>& f) {
		uint64_t fa = r.pick_from(S_FAULT, 4), k = 1 + r.pick_from(S_FAULT, 3), at = 1 + r.pick_from(S_FAULT, 120); r.log("%s", what.c_str()); r.steps(1);
		heap::garbage(junk++); paint_stack(junk); heap::reset_count(); if (fa == 2) heap::fail_at(k); ScalarEnv::reset(); if (fa == 3) ScalarEnv::throw_at = at;
		bool ab = false, cut = false, threw = false; try { ab = catch_abort([&] { heap::Armed a; f(); }); } catch (std::bad_alloc&) { cut = true; } catch (Interrupt&) { threw = true; }
		bool fired = heap::fired(), thrown = ScalarEnv::thrown; heap::fail_at(0); ScalarEnv::reset();
		if (ab) r.fail("abort", "%s aborts", what.c_str()); if (cut && !fired || threw && !thrown) r.fail("wrong-exception", "%s: an exception although nothing failed", what.c_str());
		if (fired && !cut || thrown && !threw) r.fail("swallowed", "%s: the failure is not reported", what.c_str());
		if (cut) r.fault("alloc_fail"); if (threw) r.fault("element_throws"); if (cut || threw) r.nontrivial(); r.hash_double(cut + 2 * threw); return !cut && !threw;
	}
	template<class T> void check(const string& what, bool done, int n, const std::function<T(int)>& got, const vector<T>& want, const vector<T>& before) {
		for (int i = 0; i < n; i++) { T g = got(i); bool now = eq(g, want[i]); if (!now && (done || before.empty() || !eq(g, before[i]))) r.fail("wrong", "%s: element %d is %s instead of %s", what.c_str(), i, text(g).c_str(), text(want[i]).c_str()); }
		r.cover(r.hash);
	}
};
template<int S, class P, class B> auto reader(const Vector<S, P, B>& v) { return [&v](int i) { return v[i]; }; }
template<int R, int Q, class P, class B> auto reader(const Matrix<R, Q, P, B>& m) { return [&m](int i) { return m(i / m.num_cols(), i % m.num_cols()); }; }
template<class T, class V> vector<T> all(const V& v, int n) { vector<T> o; auto g = reader(v); for (int i = 0; i < n; i++) o.push_back(g(i)); return o; }

// ------------------------------------------------------------------------------------------------- makeVector, Data
template<class T, class Seq> struct Make;
template<class T, size_t... I> struct Make<T, std::index_sequence<I...>> {
	enum { N = sizeof...(I) };
	static auto make(const vector<T>& x) { return makeVector(x[I]...); }
	static auto data(const vector<T>& x) { return Data(x[I]...); }
	static void make_vector(World& w) {
		vector<T> x = w.values<T>(N); string what = fmt("makeVector of %d %s", (int)N, name<T>()); auto q = [&] { return make(x); }; static_assert(std::is_same<decltype(q()), Vector<N, T>>::value, "makeVector has the type of its arguments");
		switch (w.r.pick(3)) {
			case 0: { vector<T> got; bool ok = w.attempt(what, [&] { auto v = q(); heap::Paused p; got = all<T>(v, N); }); if (ok) w.check<T>(what, true, N, [&](int i) { return got[i]; }, x, {}); break; }
			case 1: { vector<T> got; what = "Vector<> of " + what; bool ok = w.attempt(what, [&] { Vector<Dynamic, T> v = make(x); heap::Paused p; if (v.size() != N) w.r.fail("wrong", "%s has %d elements", what.c_str(), v.size()); got = all<T>(v, N); }); if (ok) w.check<T>(what, true, N, [&](int i) { return got[i]; }, x, {}); break; }
			case 2: { what = "row of a matrix = " + what; Matrix<Dynamic, Dynamic, T, ColMajor> m(3, N + 1); for (int i = 0; i < 3; i++) for (int j = 0; j <= N; j++) set(m(i, j), 1000 + i * 50 + j); auto row = m[1].slice(1, N); vector<T> b = all<T>(row, N); bool ok = w.attempt(what, [&] { m[1].slice(1, N) = make(x); }); w.check<T>(what, ok, N, reader(row), x, b); T t; set(t, 1050); if (!eq(m(1, 0), t)) w.r.fail("wrong", "%s: changes the element before", what.c_str()); break; }
		}
	}
	template<class V> static void data_to(World& w, V&& v, const string& to) {
		vector<T> x = w.values<T>(N); string what = to + fmt(" = Data of %d %s", (int)N, name<T>()); vector<T> b = all<T>(v, N); bool ok = w.attempt(what, [&] { v = data(x); }); w.check<T>(what, ok, N, reader(v), x, b);
	}
	static void data_op(World& w) {
		vector<int> f; for (int i = 1; i <= N; i++) if (N % i == 0) f.push_back(i); int R = f[w.r.pick(f.size())], Q = N / R;
		switch (w.r.pick(7)) {
			case 0: { Vector<N, T> v; for (int i = 0; i < N; i++) set(v[i], 999 - i); data_to(w, v, fmt("Vector<%d>", (int)N)); break; }
			case 1: { Vector<Dynamic, T> v(N); for (int i = 0; i < N; i++) set(v[i], 999 - i); data_to(w, v, "Vector<>"); break; }
			case 2: { Vector<Resizable, T> v; v.resize(N); for (int i = 0; i < N; i++) set(v[i], 999 - i); data_to(w, v, "Vector<Resizable>"); break; }
			case 3: { Matrix<Dynamic, Dynamic, T> m(R, Q); for (int i = 0; i < N; i++) set(m(i / Q, i % Q), 999 - i); data_to(w, m, fmt("Matrix<>(%d,%d)", R, Q)); break; }
			case 4: { Matrix<Dynamic, Dynamic, T, ColMajor> m(R, Q); for (int i = 0; i < N; i++) set(m(i / Q, i % Q), 999 - i); data_to(w, m, fmt("Matrix<ColMajor>(%d,%d)", R, Q)); break; }
			case 5: { Matrix<Dynamic, Dynamic, T> m(Q + 2, R + 2); for (int i = 0; i < Q + 2; i++) for (int j = 0; j < R + 2; j++) set(m(i, j), 999 - i - j); auto t = m.slice(1, 1, Q, R).T(); data_to(w, t, fmt("transposed slice of %d by %d", R, Q)); for (int i = 0; i < Q + 2; i++) for (int j = 0; j < R + 2; j++) if (!i || !j || i > Q || j > R) { T k; set(k, 999 - i - j); if (!eq(m(i, j), k)) w.r.fail("wrong", "Data into a slice changes an element outside"); } break; }
			case 6: { vector<T> x = w.values<T>(N); string what = fmt("Vector<%d>(Data) of %s", (int)N, name<T>()); vector<T> got; bool ok = w.attempt(what, [&] { Vector<N, T> v(data(x)); heap::Paused p; got = all<T>(v, N); }); if (ok) w.check<T>(what, true, N, [&](int i) { return got[i]; }, x, {}); break; }
		}
	}
	// v = x0, x1, ...: each comma operator in its own frame, so that the temporaries die in the usual order
	template<class F> static void rest(F&& f, const vector<T>& x, int k, std::integral_constant<int, 0>) {}
	template<class F, int left> static void rest(F&& f, const vector<T>& x, int k, std::integral_constant<int, left>) { auto&& g = (std::forward<F>(f), x[k]); rest(g, x, k + 1, std::integral_constant<int, left - 1>()); }
	template<class V> static void fill_to(World& w, V&& v, const string& to) {
		vector<T> x = w.values<T>(N); string what = fmt("Fill(%s) with %d %s", to.c_str(), (int)N, name<T>()); vector<T> b = all<T>(v, N);
		bool ok = w.attempt(what, [&] { auto s = Fill(v); auto&& f = (s = x[0]); rest(f, x, 1, std::integral_constant<int, N - 1>()); }); w.check<T>(what, ok, N, reader(v), x, b);
		if (!ok) { bool old = false; auto g = reader(v); for (int i = 0; i < N; i++) { bool now = eq(g(i), x[i]); if (now && old) w.r.fail("order", "%s was cut short after an element was skipped", what.c_str()); if (!now) old = true; } }
	}
	static void fill_op(World& w) {
		vector<int> f; for (int i = 1; i <= N; i++) if (N % i == 0) f.push_back(i); int R = f[w.r.pick(f.size())], Q = N / R;
		switch (w.r.pick(4)) {
			case 0: { Vector<N, T> v; for (int i = 0; i < N; i++) set(v[i], 999 - i); fill_to(w, v, fmt("Vector<%d>", (int)N)); break; }
			case 1: { Vector<Dynamic, T> v(N); for (int i = 0; i < N; i++) set(v[i], 999 - i); fill_to(w, v, "Vector<>"); break; }
			case 2: { Matrix<Dynamic, Dynamic, T> m(R, Q); for (int i = 0; i < N; i++) set(m(i / Q, i % Q), 999 - i); fill_to(w, m, fmt("Matrix<>(%d,%d)", R, Q)); break; }
			case 3: { Matrix<Dynamic, Dynamic, T> m(Q + 2, R + 2); for (int i = 0; i < Q + 2; i++) for (int j = 0; j < R + 2; j++) set(m(i, j), 999 - i - j); auto t = m.slice(1, 1, Q, R).T(); fill_to(w, t, fmt("transposed slice of %d by %d", R, Q)); for (int i = 0; i < Q + 2; i++) for (int j = 0; j < R + 2; j++) if (!i || !j || i > Q || j > R) { T k; set(k, 999 - i - j); if (!eq(m(i, j), k)) w.r.fail("wrong", "Fill of a slice changes an element outside"); } break; }
		}
	}
	static void list_op(World& w) {
		vector<T> x = w.values<T>(N); vector<T> got; string what; bool ok; auto take = [&](auto& v) { heap::Paused p; if (v.size() != N) w.r.fail("wrong", "%s has %d elements", what.c_str(), v.size()); got = all<T>(v, N); };
		switch (w.r.pick(4)) {
			case 0: what = fmt("Vector<> = {%d %s}", (int)N, name<T>()); ok = w.attempt(what, [&] { Vector<Dynamic, T> v = { x[I]... }; take(v); }); break;
			case 1: what = fmt("Vector<Resizable> = {%d %s}", (int)N, name<T>()); ok = w.attempt(what, [&] { Vector<Resizable, T> v = { x[I]... }; take(v); }); break;
			case 2: what = fmt("Vector<%d>({%d %s})", (int)N, (int)N, name<T>()); ok = w.attempt(what, [&] { Vector<N, T> v({ x[I]... }); take(v); }); break;
			default: what = fmt("Vector<%d> = {{%d %s}}", (int)N, (int)N, name<T>()); ok = w.attempt(what, [&] { Vector<N, T> v = { { x[I]... } }; take(v); }); break;
		}
		if (ok) w.check<T>(what, true, N, [&](int i) { return got[i]; }, x, {});
	}
};
template<class T, int N> using M_ = Make<T, std::make_index_sequence<N>>;
template<class T, int from, int to, bool one = from == to> struct Pick {
	static void make(World& w, int n) { n <= (from + to) / 2 ? Pick<T, from, (from + to) / 2>::make(w, n) : Pick<T, (from + to) / 2 + 1, to>::make(w, n); }
	static void data(World& w, int n) { n <= (from + to) / 2 ? Pick<T, from, (from + to) / 2>::data(w, n) : Pick<T, (from + to) / 2 + 1, to>::data(w, n); }
	static void fill(World& w, int n) { n <= (from + to) / 2 ? Pick<T, from, (from + to) / 2>::fill(w, n) : Pick<T, (from + to) / 2 + 1, to>::fill(w, n); }
	static void list(World& w, int n) { n <= (from + to) / 2 ? Pick<T, from, (from + to) / 2>::list(w, n) : Pick<T, (from + to) / 2 + 1, to>::list(w, n); }
};
template<class T, int N> struct Pick<T, N, N, true> { static void make(World& w, int) { M_<T, N>::make_vector(w); } static void data(World& w, int) { M_<T, N>::data_op(w); } static void fill(World& w, int) { M_<T, N>::fill_op(w); } static void list(World& w, int) { M_<T, N>::list_op(w); } };
#if PART == 1
void data_double(World& w, int n) { Pick<double, 1, 50>::data(w, n); }
#elif PART == 2
void data_double2(World& w, int n) { Pick<double, 51, 100>::data(w, n); }
#elif PART == 3
void data_num(World& w, int n) { Pick<Num, 1, 33>::data(w, n); }
#elif PART == 4
void data_num2(World& w, int n) { Pick<Num, 34, 67>::data(w, n); }
#elif PART == 5
void data_num3(World& w, int n) { Pick<Num, 68, 100>::data(w, n); }
#elif PART == 6
void make_any(World& w, int n) { switch (w.r.pick(5)) { case 0: return Pick<Num, 1, 30>::make(w, n); case 1: return Pick<double, 1, 30>::make(w, n); case 2: return Pick<float, 1, 30>::make(w, n); case 3: return Pick<int, 1, 30>::make(w, n); default: return Pick<C, 1, 30>::make(w, n); } }
#elif PART == 7
void fill_any(World& w, int n) { switch (w.r.pick(3)) { case 0: return Pick<Num, 1, 18>::fill(w, n); case 1: return Pick<double, 1, 18>::fill(w, n); default: return Pick<int, 1, 18>::fill(w, n); } }
void list_any(World& w, int n) { switch (w.r.pick(3)) { case 0: return Pick<Num, 2, 9>::list(w, n); case 1: return Pick<double, 2, 9>::list(w, n); default: return Pick<float, 2, 9>::list(w, n); } }
#else
void data_double(World&, int); void data_double2(World&, int); void data_num(World&, int); void data_num2(World&, int); void data_num3(World&, int); void make_any(World&, int); void fill_any(World&, int); void list_any(World&, int);

// ---------------------------------------------------------------------------------------- named elements, references
template<class P> struct Q4 { typedef Quad<P> V; enum { N = 4 }; static P get(V& v, int i) { return i == 0 ? v.w : i == 1 ? v.x : i == 2 ? v.y : v.z; } static void put(V& v, int i, P p) { (i == 0 ? v.w : i == 1 ? v.x : i == 2 ? v.y : v.z) = p; } };
template<class P> struct Q2 { typedef Pair<P> V; enum { N = 2 }; static P get(V& v, int i) { return i ? v.second : v.first; } static void put(V& v, int i, P p) { (i ? v.second : v.first) = p; } };
template<class P> struct Q9 { typedef Nine<P> V; enum { N = 9 }; static P get(V& v, int i) { P* p[] = { &v.a, &v.b, &v.c, &v.d, &v.e, &v.f, &v.g, &v.h, &v.i }; return *p[i]; } static void put(V& v, int i, P q) { P* p[] = { &v.a, &v.b, &v.c, &v.d, &v.e, &v.f, &v.g, &v.h, &v.i }; *p[i] = q; } };
template<class Q, class P> void named(World& w) {
	typedef typename Q::V V; enum { N = Q::N }; vector<P> m[2] = { w.values<P>(N), w.values<P>(N) }; V a, b; V* v[2] = { &a, &b }; for (int i = 0; i < N; i++) { a[i] = m[0][i]; Q::put(b, i, m[1][i]); }
	int steps = w.r.range(1, 8); string did;
	for (int s = 0; s < steps; s++) {
		int k = w.r.pick(2); V& x = *v[k]; V& y = *v[!k]; vector<P>&mx = m[k], &my = m[!k]; int i = w.r.pick(N); P p; set(p, w.r.pick(40)); w.junk++; paint_stack(w.junk); heap::garbage(w.junk); bool resized = false;
		const char* ops[] = { "x[i] = p", "x.name = p", "x = y", "x = V(y)", "x += y", "x *= 2", "x = Vector<>(y)", "x = y - x", "swap", "x.slice = y.slice", "x = Zeros", "x = Vector<N>(y)*3", "x = Data/fill", "x = diagonal * y" }; int op = w.r.pick(14); did = fmt("%d named %s elements: %s", (int)N, name<P>(), ops[op]); w.r.log("%s", did.c_str()); w.r.steps(1);
		bool ab = catch_abort([&] { switch (op) {
			case 0: x[i] = p; mx[i] = p; break; case 1: Q::put(x, i, p); mx[i] = p; break; case 2: x = y; mx = my; break; case 3: { V t(y); V u(std::move(t)); x = std::move(u); mx = my; break; }
			case 4: x += y; for (int j = 0; j < N; j++) mx[j] += my[j]; break; case 5: x *= P(2); for (int j = 0; j < N; j++) mx[j] *= 2; break; case 6: { Vector<Dynamic, P> t(y); x = t; mx = my; break; } case 7: x = y - x; for (int j = 0; j < N; j++) mx[j] = my[j] - mx[j]; break;
			case 8: std::swap(x, y); std::swap(mx, my); break; case 9: { int n = 1 + i % (N - 1); x.slice(N - n, n) = y.slice(0, n); for (int j = 0; j < n; j++) mx[N - n + j] = my[j]; break; } case 10: x = Zeros; for (P& q : mx) q = 0; break; case 11: { V t = Vector<N, P>(y) * P(3); x = t; for (int j = 0; j < N; j++) mx[j] = my[j] * 3; break; }
			case 12: { auto sl = x.template slice<0, 2>(); Fill(sl) = p, P(5); mx[0] = p; mx[1] = 5; break; } case 13: { Vector<N, P> d; for (int j = 0; j < N; j++) d[j] = P(j + 1); x = d.as_diagonal() * y; for (int j = 0; j < N; j++) mx[j] = P(j + 1) * my[j]; break; }
		} });
		if (ab) w.r.fail("abort", "%s aborts", did.c_str()); (void)resized;
		for (int o = 0; o < 2; o++) { if (v[o]->size() != N) w.r.fail("wrong", "%s: size %d", did.c_str(), v[o]->size()); for (int j = 0; j < N; j++) if (!eq((*v[o])[j], m[o][j]) || !eq(Q::get(*v[o], j), m[o][j])) w.r.fail("wrong", "%s: element %d is %s, by name %s, instead of %s", did.c_str(), j, text((*v[o])[j]).c_str(), text(Q::get(*v[o], j)).c_str(), text(m[o][j]).c_str()); for (P& q : m[o]) { if (std::abs(q) > 100) { int j = &q - &m[o][0]; set(q, w.r.pick(40)); (*v[o])[j] = q; } } }
	}
	P sum = 0; for (int i = 0; i < N; i++) sum += m[0][i] * m[1][i]; P got = a * b; if (!eq(got, sum)) w.r.fail("wrong", "dot product of named vectors"); w.r.hash_double(got); w.r.cover(w.r.hash);
}
static void planar(World& w) {
	int n = w.r.range(1, 6); vector<double> mem(4 * n + 6); for (double& d : mem) set(d, w.r.pick(100)); double *re = &mem[1], *im = &mem[2 * n + 3]; int st = w.r.pick(n), len = w.r.range(1, n - st);
	Vector<Dynamic, C, ReferencePlanarComplex> v(std::make_pair(re, im), n); double *re4 = re, *im4 = im; vector<double> big(8); for (double& d : big) set(d, w.r.pick(100)); if (n < 4) { re4 = &big[0]; im4 = &big[4]; } Vector<4, C, ReferencePlanarComplex> v4(std::make_pair(re4, im4));
	vector<double> keep = mem; auto at = [&](int i) { return C(re[i], im[i]); }; auto same = [&](const C& a, const C& b, const char* what) { if (a != b) w.r.fail("wrong", "planar complex: %s is %s instead of %s", what, text(a).c_str(), text(b).c_str()); };
	for (int s = w.r.range(1, 5); s > 0; s--) {
		int i = w.r.pick(n); w.junk++; paint_stack(w.junk); heap::garbage(w.junk); heap::reset_count(); uint64_t fa = w.r.pick_from(S_FAULT, 4); if (fa == 3) heap::fail_at(1 + w.r.pick_from(S_FAULT, 2)); int op = w.r.pick(7); w.r.log("planar complex, op %d", op); w.r.steps(1); bool ab = false, cut = false;
		auto body = [&] { ab = catch_abort([&] { heap::Armed ar; switch (op) {
			case 0: same(v[i], at(i), "element"); if (v.size() != n) w.r.fail("wrong", "planar complex: size"); for (int j = 0; j < 4; j++) same(v4[j], C(re4[j], im4[j]), "element of static"); break;
			case 1: { Vector<Dynamic, C> c(v); for (int j = 0; j < n; j++) same(c[j], at(j), "copy"); break; }
			case 2: { auto sl = v.slice(st, len); if (sl.size() != len) w.r.fail("wrong", "planar slice size"); for (int j = 0; j < len; j++) same(sl[j], at(st + j), "slice"); auto s2 = v4.slice<1, 2>(); for (int j = 0; j < 2; j++) same(s2[j], C(re4[1 + j], im4[1 + j]), "static slice"); auto s3 = sl.slice(len - 1, 1); same(s3[0], at(st + len - 1), "slice of slice"); break; }
			case 3: { C d = v * v; C want = 0; for (int j = 0; j < n; j++) want += at(j) * at(j); same(d, want, "dot product"); break; }
			case 4: { Vector<Dynamic, C> t = v + v; for (int j = 0; j < n; j++) same(t[j], at(j) + at(j), "sum"); Vector<Dynamic, C> u = v * 2.0; for (int j = 0; j < n; j++) same(u[j], at(j) * 2.0, "twice"); break; }
			case 5: { Matrix<Dynamic, Dynamic, C> m(2, n); for (int j = 0; j < n; j++) { m(0, j) = C(1, j); m(1, j) = C(j, -1); } Vector<2, C> t = m * v; C x = 0, y = 0; for (int j = 0; j < n; j++) { x += C(1, j) * at(j); y += C(j, -1) * at(j); } same(t[0], x, "matrix times"); same(t[1], y, "matrix times"); m[0] = v; for (int j = 0; j < n; j++) { same(m(0, j), at(j), "row"); same(m(1, j), C(j, -1), "other row"); } break; }
			case 6: { heap::Paused p; set(re[i], w.r.pick(100)); set(im[i], w.r.pick(100)); keep = mem; same(v[i], at(i), "changed element"); break; }
		} }); };
		try { body(); } catch (std::bad_alloc&) { cut = true; }
		bool fired = heap::fired(); heap::fail_at(0); if (ab) w.r.fail("abort", "planar complex aborts"); if (cut && !fired) w.r.fail("wrong-exception", "planar complex"); if (cut) { w.r.fault("alloc_fail"); w.r.nontrivial(); } if (mem != keep) w.r.fail("wrong", "planar complex: memory changed");
	}
	w.r.hash_double(v[0].real()); w.r.cover(w.r.hash);
}
static void initialisers(Run& r) {
	heap::begin_epoch(); long live = ScalarEnv::live;
	{ World w(r); r.set_ops(r.range(2, 20)); while (r.next_op()) switch (r.pick(10)) {
		case 0: { int n = r.range(1, 100); n <= 50 ? data_double(w, n) : data_double2(w, n); break; } case 1: case 2: { int n = r.range(1, 100); n <= 33 ? data_num(w, n) : n <= 67 ? data_num2(w, n) : data_num3(w, n); break; }
		case 3: case 4: make_any(w, r.range(1, 30)); break; case 5: case 6: fill_any(w, r.range(1, 18)); break; case 7: list_any(w, r.range(2, 9)); break;
		case 8: switch (r.pick(5)) { case 0: named<Q4<double>, double>(w); break; case 1: named<Q2<float>, float>(w); break; case 2: named<Q9<double>, double>(w); break; case 3: named<Q4<int>, int>(w); break; default: named<Q9<float>, float>(w); } break;
		case 9: planar(w); break;
	} }
	if (heap::live_blocks()) r.fail("leak", "%ld heap blocks left", heap::live_blocks()); if (heap::misuse) r.fail("heap-misuse", "%s", heap::misuse); if (ScalarEnv::live != live) r.fail("leak", "%ld elements are never destroyed", ScalarEnv::live - live);
}
static Register c25("C25", initialisers, "makeVector, Data, Fill, initializer lists, named elements, planar complex, all vector and matrix storages", "heap (seeded failures and garbage), stack garbage, element type (throws at a seeded operation), abort", "a run with a fault is one with a failed allocation or an element that threw");
#endif
