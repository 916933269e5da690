// C01 text round trip, C02 faulty input, C03 faulty output.
// The "disk" is a byte string behind a std::streambuf owned by the simulator: delivery is cut into
// seeded chunks; the file may be torn, corrupted, or the device may fail at a seeded byte.
#include "sim.h"
#include <TooN/TooN.h>
#include <TooN/so2.h>
#include <TooN/se2.h>
#include <TooN/so3.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
#include <complex>
#include <typeinfo>
#include <iostream>
#include <sstream>
#include <memory>
#include <limits>
#include <cmath>
#include <cstring>
using namespace sim;
using namespace TooN;
using std::string; using std::vector; using std::unique_ptr;

struct DiskError {};

// ------------------------------------------------------------------------- simulated devices
struct Source : std::streambuf {
	const string& d; size_t at = 0; std::vector<int> cuts; size_t ci = 0; long fail_at = -1; bool throws = false; bool hit = false;
	Source(const string& s) : d(s) {}
	int_type underflow() override {
		size_t p = at;
		if (fail_at >= 0 && (long)p >= fail_at) { hit = true; if (throws) throw DiskError(); return traits_type::eof(); }
		if (p >= d.size()) { return traits_type::eof(); }
		size_t n = cuts.empty() ? d.size() : (size_t)cuts[ci++ % cuts.size()];
		if (n < 1) n = 1;
		size_t e = std::min(d.size(), p + n);
		if (fail_at >= 0) e = std::min<size_t>(e, fail_at);
		char* b = const_cast<char*>(d.data());
		setg(b + p, b + p, b + e);
		at = e;
		return traits_type::to_int_type(d[p]);
	}
	size_t consumed() const { return gptr() ? gptr() - d.data() : 0; }
};
struct Sink : std::streambuf {
	string got; long fail_at = -1; bool throws = false, hit = false; vector<char> buf;
	Sink(size_t bufsize) : buf(bufsize) { if (bufsize) setp(buf.data(), buf.data() + bufsize); }
	bool put(const char* p, size_t n) {
		for (size_t i = 0; i < n; i++) {
			if (fail_at >= 0 && (long)got.size() >= fail_at) { hit = true; if (throws) throw DiskError(); return false; }
			heap::Paused q; got += p[i];
		}
		return true;
	}
	int_type overflow(int_type c) override {
		if (sync() == -1) return traits_type::eof();
		if (!traits_type::eq_int_type(c, traits_type::eof())) {
			if (!buf.empty()) { *pptr() = (char)c; pbump(1); return c; }
			char ch = (char)c; if (!put(&ch, 1)) return traits_type::eof();
		}
		return traits_type::not_eof(c);
	}
	int sync() override {
		if (buf.empty()) return 0;
		size_t n = pptr() - pbase();
		setp(buf.data(), buf.data() + buf.size());
		return put(buf.data(), n) ? 0 : -1;
	}
};

// ----------------------------------------------------------------------------------- objects
struct Obj {
	virtual ~Obj() {}
	virtual string name() const = 0;
	virtual void write(std::ostream&) const = 0;
	virtual void read(std::istream&) = 0;
	virtual vector<double> text() const = 0;          // the numbers of the text form, in order
	virtual vector<double> state() const = 0;         // everything observable
	virtual unique_ptr<Obj> other(Run&) const = 0;    // same kind and size, other contents
	virtual bool group() const { return false; }
	virtual bool plausible(const vector<double>&) const { return true; } // do these numbers denote an element
	virtual vector<double> state_of(const vector<double>& t) const { return t; }
	virtual int digits() const { return 17; }
	virtual void check_valid(Run&, const char*) const {}
	bool is_float() const { return digits() < 17; }
	virtual bool scan(std::istream&, string&) const { return false; } // reads the numbers itself, if they are no doubles
	virtual bool scans() const { return false; }
};

template<class P> P num(Run& r) {
	P v = (P)r.number();
	if (!(std::fabs((double)v) < 1e30) || (v != 0 && std::fabs((double)v) < 1e-30)) v = 1;
	return v;
}
template<class P> int dig() { return std::numeric_limits<P>::max_digits10; }

template<int N, class P> struct VecObj : Obj {
	Vector<N, P> v; int n;
	VecObj(int n_) : v(n_), n(n_) {}
	static unique_ptr<Obj> make(Run& r, int n) { auto* o = new VecObj(n); for (int i = 0; i < n; i++) o->v[i] = num<P>(r); return unique_ptr<Obj>(o); }
	string name() const override { return fmt("Vector<%d,%s>(%d)", N, sizeof(P) == 8 ? "double" : "float", n); }
	void write(std::ostream& o) const override { o << v; }
	void read(std::istream& i) override { i >> v; }
	vector<double> text() const override { vector<double> t; for (int i = 0; i < n; i++) t.push_back(v[i]); return t; }
	vector<double> state() const override { return text(); }
	unique_ptr<Obj> other(Run& r) const override { return make(r, n); }
	int digits() const override { return dig<P>(); }
};
// a resizable vector
struct ResObj : Obj {
	Vector<Resizable> v;
	static unique_ptr<Obj> make(Run& r, int n) { auto* o = new ResObj; o->v.resize(n); for (int i = 0; i < n; i++) o->v[i] = num<double>(r); return unique_ptr<Obj>(o); }
	string name() const override { return fmt("Vector<Resizable>(%d)", v.size()); }
	void write(std::ostream& o) const override { o << v; }
	void read(std::istream& i) override { i >> v; }
	vector<double> text() const override { vector<double> t; for (int i = 0; i < v.size(); i++) t.push_back(v[i]); return t; }
	vector<double> state() const override { return text(); }
	unique_ptr<Obj> other(Run& r) const override { return make(r, v.size()); }
};
template<int R, int C, class P, class L> struct MatObj : Obj {
	Matrix<R, C, P, L> m; int nr, nc;
	MatObj(int r_, int c_) : m(r_, c_), nr(r_), nc(c_) {}
	static unique_ptr<Obj> make(Run& r, int nr, int nc) {
		auto* o = new MatObj(nr, nc);
		for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) o->m(i, j) = num<P>(r);
		return unique_ptr<Obj>(o);
	}
	string name() const override { return fmt("Matrix<%d,%d,%s,%s>(%d,%d)", R, C, sizeof(P) == 8 ? "double" : "float", std::is_same<L, ColMajor>::value ? "ColMajor" : "RowMajor", nr, nc); }
	void write(std::ostream& o) const override { o << m; }
	void read(std::istream& i) override { i >> m; }
	vector<double> text() const override { vector<double> t; for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) t.push_back(m(i, j)); return t; }
	vector<double> state() const override { return text(); }
	unique_ptr<Obj> other(Run& r) const override { return make(r, nr, nc); }
	int digits() const override { return dig<P>(); }
};
// elements that are no doubles: every digit has to survive
static void digest(vector<double>& o, long double x) { double hi = (double)x; o.push_back(hi); o.push_back(std::isfinite(hi) ? (double)(x - hi) : 0); }
static void digest(vector<double>& o, int x) { o.push_back(x); }
static void digest(vector<double>& o, short x) { o.push_back(x); }
static void digest(vector<double>& o, long x) { o.push_back((double)(x >> 20)); o.push_back((double)(x & 0xfffff)); }
static void digest(vector<double>& o, double x) { o.push_back(x); }
template<class P> static void digest(vector<double>& o, const std::complex<P>& x) { digest(o, x.real()); digest(o, x.imag()); }
static void invent(Run& r, long double& x) { x = (long double)num<double>(r); x += x * (long double)r.unit() * 1e-16L; }
static void invent(Run& r, double& x) { x = num<double>(r); }
static void invent(Run& r, int& x) { x = r.pick(3) ? r.small_int(1000) : (int)(uint32_t)mix64(r.pick(1 << 30)); }
static void invent(Run& r, short& x) { x = (short)r.range(-32768, 32767); }
static void invent(Run& r, long& x) { x = r.pick(3) ? r.small_int(1000) : (long)mix64(r.pick(1 << 30)); }
template<class P> static void invent(Run& r, std::complex<P>& x) { P a, b; invent(r, a); invent(r, b); x = std::complex<P>(a, b); }
template<class P> struct Dig { static const int n = std::numeric_limits<P>::is_integer ? 17 : std::numeric_limits<P>::max_digits10; };
template<class P> struct Dig<std::complex<P>> { static const int n = Dig<P>::n; };
template<class V, class P> struct ExactObj : Obj {
	V v; int nr, nc;
	template<class... A> ExactObj(int r_, int c_, A... a) : v(a...), nr(r_), nc(c_) {}
	static P& el(Vector<Dynamic, P>& x, int, int j) { return x[j]; }
	static P& el(Vector<3, P>& x, int, int j) { return x[j]; }
	template<int R, int C, class B> static P& el(Matrix<R, C, P, B>& x, int i, int j) { return x(i, j); }
	template<class... A> static unique_ptr<Obj> make(Run& r, int nr, int nc, A... a) { auto* o = new ExactObj(nr, nc, a...); o->scramble(r); return unique_ptr<Obj>(o); }
	void scramble(Run& r) { for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) invent(r, el(v, i, j)); }
	string name() const override { return fmt("%dx%d %s", nr, nc, typeid(V).name()); }
	void write(std::ostream& o) const override { o << v; }
	void read(std::istream& i) override { i >> v; }
	vector<double> text() const override { vector<double> t; V& w = const_cast<V&>(v); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) digest(t, el(w, i, j)); return t; }
	vector<double> state() const override { return text(); }
	unique_ptr<Obj> other(Run& r) const override { auto* o = new ExactObj(*this); o->scramble(r); return unique_ptr<Obj>(o); }
	int digits() const override { return Dig<P>::n; }
	bool scans() const override { return true; }
	bool scan(std::istream& is, string& why) const override {
		V& w = const_cast<V&>(v);
		for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) { P x; is >> x; if (!is) { why = fmt("element %d,%d is missing", i, j); return false; } if (!(x == el(w, i, j))) { why = fmt("element %d,%d has other digits", i, j); return false; } }
		return true;
	}
};
static unique_ptr<Obj> make_exact(Run& r) {
	int a = r.extent(1, 5, 24), b = r.extent(1, 5, 24);
	switch (r.pick(10)) {
		case 0: return ExactObj<Vector<3, long double>, long double>::make(r, 1, 3);
		case 1: return ExactObj<Vector<Dynamic, long double>, long double>::make(r, 1, a, a);
		case 2: return ExactObj<Matrix<2, 3, long double>, long double>::make(r, 2, 3);
		case 3: return ExactObj<Matrix<Dynamic, Dynamic, long double, ColMajor>, long double>::make(r, a, b, a, b);
		case 4: return ExactObj<Vector<3, int>, int>::make(r, 1, 3);
		case 5: return ExactObj<Matrix<Dynamic, Dynamic, int>, int>::make(r, a, b, a, b);
		case 6: return ExactObj<Vector<3, std::complex<double>>, std::complex<double>>::make(r, 1, 3);
		case 7: return ExactObj<Matrix<Dynamic, Dynamic, std::complex<double>>, std::complex<double>>::make(r, a, b, a, b);
		case 8: return ExactObj<Vector<Dynamic, long>, long>::make(r, 1, a, a);
		default: return ExactObj<Matrix<2, 2, short>, short>::make(r, 2, 2);
	}
}
// views of a larger matrix: the part outside the view is part of the state
template<int KIND> struct ViewObj : Obj {
	Matrix<4, 5> m; int a, b, h, w;
	static unique_ptr<Obj> make(Run& r, int a, int b, int h, int w) {
		auto* o = new ViewObj; o->a = a; o->b = b; o->h = h; o->w = w;
		for (int i = 0; i < 4; i++) for (int j = 0; j < 5; j++) o->m(i, j) = num<double>(r);
		return unique_ptr<Obj>(o);
	}
	string name() const override { return fmt("%s(%d,%d,%d,%d)", KIND == 0 ? "row" : KIND == 1 ? "column" : KIND == 2 ? "block" : KIND == 3 ? "transposed" : "segment of row", a, b, h, w); }
	void write(std::ostream& o) const override {
		switch (KIND) {
			case 0: o << m[a]; break;
			case 1: o << m.T()[b]; break;
			case 2: o << m.slice(a, b, h, w); break;
			case 3: o << m.T(); break;
			case 4: o << m[a].slice(b, w); break;
		}
	}
	void read(std::istream& i) override {
		switch (KIND) {
			case 0: i >> m[a].ref(); break;
			case 1: i >> m.T()[b].ref(); break;
			case 2: i >> m.slice(a, b, h, w).ref(); break;
			case 3: i >> m.T().ref(); break;
			case 4: i >> m[a].slice(b, w).ref(); break;
		}
	}
	vector<double> text() const override {
		vector<double> t;
		switch (KIND) {
			case 0: for (int j = 0; j < 5; j++) t.push_back(m(a, j)); break;
			case 1: for (int i = 0; i < 4; i++) t.push_back(m(i, b)); break;
			case 2: for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) t.push_back(m(a + i, b + j)); break;
			case 3: for (int j = 0; j < 5; j++) for (int i = 0; i < 4; i++) t.push_back(m(i, j)); break;
			case 4: for (int j = 0; j < w; j++) t.push_back(m(a, b + j)); break;
		}
		return t;
	}
	vector<double> state() const override {   // view first, the rest after it
		vector<double> t = text();
		for (int i = 0; i < 4; i++) for (int j = 0; j < 5; j++) {
			bool in = KIND == 0 ? i == a : KIND == 1 ? j == b : KIND == 2 ? (i >= a && i < a + h && j >= b && j < b + w) : KIND == 3 ? true : (i == a && j >= b && j < b + w);
			if (!in) t.push_back(m(i, j));
		}
		return t;
	}
	unique_ptr<Obj> other(Run& r) const override { return make(r, a, b, h, w); }
	vector<double> state_of(const vector<double>& t) const override { vector<double> s = state(); for (size_t i = 0; i < t.size(); i++) s[i] = t[i]; return s; }
};

// ------------------------------------------------------------------------------- group elements
typedef long double LD;
// Gram-Schmidt of rows, in long double; returns false when degenerate or improper
static bool ortho(vector<vector<LD>>& R) {
	int n = (int)R.size();
	for (int i = 0; i < n; i++) {
		LD n0 = 0; for (LD x : R[i]) n0 += x * x;
		for (int k = 0; k < i; k++) { LD d = 0; for (int j = 0; j < n; j++) d += R[k][j] * R[i][j]; for (int j = 0; j < n; j++) R[i][j] -= d * R[k][j]; }
		LD s = 0; for (LD x : R[i]) s += x * x;
		if (!(s > 1e-6L * n0) || !(n0 > 1e-20L)) return false;
		s = sqrtl(s);
		for (LD& x : R[i]) x /= s;
	}
	LD det = n == 2 ? R[0][0] * R[1][1] - R[0][1] * R[1][0]
		: R[0][0] * (R[1][1] * R[2][2] - R[1][2] * R[2][1]) - R[0][1] * (R[1][0] * R[2][2] - R[1][2] * R[2][0]) + R[0][2] * (R[1][0] * R[2][1] - R[1][1] * R[2][0]);
	return det > 0.5L;
}
// D: dimension, T: has translation, S: has scale
template<class G> struct GTraits;
#define GT(G, D_, T_, S_, P_, NAME) template<> struct GTraits<G> { enum { D = D_, T = T_, S = S_ }; typedef P_ P; static const char* name() { return NAME; } };
GT(SO2<double>, 2, 0, 0, double, "SO2<double>") GT(SO3<double>, 3, 0, 0, double, "SO3<double>")
GT(SE2<double>, 2, 1, 0, double, "SE2<double>") GT(SE3<double>, 3, 1, 0, double, "SE3<double>")
GT(SIM2<double>, 2, 1, 1, double, "SIM2<double>") GT(SIM3<double>, 3, 1, 1, double, "SIM3<double>")
GT(SO3<float>, 3, 0, 0, float, "SO3<float>") GT(SE3<float>, 3, 1, 0, float, "SE3<float>") GT(SE2<float>, 2, 1, 0, float, "SE2<float>")

template<class P> const Matrix<2,2,P>& rot(const SO2<P>& g) { return g.get_matrix(); }
template<class P> const Matrix<3,3,P>& rot(const SO3<P>& g) { return g.get_matrix(); }
template<class P> const Matrix<2,2,P>& rot(const SE2<P>& g) { return g.get_rotation().get_matrix(); }
template<class P> const Matrix<3,3,P>& rot(const SE3<P>& g) { return g.get_rotation().get_matrix(); }
template<class P> const Matrix<2,2,P>& rot(const SIM2<P>& g) { return g.get_rotation().get_matrix(); }
template<class P> const Matrix<3,3,P>& rot(const SIM3<P>& g) { return g.get_rotation().get_matrix(); }
template<class G, int T> struct Tr { static double get(const G& g, int i) { return g.get_translation()[i]; } };
template<class G> struct Tr<G, 0> { static double get(const G&, int) { return 0; } };
template<class G, int S> struct Sc { static double get(const G& g) { return g.get_scale(); } };
template<class G> struct Sc<G, 0> { static double get(const G&) { return 1; } };

template<class P> void mk(Run& r, SO2<P>& g) { g = SO2<P>::exp((P)(r.unit() * 3)); }
template<class P> Vector<3, P> v3(Run& r, double s) { return makeVector((P)(r.unit() * s), (P)(r.unit() * s), (P)(r.unit() * s)); }
template<class P> void mk(Run& r, SO3<P>& g) { g = SO3<P>::exp(v3<P>(r, 1.7)); }
template<class P> void mk(Run& r, SE2<P>& g) { mk(r, g.get_rotation()); g.get_translation() = makeVector(num<P>(r), num<P>(r)); }
template<class P> void mk(Run& r, SE3<P>& g) { mk(r, g.get_rotation()); g.get_translation() = makeVector(num<P>(r), num<P>(r), num<P>(r)); }
template<class P> void mk(Run& r, SIM2<P>& g) { mk(r, g.get_rotation()); g.get_translation() = makeVector(num<P>(r), num<P>(r)); g.get_scale() = std::exp(r.unit() * 3); }
template<class P> void mk(Run& r, SIM3<P>& g) { mk(r, g.get_rotation()); g.get_translation() = makeVector(num<P>(r), num<P>(r), num<P>(r)); g.get_scale() = std::exp(r.unit() * 3); }

template<class G> struct GroupObj : Obj {
	typedef GTraits<G> X; enum { D = X::D, T = X::T, S = X::S };
	G g;
	static unique_ptr<Obj> make(Run& r) { auto* o = new GroupObj; mk(r, o->g); return unique_ptr<Obj>(o); }
	string name() const override { return X::name(); }
	bool group() const override { return true; }
	void write(std::ostream& o) const override { o << g; }
	void read(std::istream& i) override { i >> g; }
	vector<double> text() const override {
		vector<double> t; double s = Sc<G, S>::get(g);
		for (int i = 0; i < D; i++) { for (int j = 0; j < D; j++) t.push_back((double)(typename X::P)(rot(g)(i, j) * (typename X::P)s)); if (T) t.push_back(Tr<G, T>::get(g, i)); }
		return t;
	}
	vector<double> state() const override {
		vector<double> t;
		for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) t.push_back(rot(g)(i, j));
		if (T) for (int i = 0; i < D; i++) t.push_back(Tr<G, T>::get(g, i));
		if (S) t.push_back(Sc<G, S>::get(g));
		return t;
	}
	bool rows(const vector<double>& t, vector<vector<LD>>& R) const {
		R.assign(D, vector<LD>(D)); int w = D + T;
		for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) R[i][j] = t[i * w + j];
		return ortho(R);
	}
	bool plausible(const vector<double>& t) const override { vector<vector<LD>> R; return rows(t, R); }
	vector<double> state_of(const vector<double>& t) const override {
		vector<vector<LD>> R; rows(t, R); int w = D + T;
		vector<double> s;
		for (auto& r : R) for (LD x : r) s.push_back((double)x);
		if (T) for (int i = 0; i < D; i++) s.push_back(t[i * w + D]);
		if (S) { LD sum = 0; for (int i = 0; i < D; i++) { LD q = 0; for (int j = 0; j < D; j++) q += (LD)t[i * w + j] * t[i * w + j]; sum += sqrtl(q); } s.push_back((double)(sum / D)); }
		return s;
	}
	unique_ptr<Obj> other(Run& r) const override { return make(r); }
	int digits() const override { return dig<typename X::P>(); }
	void check_valid(Run& r, const char* when) const override {
		double tol = sizeof(typename X::P) == 8 ? 1e-9 : 1e-4;
		for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) {
			LD d = 0; for (int k = 0; k < D; k++) d += (LD)rot(g)(i, k) * rot(g)(j, k);
			if (!(fabsl(d - (i == j)) < tol)) r.fail("invalid-rotation", "%s: after %s the rotation is not orthonormal (row %d . row %d = %Lg)", X::name(), when, i, j, d);
		}
	}
};
template<int N> struct SLObj : Obj {
	SL<N> g;
	static unique_ptr<Obj> make(Run& r) {
		auto* o = new SLObj; Vector<N * N - 1> v; for (int i = 0; i < N * N - 1; i++) v[i] = r.unit(); o->g = SL<N>(v); return unique_ptr<Obj>(o);
	}
	string name() const override { return fmt("SL<%d>", N); }
	bool group() const override { return true; }
	void write(std::ostream& o) const override { o << g; }
	void read(std::istream& i) override { i >> g; }
	vector<double> text() const override { vector<double> t; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) t.push_back(g.get_matrix()(i, j)); return t; }
	vector<double> state() const override { return text(); }
	static LD det(const vector<double>& t) {
		if (N == 2) return (LD)t[0] * t[3] - (LD)t[1] * t[2];
		return t[0] * ((LD)t[4] * t[8] - (LD)t[5] * t[7]) - t[1] * ((LD)t[3] * t[8] - (LD)t[5] * t[6]) + t[2] * ((LD)t[3] * t[7] - (LD)t[4] * t[6]);
	}
	bool plausible(const vector<double>& t) const override { LD d = det(t); return d > 0.2L && d < 5; }
	vector<double> state_of(const vector<double>& t) const override { LD d = powl(det(t), -1.0L / N); vector<double> s; for (double x : t) s.push_back((double)(x * d)); return s; }
	unique_ptr<Obj> other(Run& r) const override { return make(r); }
	void check_valid(Run& r, const char* when) const override { LD d = det(text()); if (!(fabsl(d - 1) < 1e-8)) r.fail("invalid-determinant", "%s after %s has determinant %Lg", name().c_str(), when, d); }
};

static unique_ptr<Obj> make_obj(Run& r) {
	switch (r.pick(30)) {
		case 0: return VecObj<1, double>::make(r, 1);
		case 1: return VecObj<3, double>::make(r, 3);
		case 2: return VecObj<6, float>::make(r, 6);
		case 3: case 4: return VecObj<Dynamic, double>::make(r, r.extent(0, 9, 60));
		case 5: return VecObj<Dynamic, float>::make(r, r.extent(1, 5, 60));
		case 6: return ResObj::make(r, r.range(0, 7));
		case 7: return MatObj<2, 3, double, RowMajor>::make(r, 2, 3);
		case 8: return MatObj<3, 2, double, ColMajor>::make(r, 3, 2);
		case 9: return MatObj<Dynamic, Dynamic, double, RowMajor>::make(r, r.extent(1, 5, 24), r.extent(1, 5, 24));
		case 10: return MatObj<Dynamic, Dynamic, float, ColMajor>::make(r, r.extent(1, 5, 24), r.extent(1, 5, 24));
		case 11: return MatObj<3, Dynamic, double, RowMajor>::make(r, 3, r.extent(1, 5, 24));
		case 12: return MatObj<Dynamic, 2, float, RowMajor>::make(r, r.extent(1, 5, 24), 2);
		case 13: { int a = r.range(0, 3); return ViewObj<0>::make(r, a, 0, 1, 5); }
		case 14: { int b = r.range(0, 4); return ViewObj<1>::make(r, 0, b, 4, 1); }
		case 15: { int a = r.range(0, 3), b = r.range(0, 4); int h = r.range(1, 4 - a), w = r.range(1, 5 - b); return ViewObj<2>::make(r, a, b, h, w); }
		case 16: return ViewObj<3>::make(r, 0, 0, 4, 5);
		case 17: { int a = r.range(0, 3), b = r.range(0, 4); int w = r.range(1, 5 - b); return ViewObj<4>::make(r, a, b, 1, w); }
		case 18: return GroupObj<SO2<double>>::make(r);
		case 19: return GroupObj<SE2<double>>::make(r);
		case 20: return GroupObj<SO3<double>>::make(r);
		case 21: return GroupObj<SE3<double>>::make(r);
		case 22: return GroupObj<SIM2<double>>::make(r);
		case 23: return GroupObj<SIM3<double>>::make(r);
		case 24: return SLObj<2>::make(r);
		case 25: return SLObj<3>::make(r);
		case 26: return GroupObj<SO3<float>>::make(r);
		case 27: return GroupObj<SE3<float>>::make(r);
		case 28: return GroupObj<SE2<float>>::make(r);
		default: return MatObj<Dynamic, Dynamic, double, RowMajor>::make(r, r.range(0, 2), r.range(0, 2));
	}
}

static bool close_enough(const Obj& o, const vector<double>& a, const vector<double>& b, double slack) {
	if (a.size() != b.size()) return false;
	double tol = o.group() ? (o.is_float() ? 2e-5 : 1e-12) * slack : 0;
	for (size_t i = 0; i < a.size(); i++) {
		if (same_bits(a[i], b[i]) || a[i] == b[i]) continue;
		if (!(std::fabs(a[i] - b[i]) <= tol * (1 + std::fabs(a[i])))) return false;
	}
	return true;
}
static string show(const vector<double>& v) { string s; for (double d : v) { s += dbl(d); s += ' '; } return s; }
static const char* seps[] = {" ", "\n", "\t", "\n\n  ", " \r\n"};

// writes the objects, separated, as the library writes them
static void format(Run& r, std::ostream& os, const Obj& o) {
	if (r.chance(1, 3)) os.setf(std::ios::scientific, std::ios::floatfield); else os.unsetf(std::ios::floatfield);
	os.precision(o.digits() - ((os.flags() & std::ios::scientific) ? 1 : 0));
	os.width(r.chance(1, 3) ? r.range(1, 30) : 0);
}
static void cuts(Run& r, Source& s) { int k = (int)r.pick_from(S_SCHED, 6); for (int i = 0; i < k; i++) s.cuts.push_back(1 + (int)r.pick_from(S_SCHED, 12)); }

// ------------------------------------------------------------------------------------ C01
static void c01(Run& r) {
	r.set_ops(r.range(1, 6));
	Sink sink(r.pick_from(S_SCHED, 3) * 7);
	std::ostream os(&sink);
	vector<unique_ptr<Obj>> objs; vector<double> alltext; vector<int> marks;
	while (r.next_op()) {
		unique_ptr<Obj> o = r.pick(6) == 5 ? make_exact(r) : make_obj(r);
		format(r, os, *o);
		vector<double> before = o->state();
		o->write(os);
		if (!os) r.fail("write-failed", "writing %s to a working stream failed", o->name().c_str());
		vector<double> after = o->state();
		for (size_t i = 0; i < before.size(); i++) if (!same_bits(before[i], after[i])) r.fail("write-modifies", "writing %s changed it", o->name().c_str());
		os.width(0);
		int mark = (int)r.pick(1000);
		os << seps[r.pick(5)] << mark << seps[r.pick(5)];
		objs.push_back(std::move(o)); marks.push_back(mark);
	}
	os.flush();
	string file = sink.got;
	r.log("file %zu bytes, %zu objects", file.size(), objs.size());
	r.steps(file.size());
	// the numbers are there, row by row
	{
		std::istringstream is(file);
		for (size_t k = 0; k < objs.size(); k++) {
			vector<double> want = objs[k]->text(); string why;
			if (objs[k]->scans()) { r.probe("elements_that_are_no_doubles"); if (!objs[k]->scan(is, why)) r.fail("text-form", "%s: in the text %s", objs[k]->name().c_str(), why.c_str()); }
			else for (size_t i = 0; i < want.size(); i++) {
				double d; is >> d;
				double tol = objs[k]->is_float() ? 3e-7 : (objs[k]->group() ? 1e-15 : 0);
				if (!is || !(std::fabs(d - want[i]) <= tol * (1e-30 + std::fabs(want[i])) + (objs[k]->group() ? 1e-300 : 0)))
					r.fail("text-form", "%s: number %zu of the text is %s, the object holds %s", objs[k]->name().c_str(), i, is ? dbl(d).c_str() : "missing", dbl(want[i]).c_str());
			}
			int m; is >> m; if (!is || m != marks[k]) r.fail("text-form", "%s: the text has the wrong number of values", objs[k]->name().c_str());
		}
	}
	// deliver it in pieces
	Source src(file); cuts(r, src);
	std::istream is(&src);
	uint64_t h = 0;
	for (size_t k = 0; k < objs.size(); k++) {
		unique_ptr<Obj> o = objs[k]->other(r);
		vector<double> old = o->state();
		o->read(is);
		string nm = o->name();
		if (!is) r.fail("read-failed", "%s: reading back what was written failed", nm.c_str());
		vector<double> want = objs[k]->state();
		if (!o->group()) { vector<double> t = objs[k]->text(); want = old; for (size_t i = 0; i < t.size(); i++) want[i] = t[i]; }
		if (!close_enough(*o, want, o->state(), 1))
			r.fail("round-trip", "%s written as %s read back as %s", nm.c_str(), show(want).c_str(), show(o->state()).c_str());
		o->check_valid(r, "reading");
		int m; is >> m;
		if (!is || m != marks[k]) r.fail("over-read", "after reading %s the stream is not positioned at the end of it", nm.c_str());
		r.log("%s ok", nm.c_str());
		for (double d : o->state()) r.hash_double(d);
		h = mix64(h ^ std::hash<string>()(nm));
	}
	for (int c : src.cuts) h = mix64(h ^ c);
	r.cover(h);
	if (!src.cuts.empty() && !objs.empty()) { r.fault("short_read"); r.nontrivial(); }
	if (!sink.buf.empty()) r.probe("buffered_writes");
}
static Register R1("C01", c01, "TooN stream operators and everything under them, libstdc++ number parsing",
	"the file and its device (std::streambuf owned by the simulator)",
	"a run writes 1-6 random objects of random kinds to one simulated file and reads it back through a device that delivers seeded short pieces; non-trivial: at least one object and at least one short delivery; distinct by event-log hash");

// ------------------------------------------------------------------------------------ C02
static void c02(Run& r) {
	r.set_ops(r.range(1, 4));
	// the intact file
	std::ostringstream os;
	vector<unique_ptr<Obj>> objs; vector<size_t> ends;
	while (r.next_op()) {
		unique_ptr<Obj> o = make_obj(r);
		format(r, os, *o);
		o->write(os); os.width(0); os << seps[r.pick(5)];
		objs.push_back(std::move(o)); ends.push_back(os.str().size());
	}
	string file = os.str();
	if (objs.empty() || file.empty()) return;
	r.steps(file.size());
	// the fault: biased to the inside of an object
	int kind = (int)r.pick_from(S_FAULT, 5);
	size_t at = r.pick_from(S_FAULT, file.size() + 1);
	bool thr = false; long fail_at = -1;
	string bad = file;
	switch (kind) {
		case 0: break;                                    // none
		case 1: bad.resize(at); break;                    // torn file
		case 2: if (at < bad.size()) { static const char g[] = "x#,;Z\0/"; bad[at] = g[r.pick_from(S_FAULT, 7)]; } break; // rotten byte
		case 3: fail_at = (long)at; break;                // device reports end of data here
		case 4: fail_at = (long)at; thr = true; break;    // device throws here
	}
	static const char* kn[] = {"none", "torn_file", "corrupt_byte", "device_eof", "device_throws"};
	std::ios::iostate masks[] = {std::ios::goodbit, std::ios::goodbit, std::ios::failbit, std::ios::badbit, std::ios::failbit | std::ios::badbit | std::ios::eofbit};
	std::ios::iostate mask = masks[r.pick_from(S_FAULT, 5)];
	r.log("%zu objects, %zu bytes, fault %s at %zu, exception mask %d", objs.size(), file.size(), kn[kind], at, (int)mask);
	Source src(bad); src.fail_at = fail_at; src.throws = thr; cuts(r, src);
	Source ref(bad); ref.fail_at = fail_at; ref.throws = thr; ref.cuts = src.cuts;
	std::istream is(&src), rs(&ref);
	is.exceptions(mask); rs.exceptions(mask);
	bool dead = false, fired = false;
	for (size_t k = 0; k < objs.size(); k++) {
		unique_ptr<Obj> o = objs[k]->other(r);
		string nm = o->name();
		vector<double> old = o->state();
		// reference: the same numbers read one by one from an identical device
		size_t n = o->text().size(), good = 0; vector<double> vals(n, 0); bool rthrew = false;
		std::ios::iostate rstate;
		try {
			for (; good < n; good++) {
				if (o->is_float()) {
					float f = 0;
					try { rs >> f; } catch (...) { vals[good] = f; throw; }
					vals[good] = f;
				} else rs >> vals[good];
				if (rs.fail()) break;
			}
		} catch (...) { rthrew = true; }
		rstate = rs.rdstate();
		bool complete = good == n;
		if (complete && !rthrew && o->group() && !o->plausible(vals)) { r.probe("torn_number_is_no_group_element"); return; }
		heap::Paused hp;
		bool threw = false;
		try { o->read(is); } catch (Violation&) { throw; } catch (...) { threw = true; }
		if (is.fail() != ((rstate & (std::ios::failbit | std::ios::badbit)) != 0))
			r.fail("status", "%s: %zu of %zu numbers were readable but the stream reports %s", nm.c_str(), good, n, is.fail() ? "failure" : "success");
		if (is.bad() != ((rstate & std::ios::badbit) != 0)) r.fail("status", "%s: badbit is %d, the device %s", nm.c_str(), is.bad(), thr ? "threw" : "did not throw");
		// after a device error the next extraction adds failbit: with only failbit in the mask both outcomes are right
		bool may_throw = rthrew || (!complete && (mask & std::ios::failbit));
		if ((rthrew && !threw) || (threw && !may_throw)) r.fail("exception-mask", "%s: reading %s although the stream's exception mask is %d and its state %d", nm.c_str(), threw ? "threw" : "did not throw", (int)mask, (int)rstate);
		vector<double> now = o->state();
		if (now.size() != old.size()) r.fail("partial-read", "%s: size changed by a read", nm.c_str());
		if (complete) {
			vector<double> want = o->group() ? o->state_of(vals) : vector<double>();
			if (!o->group()) { want = old; for (size_t i = 0; i < n; i++) want[i] = vals[i]; }
			if (!threw && !close_enough(*o, want, now, 100)) r.fail("wrong-value", "%s read as %s, the text says %s", nm.c_str(), show(now).c_str(), show(want).c_str());
			if (threw && o->group()) o->check_valid(r, "an exception from the stream");
		} else {
			fired = true;
			if (o->group()) {
				for (size_t i = 0; i < now.size(); i++) if (!same_bits(now[i], old[i]))
					r.fail("failed-read-damages", "%s: a read that failed after %zu of %zu numbers changed it from %s to %s", nm.c_str(), good, n, show(old).c_str(), show(now).c_str());
			} else {
				for (size_t i = 0; i < now.size(); i++) {
					bool okv = same_bits(now[i], old[i]) || (i < good && now[i] == vals[i]) || (i == good && (now[i] == 0 || now[i] == vals[i]));
					if (!okv) r.fail("failed-read-damages", "%s: after a read that got %zu of %zu numbers, value %zu is %s (was %s)", nm.c_str(), good, n, i, dbl(now[i]).c_str(), dbl(old[i]).c_str());
				}
			}
		}
		o->check_valid(r, "a failed read");
		for (double d : now) r.hash_double(d);
		r.log("%s: %zu of %zu, state %d%s", nm.c_str(), good, n, (int)is.rdstate(), threw ? ", threw" : "");
		r.cover(mix64(std::hash<string>()(nm) ^ mix64(kind * 1000 + good) ^ ((uint64_t)mask << 40)));
		if (!complete || threw) {
			r.fault(kn[kind]);
			r.nontrivial();
			// the reader recovers: the device is repaired and the record is read again from its start
			size_t from = k ? ends[k - 1] : 0;
			string rest = file.substr(from);
			Source s2(rest); cuts(r, s2); std::istream is2(&s2);
			o->read(is2);
			if (!is2) r.fail("recovery", "%s: re-reading the intact record after a failed read fails", nm.c_str());
			if (!close_enough(*o, o->group() ? objs[k]->state() : [&] { vector<double> w = now, t = objs[k]->text(); for (size_t i = 0; i < t.size(); i++) w[i] = t[i]; return w; }(), o->state(), 1))
				r.fail("recovery", "%s: re-reading the intact record after a failed read gives %s instead of %s", nm.c_str(), show(o->state()).c_str(), show(objs[k]->state()).c_str());
			dead = true; break;
		}
	}
	(void)dead; (void)fired;
}
static Register R2("C02", c02, "TooN extraction operators, libstdc++ number parsing",
	"the file and its device (std::streambuf owned by the simulator)",
	"a run writes 1-4 random objects, tears, corrupts or fails the device at a seeded byte and reads with a seeded delivery and exception mask; non-trivial: the fault cut an object short; distinct by event-log hash");

// ------------------------------------------------------------------------------------ C03
static void c03(Run& r) {
	r.set_ops(r.range(1, 4));
	size_t bs = r.pick_from(S_SCHED, 4) * 5;
	Sink good(bs), sink(bs);
	std::ostream gs(&good), os(&sink);
	std::ios::iostate masks[] = {std::ios::goodbit, std::ios::goodbit, std::ios::badbit, std::ios::failbit | std::ios::badbit};
	std::ios::iostate mask = masks[r.pick_from(S_FAULT, 4)];
	vector<unique_ptr<Obj>> objs;
	vector<int> prec, width; vector<std::ios::fmtflags> fl;
	while (r.next_op()) {
		unique_ptr<Obj> o = make_obj(r);
		format(r, gs, *o);
		prec.push_back(gs.precision()); width.push_back(gs.width()); fl.push_back(gs.flags());
		o->write(gs); gs.width(0); gs << '|';
		objs.push_back(std::move(o));
	}
	gs.flush();
	if (objs.empty()) return;
	size_t total = good.got.size();
	sink.fail_at = (long)r.pick_from(S_FAULT, total + 1) ;
	if (sink.fail_at == 0 && r.pick_from(S_FAULT, 4) == 0) sink.fail_at = -1;
	sink.throws = r.pick_from(S_FAULT, 3) == 2;
	os.exceptions(mask);
	r.log("%zu objects, %zu bytes, sink accepts %ld bytes%s, buffer %zu, mask %d", objs.size(), total, sink.fail_at, sink.throws ? " then throws" : "", bs, (int)mask);
	r.steps(total);
	bool threw = false;
	for (size_t k = 0; k < objs.size(); k++) {
		vector<double> before = objs[k]->state();
		os.flags(fl[k]); os.precision(prec[k]); os.width(width[k]);
		char fill = os.fill();
		try { objs[k]->write(os); } catch (Violation&) { throw; } catch (...) { threw = true; }
		vector<double> after = objs[k]->state();
		for (size_t i = 0; i < before.size(); i++) if (!same_bits(before[i], after[i])) r.fail("write-modifies", "a failed write changed %s", objs[k]->name().c_str());
		if (os.flags() != fl[k] || os.precision() != prec[k] || os.fill() != fill) r.fail("format-state", "writing %s changed the stream's formatting state", objs[k]->name().c_str());
		r.log("%s: state %d%s", objs[k]->name().c_str(), (int)os.rdstate(), threw ? ", threw" : "");
		r.cover(mix64(std::hash<string>()(objs[k]->name()) ^ mix64(sink.fail_at)));
		if (threw) break;
		os.width(0);
		try { os << '|'; } catch (...) { threw = true; break; }
	}
	if (!threw) { try { os.flush(); } catch (...) { threw = true; } }
	if (sink.got.size() > total || good.got.compare(0, sink.got.size(), sink.got) != 0)
		r.fail("not-a-prefix", "the device holds %zu bytes that are not the first bytes of the fault-free text", sink.got.size());
	bool all = sink.got.size() == total;
	if (sink.hit) { r.fault(sink.throws ? "write_throws" : "disk_full"); r.nontrivial(); }
	if (!all && !os.fail() && !threw) r.fail("lost-write-unreported", "%zu of %zu bytes reached the device but the stream reports success", sink.got.size(), total);
	if (all && !sink.hit && (os.fail() || threw)) r.fail("spurious-failure", "every byte was accepted but the stream reports failure");
	if (sink.hit && (mask & std::ios::badbit) && !threw) r.fail("exception-mask", "the device failed and the stream asks for exceptions, but none arrived");
	if (sink.hit && !mask && threw) r.fail("exception-mask", "the stream does not ask for exceptions, but one arrived");
	r.hash_bytes(sink.got.data(), sink.got.size());
}
static Register R3("C03", c03, "TooN insertion operators, libstdc++ number formatting",
	"the file and its device (std::streambuf owned by the simulator)",
	"a run writes 1-4 random objects to a device that fills up or fails at a seeded byte, with seeded buffering and exception mask; non-trivial: the device refused a byte; distinct by event-log hash");
