// C07: histories of containers (fixed, run-time sized, resizable vectors and matrices) against a model.
#include "sim.h"
#include "scalar.h"
#include <TooN/TooN.h>
#include <vector>
#include <memory>
using namespace sim; using namespace TooN;
using std::vector; using std::string;

namespace {
enum Kind { NONE, VR, VD, V4, VB, MD, MC, MH, M23, MB, NKIND };
static const char* kname[] = {"empty", "Vector<Resizable>", "Vector<>", "Vector<4>", "Vector<150>", "Matrix<>", "Matrix<ColMajor>", "Matrix<Dynamic,3>", "Matrix<2,3>", "Matrix<12,11>"};

struct Model { Kind kind = NONE; int rows = 0, cols = 0; vector<double> val; double& at(int i, int j) { return val[i * cols + j]; } };

template<class T> struct Slot {
	typedef Vector<Resizable, T> R; typedef Vector<Dynamic, T> D; typedef Vector<4, T> F; typedef Vector<150, T> B;
	typedef Matrix<Dynamic, Dynamic, T> M; typedef Matrix<Dynamic, Dynamic, T, ColMajor> C; typedef Matrix<Dynamic, 3, T> H; typedef Matrix<2, 3, T> S; typedef Matrix<12, 11, T> L;
	Kind kind = NONE;
	typename std::aligned_storage<sizeof(B) + 2048, 16>::type mem;
	template<class O> O& as() { return *reinterpret_cast<O*>(&mem); }
	template<class O, class... A> void make(Kind k, A&&... a) { static_assert(sizeof(O) <= sizeof(mem), "size"); new (&mem) O(std::forward<A>(a)...); kind = k; }
	void clear() {
		Kind k = kind; kind = NONE;
		switch (k) { case VR: as<R>().~R(); break; case VD: as<D>().~D(); break; case V4: as<F>().~F(); break; case VB: as<B>().~B(); break; case MD: as<M>().~M(); break; case MC: as<C>().~C(); break; case MH: as<H>().~H(); break; case M23: as<S>().~S(); break; case MB: as<L>().~L(); break; default: break; }
	}
	~Slot() { clear(); }
	template<class G> void vec(G g) { switch (kind) { case VR: g(as<R>()); break; case VD: g(as<D>()); break; case V4: g(as<F>()); break; case VB: g(as<B>()); break; default: break; } }
	template<class G> void mat(G g) { switch (kind) { case MD: g(as<M>()); break; case MC: g(as<C>()); break; case MH: g(as<H>()); break; case M23: g(as<S>()); break; case MB: g(as<L>()); break; default: break; } }
};
static bool isvec(Kind k) { return k >= VR && k <= VB; }
static bool ismat(Kind k) { return k >= MD; }

template<class T> struct World {
	Run& r; static const int N = 6;
	Slot<T> s[N]; Model m[N];
	vector<Vector<Dynamic, T>>* pool = nullptr; vector<vector<double>> mpool;
	long live0;
	World(Run& r_) : r(r_) { live0 = ScalarEnv::live; }
	~World() { heap::Armed a; delete pool; pool = nullptr; for (auto& x : s) x.clear(); }

	// ---- observation of the real objects
	void read(int i, int& rows, int& cols, vector<double>& v) {
		heap::Paused p; v.clear();
		rows = cols = 0;
		s[i].vec([&](auto& x) { rows = 1; cols = x.size(); const auto& cx = x; for (int j = 0; j < cols; j++) v.push_back(value(cx[j])); });
		s[i].mat([&](auto& x) { rows = x.num_rows(); cols = x.num_cols(); const auto& cx = x; for (int a = 0; a < rows; a++) for (int b = 0; b < cols; b++) v.push_back(value(cx(a, b))); });
	}
	void check_slot(int i, const char* when) {
		int rows, cols; vector<double> v; read(i, rows, cols, v);
		Model& q = m[i];
		if (rows != q.rows || cols != q.cols) r.fail("wrong-size", "%s: object %d (%s) is %dx%d, should be %dx%d", when, i, kname[s[i].kind], rows, cols, q.rows, q.cols);
		for (size_t k = 0; k < v.size(); k++) if (!same_bits(v[k], q.val[k])) r.fail("wrong-contents", "%s: object %d (%s) element %zu of %zu is %.17g, should be %.17g", when, i, kname[s[i].kind], k, v.size(), v[k], q.val[k]);
	}
	void check_all(const char* when) {
		for (int i = 0; i < N; i++) check_slot(i, when);
		size_t n = 0; for (auto& q : m) n += q.val.size();
		if (pool) {
			if (pool->size() != mpool.size()) r.fail("wrong-size", "%s: list of vectors has %zu entries, should have %zu", when, pool->size(), mpool.size());
			for (size_t i = 0; i < mpool.size(); i++) {
				n += mpool[i].size();
				if ((*pool)[i].size() != (int)mpool[i].size()) r.fail("wrong-size", "%s: vector %zu of a list has size %d, should be %zu", when, i, (*pool)[i].size(), mpool[i].size());
				for (size_t j = 0; j < mpool[i].size(); j++) if (!same_bits(value((*pool)[i][j]), mpool[i][j])) r.fail("wrong-contents", "%s: vector %zu of a list, element %zu", when, i, j);
			}
		}
		if (std::is_same<T, Num>::value && ScalarEnv::live - live0 != (long)n) r.fail("unbalanced-elements", "%s: %ld elements exist, the objects hold %zu", when, ScalarEnv::live - live0, n);
		if (!heap::check_guards() || heap::misuse) r.fail("heap-misuse", "%s: %s", when, heap::misuse ? heap::misuse : "a heap block was overrun");
	}
	double num() { return r.small_int(64) / 8.0; }
	// Every value is a small multiple of a power of two, so that sums of products are exact in whichever order
	// the library adds them; an operation whose result would leave that range is not performed.
	static bool small_grid(const vector<double>& w, double grid, double top) { for (double d : w) if (!(std::fabs(d) <= top) || std::floor(d * grid) != d * grid) return false; return true; }
	static bool tame(const vector<double>& w) { return small_grid(w, 4096, 68719476736.0); }
	static bool factor(const vector<double>& w) { return small_grid(w, 64, 4096); }
	static Kind pick_vec(Run& r) { return (Kind)(VR + r.pick(4)); }
	static Kind pick_mat(Run& r) { return (Kind)(MD + r.pick(5)); }

	// an operation, possibly interrupted. f works on real objects only. Returns true if it ended normally.
	string opname;
	template<class F> bool attempt(const char* name, F f) {
		opname = name;
		int kind = (int)r.pick_from(S_FAULT, std::is_same<T, Num>::value ? 5 : 4);   // 0,1: none, 2,3: allocation, 4: element
		uint64_t k = 1 + r.pick_from(S_FAULT, kind == 4 ? (r.pick_from(S_FAULT, 2) ? 200 : 12) : 3);
		ScalarEnv::reset();
		if (kind == 2 || kind == 3) heap::fail_at(k, kind == 3);
		if (kind == 4) ScalarEnv::throw_at = k;
		bool ok = true;
		try { heap::Armed a; f(); } catch (std::bad_alloc&) { ok = false; r.fault("alloc_fail"); } catch (Interrupt&) { ok = false; r.fault("element_operation_throws"); }
		heap::fail_at(0); ScalarEnv::reset();
		r.log("%s%s", name, ok ? "" : " interrupted");
		if (!ok) r.nontrivial();
		r.steps(1);
		return ok;
	}
	// target i was being rewritten to (rows, cols, want) when it was interrupted
	void settle(int i, int rows, int cols, const vector<double>& want, bool resized) {
		int ro, co; vector<double> v; read(i, ro, co, v);
		Model& q = m[i];
		bool old_size = ro == q.rows && co == q.cols, new_size = ro == rows && co == cols;
		if (!old_size && !new_size) r.fail("wrong-size", "interrupted %s: object %d (%s) is %dx%d, neither the old %dx%d nor the new %dx%d", opname.c_str(), i, kname[s[i].kind], ro, co, q.rows, q.cols, rows, cols);
		for (size_t k = 0; k < v.size(); k++) {
			bool was = k < q.val.size() && same_bits(v[k], q.val[k]), is = k < want.size() && same_bits(v[k], want[k]);
			if (!was && !is && !(resized)) r.fail("wrong-contents", "interrupted %s: object %d (%s) element %zu is %.17g: neither old nor new", opname.c_str(), i, kname[s[i].kind], k, v[k]);
		}
		q.rows = ro; q.cols = co; q.val = v;
	}
	void drop(int i) { heap::Armed a; s[i].clear(); m[i] = Model(); }
	// writes known numbers into uninitialised elements [from, end)
	void fill_vec(int i, int from) { s[i].vec([&](auto& x) { for (int j = from; j < x.size(); j++) { double d = num(); x[j] = d; m[i].val[j] = d; } }); }
	void fill_mat(int i) { s[i].mat([&](auto& x) { for (int a = 0; a < x.num_rows(); a++) for (int b = 0; b < x.num_cols(); b++) { double d = num(); x(a, b) = d; m[i].at(a, b) = d; } }); }
	void set_model(int i, Kind k, int rows, int cols, const vector<double>& v) { m[i].kind = k; m[i].rows = rows; m[i].cols = cols; m[i].val = v; }

	// applies g to a vector expression built from source object j: the object itself, a slice, a row, a column, a diagonal. want receives its elements.
	template<class G> bool source(int j, int how, int a, int b, vector<double>& want, G g) {
		Model& q = m[j]; want.clear(); bool done = false;
		if (isvec(s[j].kind)) {
			int n = q.cols;
			if (how == 0) { want = q.val; s[j].vec([&](auto& x) { const auto& cx = x; g(cx); }); return true; }
			if (n == 0) return false;
			int st = a % (n + 1), len = b % (n - st + 1);
			for (int k = 0; k < len; k++) want.push_back(q.val[st + k]);
			s[j].vec([&](auto& x) { if (how == 1) { const auto& cx = x; g(cx.slice(st, len)); } else g(x.slice(st, len)); });
			return true;
		}
		if (ismat(s[j].kind)) {
			int R = q.rows, C = q.cols; if (!R || !C) return false;
			if (how == 0) { int i = a % R; for (int k = 0; k < C; k++) want.push_back(q.at(i, k)); s[j].mat([&](auto& x) { const auto& cx = x; g(cx[i]); }); done = true; }
			else if (how == 1) { int i = a % C; for (int k = 0; k < R; k++) want.push_back(q.at(k, i)); s[j].mat([&](auto& x) { g(x.T()[i]); }); done = true; }
			else { for (int k = 0; k < std::min(R, C); k++) want.push_back(q.at(k, k)); s[j].mat([&](auto& x) { g(x.diagonal_slice()); }); done = true; }
		}
		return done;
	}

	void construct_vec(int i) {
		drop(i);
		Kind k = pick_vec(r); int how = (int)r.pick(7), n = k == V4 ? 4 : k == VB ? 150 : r.range(0, 7);
		vector<double> want; bool ok = false, did = true; Slot<T>& x = s[i];
		if (how == 0 && k == VD && n == 0) n = 1;
		if (how <= 1) {
			ok = attempt("construct from a size", [&] { switch (k) { case VR: x.template make<typename Slot<T>::R>(k, n); break; case VD: x.template make<typename Slot<T>::D>(k, n); break; case V4: x.template make<typename Slot<T>::F>(k); break; default: x.template make<typename Slot<T>::B>(k); } });
			if (ok) { int rows, cols; vector<double> v; read(i, rows, cols, v); if (cols != n) r.fail("wrong-size", "%s constructed with size %d has size %d", kname[k], n, cols); set_model(i, k, 1, n, v); fill_vec(i, 0); }
		} else if (how <= 4) {
			int j = (int)r.pick(N), a = (int)r.pick(150), b = (int)r.pick(150), sh = (int)r.pick(3);
			did = source(j, sh, a, b, want, [&](const auto& e) {
				if ((k == V4 && e.size() != 4) || (k == VB && e.size() != 150)) k = e.size() % 2 ? VR : VD;
				typedef typename std::decay<decltype(e)>::type E; (void)sizeof(E);
				ok = attempt("construct from another vector", [&] { build(x, k, e); });
			});
			if (did && ok) set_model(i, k, 1, (int)want.size(), want);
		} else if (how == 5) {
			double c = num(); if (k == V4 || k == VB) k = VR;
			ok = attempt("construct from a constant", [&] { if (k == VR) x.template make<typename Slot<T>::R>(k, Ones(n) * T(c)); else x.template make<typename Slot<T>::D>(k, Ones(n) * T(c)); });
			if (ok) set_model(i, k, 1, n, vector<double>(n, c));
		} else {
			double a = num(), b = num(), c = num(); want = {a, b, c}; if (k == V4 || k == VB) k = VD;
			ok = attempt("construct from a list", [&] { if (k == VR) x.template make<typename Slot<T>::R>(k, std::initializer_list<T>{T(a), T(b), T(c)}); else x.template make<typename Slot<T>::D>(k, std::initializer_list<T>{T(a), T(b), T(c)}); });
			if (ok) set_model(i, k, 1, 3, want);
		}
	}
	template<class E, int SZ = E::SizeParameter> struct Fits { static const bool four = SZ < 0 || SZ == 4, big = SZ < 0 || SZ == 150; };
	template<class E> void build(Slot<T>& x, Kind k, const E& e) {
		switch (k) { case VR: x.template make<typename Slot<T>::R>(k, e); break; case VD: x.template make<typename Slot<T>::D>(k, e); break; case V4: build4(x, e, std::integral_constant<bool, Fits<E>::four>()); break; case VB: buildB(x, e, std::integral_constant<bool, Fits<E>::big>()); break; default: break; }
	}
	template<class E> void build4(Slot<T>& x, const E& e, std::true_type) { x.template make<typename Slot<T>::F>(V4, e); }
	template<class E> void build4(Slot<T>&, const E&, std::false_type) {}
	template<class E> void buildB(Slot<T>& x, const E& e, std::true_type) { x.template make<typename Slot<T>::B>(VB, e); }
	template<class E> void buildB(Slot<T>&, const E&, std::false_type) {}

	template<int A, int B> struct Compat { static const bool ok = A < 0 || B < 0 || A == B; };
	// what: 0 =, 1 +=, 2 -=
	template<class X, class E> void apply(X& x, const E& e, int what, std::true_type) { if (what == 0) x = e; else if (what == 1) x += e; else x -= e; }
	template<class X, class E> void apply(X&, const E&, int, std::false_type) {}
	void assign_vec(int i) {
		if (!isvec(s[i].kind)) return;
		int what = (int)r.pick(3), j = (int)r.pick(N), a = (int)r.pick(150), b = (int)r.pick(150), sh = (int)r.pick(3);
		if (r.pick(6) == 0) { j = i; sh = 0; }                      // self-assignment, self-addition
		if (j == i && what && sh) sh = 0;                           // overlapping shifted in-place arithmetic has no defined result
		vector<double> want; bool ok = false, ran = false;
		source(j, sh, a, b, want, [&](const auto& e) {
			if ((what || s[i].kind != VR) && e.size() != m[i].cols) return;
			#ifdef TOON_INITIALIZE_SNAN
			if (j == i && sh && e.size() != m[i].cols) return;      // debug fill of a resized vector destroys an aliasing source
			#endif
			if (j == i && sh) { int st = a % (m[i].cols + 1); (void)st; }
			vector<double> w = want;
			if (what) for (size_t k = 0; k < w.size(); k++) w[k] = what == 1 ? m[i].val[k] + w[k] : m[i].val[k] - w[k];
			if (!tame(w)) return;
			ran = true;
			s[i].vec([&](auto& x) {
				typedef typename std::decay<decltype(x)>::type X; typedef typename std::decay<decltype(e)>::type E;
				ok = attempt(what == 0 ? "assign vector" : what == 1 ? "add vector in place" : "subtract vector in place", [&] { this->apply(x, e, what, std::integral_constant<bool, Compat<X::SizeParameter, E::SizeParameter>::ok>()); });
			});
			want = w;
		});
		if (!ran) return;
		if (ok) set_model(i, s[i].kind, 1, (int)want.size(), want); else settle(i, 1, (int)want.size(), want, s[i].kind == VR && (int)want.size() != m[i].cols);
	}
	void scale(int i) {
		double c = num(); int what = (int)r.pick(5); if (c == 0) c = 2; if (what == 1) c = std::ldexp(c < 0 ? -1.0 : 1.0, r.range(-4, 4));
		if (s[i].kind == NONE || m[i].val.empty()) return;
		vector<double> w = m[i].val; int C = m[i].cols;
		if (isvec(s[i].kind)) for (double& d : w) d = what == 0 ? d * c : what == 1 ? d / c : what == 2 ? d + c : what == 3 ? d - c : c;
		else for (size_t k = 0; k < w.size(); k++) { double& d = w[k]; bool dg = k / C == k % C; if (what >= 2 && m[i].rows != C) { what %= 2; } d = what == 0 ? d * c : what == 1 ? d / c : what == 2 ? (dg ? d + c : d) : what == 3 ? (dg ? d - c : d) : (dg ? c : 0.0); }
		if (!tame(w)) return;
		bool ok = attempt(what == 0 ? "multiply in place" : what == 1 ? "divide in place" : what == 4 ? "assign a constant" : "add a constant in place", [&] {
			s[i].vec([&](auto& x) { switch (what) { case 0: x *= T(c); break; case 1: x /= T(c); break; case 2: x += Ones * T(c); break; case 3: x -= Ones * T(c); break; default: x = Ones * T(c); } });
			s[i].mat([&](auto& x) { typedef typename std::decay<decltype(x)>::type X; switch (what) { case 0: x *= T(c); break; case 1: x /= T(c); break; default: this->ident(x, T(c), what, std::integral_constant<bool, square<X>()>()); } });
		});
		if (ok) m[i].val = w; else settle(i, m[i].rows, m[i].cols, w, what >= 2 && ismat(s[i].kind));
	}
	template<class X> static constexpr bool square() { return !std::is_same<X, typename Slot<T>::S>::value && !std::is_same<X, typename Slot<T>::L>::value; }
	template<class X> void ident(X& x, T c, int what, std::true_type) { if (what == 2) x += Identity * c; else if (what == 3) x += Identity * T(0 - c); else x = Identity * c; }
	template<class X> void ident(X&, T, int, std::false_type) {}
	void resize(int i) {
		if (s[i].kind != VR) return;
		int n = r.pick(8) == 0 ? 150 : r.range(0, 9), old = m[i].cols; bool ok = attempt("resize", [&] { s[i].template as<typename Slot<T>::R>().resize(n); });
		int rows, cols; vector<double> v; read(i, rows, cols, v);
		if (ok && cols != n) r.fail("wrong-size", "resize to %d gives size %d", n, cols);
		if (!ok && cols != n && cols != old) r.fail("wrong-size", "interrupted resize from %d to %d gives size %d", old, n, cols);
		for (int k = 0; k < std::min(cols, old); k++) if (!same_bits(v[k], m[i].val[k])) r.fail("wrong-contents", "resize from %d to %d changes element %d from %.17g to %.17g", old, n, k, m[i].val[k], v[k]);
		m[i].cols = cols; m[i].val = v;
		fill_vec(i, std::min(cols, old));
	}
	void swap_objs(int i) {
		int j = (int)r.pick(N); bool stdswap = r.pick(2);
		if (!isvec(s[i].kind) || !isvec(s[j].kind) || i == j) return;
		if (s[i].kind != s[j].kind ? m[i].cols != m[j].cols : (s[i].kind != VR && m[i].cols != m[j].cols)) return;
		bool slow = s[i].kind != s[j].kind || s[i].kind == V4 || s[i].kind == VB;
		bool ran = false, ok = false; vector<double> oi = m[i].val, oj = m[j].val;
		s[i].vec([&](auto& x) { s[j].vec([&](auto& y) {
			typedef typename std::decay<decltype(x)>::type X; typedef typename std::decay<decltype(y)>::type Y;
			(void)stdswap; ran = true; ok = attempt("swap", [&] { this->do_swap(x, y, std::integral_constant<bool, Compat<X::SizeParameter, Y::SizeParameter>::ok>()); });
		}); });
		if (!ran) return;
		if (ok) { std::swap(m[i].val, m[j].val); std::swap(m[i].cols, m[j].cols); r.probe(slow ? "swap_elements" : "swap_storage"); }
		else { settle(i, 1, (int)oj.size(), oj, false); settle(j, 1, (int)oi.size(), oi, false); }
	}
	template<class X, class Y> void do_swap(X& x, Y& y, std::true_type) { using std::swap; swap(x, y); }
	template<class X, class Y> void do_swap(X&, Y&, std::false_type) {}
	void move_obj(int i) {
		int j = (int)r.pick(N); if (i == j || !isvec(s[j].kind)) return;
		drop(i);
		vector<double> w = m[j].val; Kind k = s[j].kind; bool ok = false;
		s[j].vec([&](auto& x) { typedef typename std::decay<decltype(x)>::type X; ok = attempt("move-construct", [&] { s[i].template make<X>(k, std::move(x)); }); });
		if (ok) { set_model(i, k, 1, (int)w.size(), w); check_slot(i, "move-construct"); drop(j); }   // the moved-from object may only be destroyed
		else check_slot(j, "interrupted move");
	}
	void expr_vec(int i) {
		int a = (int)r.pick(N), b = (int)r.pick(N), what = (int)r.pick(8); double c = num();
		if (!isvec(s[i].kind) || !isvec(s[a].kind) || !isvec(s[b].kind) || m[a].cols != m[b].cols) return;
		if (s[i].kind != VR && m[i].cols != m[a].cols) return;
		vector<double> w(m[a].cols);
		for (size_t k = 0; k < w.size(); k++) { double p = m[a].val[k], q = m[b].val[k]; w[k] = what == 0 ? p + q : what == 1 ? p - q : what == 2 ? p * c : what == 3 ? p + q * c : what == 4 ? -p : what == 5 ? p + c : what == 6 ? c - p : c; }
		if (!tame(w)) return;
		bool ok = false, ran = false;
		s[i].vec([&](auto& x) { s[a].vec([&](auto& p) { s[b].vec([&](auto& q) {
			typedef typename std::decay<decltype(x)>::type X; typedef typename std::decay<decltype(p)>::type P; typedef typename std::decay<decltype(q)>::type Q;
			const P& cp = p; const Q& cq = q; ran = true;
			ok = attempt("assign an expression", [&] { this->do_expr(x, cp, cq, T(c), what, std::integral_constant<bool, Compat<X::SizeParameter, P::SizeParameter>::ok && Compat<Q::SizeParameter, P::SizeParameter>::ok && Compat<X::SizeParameter, Q::SizeParameter>::ok>()); });
		}); }); });
		if (!ran) return;
		if (ok) set_model(i, s[i].kind, 1, (int)w.size(), w); else settle(i, 1, (int)w.size(), w, s[i].kind == VR && (int)w.size() != m[i].cols);
	}
	template<class X, class P, class Q> void do_expr(X& x, const P& p, const Q& q, T c, int what, std::true_type) { switch (what) { case 0: x = p + q; break; case 1: x = p - q; break; case 2: x = p * c; break; case 3: x = p + q * c; break; case 4: x = -p; break; case 5: x = p + Ones * c; break; case 6: x = Ones * c - p; break; default: x = Ones(p.size()) * c; } }
	template<class X, class P, class Q> void do_expr(X&, const P&, const Q&, T, int, std::false_type) {}
	void pool_op() {
		int what = (int)r.pick(4), j = (int)r.pick(N);
		if (what == 3 && pool) { heap::Armed a; delete pool; pool = nullptr; mpool.clear(); return; }
		if (!isvec(s[j].kind)) return;
		if (!pool) { pool = new vector<Vector<Dynamic, T>>; mpool.clear(); }
		bool ok = false; vector<double> w = m[j].val;
		s[j].vec([&](auto& x) { ok = attempt("append to a list of vectors", [&] { pool->push_back(Vector<Dynamic, T>(x)); }); });
		if (ok) mpool.push_back(w);
	}
	// -------------------------------------------------------------------------------- matrices
	template<class X> void makem(Slot<T>& x, Kind k, const X& e) {
		switch (k) { case MD: x.template make<typename Slot<T>::M>(k, e); break; case MC: x.template make<typename Slot<T>::C>(k, e); break; default: break; }
	}
	void construct_mat(int i) {
		int how = (int)r.pick(4), R = r.extent(0, 4, 24), C = r.extent(0, 4, 24), j = (int)r.pick(N), tr = (int)r.pick(2); Kind k = pick_mat(r); Slot<T>& x = s[i]; bool ok = false;
		if (how >= 2 && ismat(s[j].kind) && i != j) {
			drop(i); if (k != MD && k != MC) k = s[j].kind;
			vector<double> w = m[j].val; int rr = m[j].rows, cc = m[j].cols;
			if (k == s[j].kind && !tr) {
				s[j].mat([&](auto& y) { typedef typename std::decay<decltype(y)>::type Y; const Y& cy = y; ok = attempt("copy a matrix", [&] { x.template make<Y>(k, cy); }); });
			} else {
				k = k == MC ? MC : MD;
				if (tr) { vector<double> t; for (int b = 0; b < cc; b++) for (int a = 0; a < rr; a++) t.push_back(w[a * cc + b]); w = t; std::swap(rr, cc); }
				s[j].mat([&](auto& y) { const auto& cy = y; ok = attempt("construct from a matrix expression", [&] { if (tr) this->makem(x, k, cy.T()); else this->makem(x, k, cy); }); });
			}
			if (ok) set_model(i, k, rr, cc, w);
			return;
		}
		drop(i);
		if (k == MH) C = 3; if (k == M23) { R = 2; C = 3; } if (k == MB) { R = 12; C = 11; }
		if (how == 1 && (k == MD || k == MC)) {
			ok = attempt("construct a zero matrix", [&] { if (k == MD) x.template make<typename Slot<T>::M>(k, Zeros(R, C)); else x.template make<typename Slot<T>::C>(k, Zeros(R, C)); });
			if (ok) set_model(i, k, R, C, vector<double>(R * C, 0.0));
			return;
		}
		ok = attempt("construct a matrix from sizes", [&] { switch (k) { case MD: x.template make<typename Slot<T>::M>(k, R, C); break; case MC: x.template make<typename Slot<T>::C>(k, R, C); break; case MH: x.template make<typename Slot<T>::H>(k, R, 3); break; case M23: x.template make<typename Slot<T>::S>(k); break; default: x.template make<typename Slot<T>::L>(k); } });
		if (ok) { int rows, cols; vector<double> v; read(i, rows, cols, v); if (rows != R || cols != C) r.fail("wrong-size", "%s constructed as %dx%d is %dx%d", kname[k], R, C, rows, cols); set_model(i, k, R, C, v); fill_mat(i); }
	}
	template<class X, class Y> void mapply(X& x, const Y& y, int what) { if (what == 0) x = y; else if (what == 1) x += y; else x -= y; }
	template<class X> struct Dyn { static const bool ok = std::is_same<X, typename Slot<T>::M>::value || std::is_same<X, typename Slot<T>::C>::value; };
	template<class X, class Y> void msel(X& x, const Y& y, int what, bool tr, std::true_type) { if (tr) mapply(x, y.T(), what); else mapply(x, y, what); }
	template<class X, class Y> void msel(X& x, const Y& y, int what, bool, std::false_type) { same(x, y, what); }
	template<class X> void same(X& x, const X& y, int what) { mapply(x, y, what); }
	template<class X, class Y> void same(X&, const Y&, int) {}
	void assign_mat(int i) {
		int j = (int)r.pick(N), what = (int)r.pick(3), tr = (int)r.pick(2);
		if (!ismat(s[i].kind) || !ismat(s[j].kind)) return;
		bool dyn = s[i].kind <= MC || s[j].kind <= MC; if (!dyn && s[i].kind != s[j].kind) return; if (!dyn || i == j) tr = 0;
		if (s[i].kind > MC && tr && s[j].kind > MC) tr = 0;
		int R = tr ? m[j].cols : m[j].rows, C = tr ? m[j].rows : m[j].cols; if (R != m[i].rows || C != m[i].cols) return;
		vector<double> w; for (int a = 0; a < R; a++) for (int b = 0; b < C; b++) { double d = tr ? m[j].at(b, a) : m[j].at(a, b), o = m[i].at(a, b); w.push_back(what == 0 ? d : what == 1 ? o + d : o - d); }
		if (!tame(w)) return;
		bool ok = false;
		s[i].mat([&](auto& x) { s[j].mat([&](auto& y) { typedef typename std::decay<decltype(x)>::type X; typedef typename std::decay<decltype(y)>::type Y; const Y& cy = y;
			ok = attempt(what == 0 ? "assign matrix" : what == 1 ? "add matrix in place" : "subtract matrix in place", [&] { this->msel(x, cy, what, tr, std::integral_constant<bool, Dyn<X>::ok || Dyn<Y>::ok>()); }); }); });
		if (ok) m[i].val = w; else settle(i, R, C, w, false);
	}
	void product(int i) {
		int a = (int)r.pick(N), b = (int)r.pick(N), what = (int)r.pick(2);
		if ((s[a].kind != MD && s[a].kind != MC) || !factor(m[a].val) || !factor(m[b].val)) return;
		vector<double> w; bool ok = false;
		if (what == 0 && isvec(s[b].kind) && s[i].kind == VR && m[a].cols == m[b].cols) {
			for (int p = 0; p < m[a].rows; p++) { double t = 0; for (int q = 0; q < m[a].cols; q++) t += m[a].at(p, q) * m[b].val[q]; w.push_back(t); }
			s[a].mat([&](auto& A) { s[b].vec([&](auto& v) { const auto& cv = v; const auto& cA = A; ok = attempt("assign a matrix-vector product", [&] { this->mv(s[i].template as<typename Slot<T>::R>(), cA, cv, std::integral_constant<bool, Dyn<typename std::decay<decltype(A)>::type>::ok>()); }); }); });
			if (ok) set_model(i, VR, 1, m[a].rows, w); else settle(i, 1, m[a].rows, w, m[a].rows != m[i].cols);
		} else if (what == 1 && (s[b].kind == MD || s[b].kind == MC) && (s[i].kind == MD || s[i].kind == MC) && m[a].cols == m[b].rows && m[i].rows == m[a].rows && m[i].cols == m[b].cols) {
			for (int p = 0; p < m[a].rows; p++) for (int c = 0; c < m[b].cols; c++) { double t = 0; for (int q = 0; q < m[a].cols; q++) t += m[a].at(p, q) * m[b].at(q, c); w.push_back(t); }
			auto go = [&](auto& x, auto& A, auto& B) { ok = attempt("assign a matrix product", [&] { x = A * B; }); };
			typedef typename Slot<T>::M M; typedef typename Slot<T>::C C;
			auto w2 = [&](auto& x, auto& A) { if (s[b].kind == MD) go(x, A, s[b].template as<M>()); else go(x, A, s[b].template as<C>()); };
			auto w1 = [&](auto& x) { if (s[a].kind == MD) w2(x, s[a].template as<M>()); else w2(x, s[a].template as<C>()); };
			if (s[i].kind == MD) w1(s[i].template as<M>()); else w1(s[i].template as<C>());
			if (ok) m[i].val = w; else settle(i, m[i].rows, m[i].cols, w, false);
		}
	}
	template<class X, class A, class V> void mv(X& x, const A& a, const V& v, std::true_type) { x = a * v; }
	template<class X, class A, class V> void mv(X&, const A&, const V&, std::false_type) {}
	void write_one(int i) {
		if (m[i].val.empty()) return;
		int a = (int)r.pick(m[i].rows), b = (int)r.pick(m[i].cols), how = (int)r.pick(3); double d = num();
		s[i].vec([&](auto& x) { if (how) x[b] = d; else x.ref()[b] = d; });
		s[i].mat([&](auto& x) { if (how == 0) x(a, b) = d; else if (how == 1) x[a][b] = d; else x[std::make_pair(a, b)] = d; });
		m[i].at(a, b) = d;
	}
	void step() {
		int i = (int)r.pick(N);
		if (s[i].kind == NONE) { if (r.pick(2)) construct_vec(i); else construct_mat(i); return; }
		switch (r.pick(16)) {
			case 0: construct_vec(i); break; case 1: construct_mat(i); break;
			case 2: case 3: assign_vec(i); break; case 4: scale(i); break; case 5: case 6: resize(i); break;
			case 7: swap_objs(i); break; case 8: move_obj(i); break; case 9: case 10: expr_vec(i); break;
			case 11: pool_op(); break; case 12: case 13: assign_mat(i); break; case 14: product(i); break;
			default: write_one(i);
		}
	}
};

template<class T> static void history(Run& r) {
	ScalarEnv::reset(); heap::begin_epoch();
	long live0 = ScalarEnv::live;
	r.set_ops(r.range(4, 40));
	{
		World<T> w(r);
		if (r.pick(3) == 0) heap::garbage(1 + r.pick(1000000));
		while (r.next_op()) {
			w.step(); w.check_all(w.opname.c_str());
			uint64_t h = 0; for (auto& q : w.m) h = mix64(h ^ (q.kind * 1000003u + q.rows * 1009u + q.cols)); r.cover(h);
			for (auto& q : w.m) for (double d : q.val) r.hash_double(d);
		}
		heap::garbage(0);
	}
	if (heap::live_blocks()) r.fail("leak", "%ld heap blocks left after every object was destroyed", heap::live_blocks());
	if (heap::misuse) r.fail("heap-misuse", "%s", heap::misuse);
	if (ScalarEnv::live != live0) r.fail("unbalanced-elements", "%ld elements left after every object was destroyed", ScalarEnv::live - live0);
}

}
#ifndef UNIT_T
#error
#endif
#define C07_CAT2(a, b) a##b
#define C07_CAT(a, b) C07_CAT2(a, b)
void C07_CAT(c07_, UNIT_T)(Run& r) { history<UNIT_T>(r); }
#ifdef UNIT_MAIN
void c07_Num(Run&);
static void c07(Run& r) { if (r.pick(2)) c07_Num(r); else c07_double(r); }
static Register R7("C07", c07, "Vector and Matrix storage: fixed, run-time sized, resizable, row/column major", "global operator new/delete (failures, accounting), number type (failures, accounting)",
	"a run is a history of 4-40 operations on six objects and a growing list, any of them interrupted by a failed allocation or a throwing element; after every step every object is compared with the model; non-trivial: a fault fired; distinct by event-log hash");
#endif
