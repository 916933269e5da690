// C08: views of vectors and matrices (slices, transposes, rows, columns, diagonals, wrapped memory) against a model.
#include "sim.h"
#include "scalar.h"
#include <TooN/TooN.h>
#include <TooN/helpers.h>
#include <memory>
#include <sstream>
#include <algorithm>
using namespace sim; using namespace TooN;
using std::vector; using std::string;
#ifndef UNIT_T
#error
#endif
typedef UNIT_T T;
namespace {
typedef vector<int> Ids;                 // which cells a vector view consists of
struct MIds { int R, C; Ids id; int at(int i, int j) const { return id[i * C + j]; } };
static MIds sub(const MIds& m, int rs, int cs, int rl, int cl) { MIds o{rl, cl, {}}; for (int i = 0; i < rl; i++) for (int j = 0; j < cl; j++) o.id.push_back(m.at(rs + i, cs + j)); return o; }
static MIds tr(const MIds& m) { MIds o{m.C, m.R, {}}; for (int j = 0; j < m.C; j++) for (int i = 0; i < m.R; i++) o.id.push_back(m.at(i, j)); return o; }
static Ids row(const MIds& m, int i) { Ids o; for (int j = 0; j < m.C; j++) o.push_back(m.at(i, j)); return o; }
static Ids diag(const MIds& m) { Ids o; for (int i = 0; i < std::min(m.R, m.C); i++) o.push_back(m.at(i, i)); return o; }
static Ids sub(const Ids& v, int s, int l) { return Ids(v.begin() + s, v.begin() + s + l); }

struct World;
struct Held { virtual ~Held() {} virtual void act(World&) = 0; };

template<class M> struct MT;
template<int R_, int C_, class P, class B> struct MT<Matrix<R_, C_, P, B>> { static const int R = R_, C = C_; };
template<class V> struct VT;
template<int S_, class P, class B> struct VT<Vector<S_, P, B>> { static const int S = S_; };
#define ROOM(n, k) ((n) < 0 || (n) >= (k))
template<bool c> using If = std::integral_constant<bool, c>;

struct World {
	Run& r; const T* base = nullptr; vector<double> cell; string name, path;
	vector<std::unique_ptr<Held>> held; vector<string> hname;
	World(Run& r_) : r(r_) {}
	double num() { return r.small_int(16); }

	// ------------------------------------------------------------------ the storage against the model
	void check(const char* op) {
		heap::Paused p;
		for (size_t k = 0; k < cell.size(); k++) if (!same_bits(value(base[k]), cell[k]))
			r.fail("wrong-cell", "%s on %s of %s: element %zu of the storage is %.17g, should be %.17g", op, path.c_str(), name.c_str(), k, value(base[k]), cell[k]);
		if (!heap::check_guards() || heap::misuse) r.fail("heap-misuse", "%s on %s of %s", op, path.c_str(), name.c_str());
	}
	void expect(bool ok, const char* what, double got = 0, double want = 0) { if (!ok) r.fail("wrong-value", "%s on %s of %s: %.17g, should be %.17g", what, path.c_str(), name.c_str(), got, want); }
	void eq(const char* what, double got, double want) { if (!same_bits(got, want) && !(got == want)) expect(false, what, got, want); }
	void close(const char* what, double got, double want) { if (!(std::fabs(got - want) <= 1e-9 * (1 + std::fabs(want)))) expect(false, what, got, want); }

	// a write through a view: next[k] is the new value of cell ids[k]; may be interrupted by a throwing element
	template<class F> void write(const char* op, const Ids& ids, const vector<double>& next, F f) {
		uint64_t at = 0;
		if (std::is_same<T, Num>::value && r.pick_from(S_FAULT, 3) == 1) at = 1 + r.pick_from(S_FAULT, 2 + 3 * ids.size());
		ScalarEnv::reset(); ScalarEnv::throw_at = at; bool ok = true;
		try { heap::Armed a; f(); } catch (Interrupt&) { ok = false; r.fault("element_operation_throws"); r.nontrivial(); }
		ScalarEnv::reset();
		r.log("%s on %s%s", op, path.c_str(), ok ? "" : " interrupted");
		if (ok) for (size_t k = 0; k < ids.size(); k++) cell[ids[k]] = next[k];
		else {
			heap::Paused p;
			for (size_t k = 0; k < ids.size(); k++) {
				double d = value(base[ids[k]]); bool old = same_bits(d, cell[ids[k]]), neu = same_bits(d, next[k]);
				if (!old && !neu && !partial) r.fail("wrong-cell", "interrupted %s on %s of %s: element %d is %.17g, neither old (%.17g) nor new (%.17g)", op, path.c_str(), name.c_str(), ids[k], d, cell[ids[k]], next[k]);
				cell[ids[k]] = d;
			}
		}
		check(op);
	}
	bool partial = false;
	vector<double> get(const Ids& ids) { vector<double> v; for (int i : ids) v.push_back(cell[i]); return v; }
	vector<double> nums(size_t n) { vector<double> v(n); for (double& d : v) d = num(); return v; }

	// ------------------------------------------------------------------ reading
	template<class V> void read_vec(const V& v, const Ids& ids) {
		eq("size", v.size(), ids.size());
		for (size_t i = 0; i < ids.size(); i++) { const T& e = v[(int)i]; eq("element", value(e), cell[ids[i]]); expect(&e == base + ids[i], "address of an element", &e - base, ids[i]); }
	}
	template<class M> void read_mat(const M& m, const MIds& ids) {
		eq("number of rows", m.num_rows(), ids.R); eq("number of columns", m.num_cols(), ids.C);
		for (int i = 0; i < ids.R; i++) for (int j = 0; j < ids.C; j++) {
			const T& e = m(i, j); eq("element", value(e), cell[ids.at(i, j)]); expect(&e == base + ids.at(i, j), "address of an element", &e - base, ids.at(i, j));
			const T& f = m[i][j]; expect(&f == &e, "[][] against ()", 0, 0);
			const T& g = m[std::make_pair(i, j)]; expect(&g == &e, "[pair] against ()", 0, 0);
		}
	}
	template<class M> void read_const(const M& m, const MIds& ids) {
		read_mat(m, ids); read_mat(m.T(), tr(ids));
		if (ids.R && ids.C) {
			int i = (int)r.pick(ids.R), j = (int)r.pick(ids.C); read_vec(m[i], row(ids, i)); read_vec(m.T()[j], row(tr(ids), j));
			int rl = 1 + (int)r.pick(ids.R - i), cl = 1 + (int)r.pick(ids.C - j); read_mat(m.slice(i, j, rl, cl), sub(ids, i, j, rl, cl));
		}
		read_vec(m.diagonal_slice(), diag(ids));
		cstat(m, ids, If<ROOM(MT<M>::R, 2) && ROOM(MT<M>::C, 2)>());
	}
	template<class M> void cstat(const M& m, const MIds& ids, std::true_type) { if (ids.R >= 2 && ids.C >= 2) read_mat(m.template slice<1, 0, 1, 2>(), sub(ids, 1, 0, 1, 2)); }
	template<class M> void cstat(const M&, const MIds&, std::false_type) {}
	template<class V> void read_constv(const V& v, const Ids& ids) {
		read_vec(v, ids); read_vec(v.as_slice(), ids);
		int n = (int)ids.size(), s = (int)r.pick(n + 1), l = (int)r.pick(n - s + 1);
		read_vec(v.slice(s, l), sub(ids, s, l));
		read_mat(v.as_row(), MIds{1, n, ids}); read_mat(v.as_col(), MIds{n, 1, ids});
		cstatv(v, ids, If<ROOM(VT<V>::S, 2)>());
	}
	template<class V> void cstatv(const V& v, const Ids& ids, std::true_type) { if (ids.size() >= 2) read_vec(v.template slice<1, 1>(), sub(ids, 1, 1)); }
	template<class V> void cstatv(const V&, const Ids&, std::false_type) {}

	// ------------------------------------------------------------------ computing from views (exact: small integers)
	template<class V> void compute_vec(const V& v, const Ids& ids) {
		vector<double> a = get(ids), b = nums(ids.size()); int n = (int)a.size(); if (!n) return;
		Vector<Dynamic, T> o(n); for (int i = 0; i < n; i++) o[i] = b[i];
		double dot = 0, n1 = 0, ni = 0, sq = 0; int mx = 0, mn = 0;
		for (int i = 0; i < n; i++) { dot += a[i] * b[i]; sq += a[i] * a[i]; n1 += std::fabs(a[i]); ni = std::max(ni, std::fabs(a[i])); if (a[i] > a[mx]) mx = i; if (a[i] < a[mn]) mn = i; }
		switch (r.pick(7)) {
			case 0: eq("dot product", value(v * o), dot); eq("dot product", value(o * v), dot); break;
			case 1: eq("norm_sq", value(norm_sq(v)), sq); close("norm", value(norm(v)), std::sqrt(sq)); break;
			case 2: eq("norm_1", value(norm_1(v)), n1); eq("norm_inf", value(norm_inf(v)), ni); break;
			case 3: eq("max_value", value(max_value(v)), a[mx]); eq("min_value", value(min_value(v)), a[mn]); { auto e = max_element(v); eq("max_element", value(e.first), a[mx]); eq("max_element: element at the index returned", e.second >= 0 && e.second < n ? a[e.second] : -1e9, a[mx]); auto f = min_element(v); eq("min_element", value(f.first), a[mn]); eq("min_element: element at the index returned", f.second >= 0 && f.second < n ? a[f.second] : 1e9, a[mn]); } break;
			case 4: { Vector<Dynamic, T> s = v + o, d = v - o, m = v * T(3), g = -v, q = v + Ones * T(2); for (int i = 0; i < n; i++) { eq("sum", value(s[i]), a[i] + b[i]); eq("difference", value(d[i]), a[i] - b[i]); eq("multiple", value(m[i]), 3 * a[i]); eq("negation", value(g[i]), -a[i]); eq("plus a constant", value(q[i]), a[i] + 2); } } break;
			case 5: { auto m = v.as_col() * o.as_row(); eq("outer product rows", m.num_rows(), n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) eq("outer product", value(m(i, j)), a[i] * b[j]); } break;
			default: { Vector<Dynamic, T> p = v.as_diagonal() * o, q = diagmult(v, o); for (int i = 0; i < n; i++) { eq("diagonal product", value(p[i]), a[i] * b[i]); eq("diagmult", value(q[i]), a[i] * b[i]); } }
		}
	}
	template<class M> void compute_mat(const M& m, const MIds& ids) {
		int R = ids.R, C = ids.C, K = 1 + (int)r.pick(3); if (!R || !C) return;
		vector<double> a = get(ids.id), b = nums(C), c = nums(R), k = nums(C * K), l = nums(K * R);
		Vector<Dynamic, T> vb(C), vc(R); for (int i = 0; i < C; i++) vb[i] = b[i]; for (int i = 0; i < R; i++) vc[i] = c[i];
		switch (r.pick(8)) {
			case 0: { Vector<Dynamic, T> x = m * vb; for (int i = 0; i < R; i++) { double t = 0; for (int j = 0; j < C; j++) t += a[i * C + j] * b[j]; eq("matrix times vector", value(x[i]), t); } } break;
			case 1: { Vector<Dynamic, T> x = vc * m; for (int j = 0; j < C; j++) { double t = 0; for (int i = 0; i < R; i++) t += a[i * C + j] * c[i]; eq("vector times matrix", value(x[j]), t); } } break;
			case 2: { Matrix<Dynamic, Dynamic, T> o(C, K); for (int i = 0; i < C; i++) for (int j = 0; j < K; j++) o(i, j) = k[i * K + j]; Matrix<Dynamic, Dynamic, T> x = m * o; for (int i = 0; i < R; i++) for (int j = 0; j < K; j++) { double t = 0; for (int q = 0; q < C; q++) t += a[i * C + q] * k[q * K + j]; eq("matrix product", value(x(i, j)), t); } } break;
			case 3: { Matrix<Dynamic, Dynamic, T, ColMajor> o(K, R); for (int i = 0; i < K; i++) for (int j = 0; j < R; j++) o(i, j) = l[i * R + j]; Matrix<Dynamic, Dynamic, T, ColMajor> x = o * m; for (int i = 0; i < K; i++) for (int j = 0; j < C; j++) { double t = 0; for (int q = 0; q < R; q++) t += l[i * R + q] * a[q * C + j]; eq("product with a matrix on the left", value(x(i, j)), t); } } break;
			case 4: { Matrix<Dynamic, Dynamic, T> x = m * m.T(); for (int i = 0; i < R; i++) for (int j = 0; j < R; j++) { double t = 0; for (int q = 0; q < C; q++) t += a[i * C + q] * a[j * C + q]; eq("product with its transpose", value(x(i, j)), t); } } break;
			case 5: { double f = 0; for (double d : a) f += d * d; close("norm_fro", value(norm_fro(m)), std::sqrt(f)); double n1 = 0, ni = 0; for (int j = 0; j < C; j++) { double t = 0; for (int i = 0; i < R; i++) t += std::fabs(a[i * C + j]); n1 = std::max(n1, t); } for (int i = 0; i < R; i++) { double t = 0; for (int j = 0; j < C; j++) t += std::fabs(a[i * C + j]); ni = std::max(ni, t); } eq("norm_1", value(norm_1(m)), n1); eq("norm_inf", value(norm_inf(m)), ni);
				if (R == C) { double t = 0; for (int i = 0; i < R; i++) t += a[i * C + i]; trace_(m, t, If<(MT<M>::R < 0 || MT<M>::C < 0 || MT<M>::R == MT<M>::C)>()); } } break;
			case 6: { double mx = *std::max_element(a.begin(), a.end()), mn = *std::min_element(a.begin(), a.end()); eq("max_value", value(max_value(m)), mx); eq("min_value", value(min_value(m)), mn);
				auto e = max_element(m); eq("max_element", value(e.first), mx); auto f = min_element(m); eq("min_element", value(f.first), mn);
				eq("max_element: element at the position returned", a[e.second.first * C + e.second.second], mx); eq("min_element: element at the position returned", a[f.second.first * C + f.second.second], mn);
				Vector<Dynamic, T> v1 = max_value_vertical(m), v2 = min_value_vertical(m), h1 = max_value_horizontal(m), h2 = min_value_horizontal(m);
				auto ev = max_element_vertical(m); auto eh = min_element_horizontal(m);
				for (int j = 0; j < C; j++) { double x = -1e9, y = 1e9; for (int i = 0; i < R; i++) { x = std::max(x, a[i * C + j]); y = std::min(y, a[i * C + j]); } eq("max_value_vertical", value(v1[j]), x); eq("min_value_vertical", value(v2[j]), y); eq("max_element_vertical", value(ev.first[j]), x); eq("max_element_vertical: element at the row returned", a[(int)value(ev.second[j]) * C + j], x); }
				for (int i = 0; i < R; i++) { double x = -1e9, y = 1e9; for (int j = 0; j < C; j++) { x = std::max(x, a[i * C + j]); y = std::min(y, a[i * C + j]); } eq("max_value_horizontal", value(h1[i]), x); eq("min_value_horizontal", value(h2[i]), y); eq("min_element_horizontal", value(eh.first[i]), y); eq("min_element_horizontal: element at the column returned", a[i * C + (int)value(eh.second[i])], y); } } break;
			default: { Matrix<Dynamic, Dynamic, T> s = m + m, n = -m, t = m * T(2), q = m + Ones * T(1); Matrix<Dynamic, Dynamic, T> cp(m); Matrix<Dynamic, Dynamic, T, ColMajor> cc = m; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { double d = a[i * C + j]; eq("sum", value(s(i, j)), 2 * d); eq("negation", value(n(i, j)), -d); eq("multiple", value(t(i, j)), 2 * d); eq("plus a constant", value(q(i, j)), d + 1); eq("copy", value(cp(i, j)), d); eq("copy", value(cc(i, j)), d); cp(i, j) = T(99); } }
		}
	}
	template<class M> void trace_(const M& m, double t, std::true_type) { eq("trace", value(trace(m)), t); }
	template<class M> void trace_(const M&, double, std::false_type) {}

	// ------------------------------------------------------------------ writing through views
	template<class V> static bool owns(...) { return false; }
	template<class V> static bool owns(typename std::enable_if<std::is_same<V, Vector<VT<V>::S, T>>::value, int>::type) { return true; }   // swapping these exchanges storage
	template<class V> void write_vec(V& v, const Ids& ids) {
		int n = (int)ids.size(); vector<double> a = get(ids), b = nums(n), w(n); double c = num(), c2 = (double)(1 << r.pick(3)); if (!n) return;
		Vector<Dynamic, T> o(n); for (int i = 0; i < n; i++) o[i] = b[i];
		partial = false;
		switch (r.pick(11)) {
			case 0: { int i = (int)r.pick(n); Ids one(1, ids[i]); write("element write", one, {c}, [&] { v[i] = T(c); }); } break;
			case 1: write("assignment", ids, b, [&] { v = o; }); break;
			case 2: for (int i = 0; i < n; i++) w[i] = a[i] + b[i]; write("+=", ids, w, [&] { v += o; }); break;
			case 3: for (int i = 0; i < n; i++) w[i] = a[i] - b[i]; write("-=", ids, w, [&] { v -= o; }); break;
			case 4: for (int i = 0; i < n; i++) w[i] = a[i] * c; write("*=", ids, w, [&] { v *= T(c); }); break;
			case 5: for (int i = 0; i < n; i++) w[i] = a[i] / c2; write("/=", ids, w, [&] { v /= T(c2); }); break;
			case 6: write("zeroing", ids, vector<double>(n, 0.0), [&] { v = Zeros; }); break;
			case 7: write("constant", ids, vector<double>(n, c), [&] { v = Ones * T(c); }); break;
			case 8: for (int i = 0; i < n; i++) w[i] = a[i] + c; write("+= constant", ids, w, [&] { v += Ones * T(c); }); break;
			case 9: if (!owns<V>(0)) { Vector<Dynamic, T> keep(o); write("swap", ids, b, [&] { using std::swap; swap(v, keep); }); } break;
			default: { std::stringstream ss; ss.precision(17); for (double d : b) ss << d << " "; write("stream extraction", ids, b, [&] { ss >> v; }); }
		}
	}
	template<class M> void write_mat(M& m, const MIds& ids) {
		int R = ids.R, C = ids.C, n = R * C; if (!n) return;
		vector<double> a = get(ids.id), b = nums(n), w(n); double c = num(), c2 = (double)(1 << r.pick(3));
		bool cm = r.pick(2); Matrix<Dynamic, Dynamic, T> o(R, C); Matrix<Dynamic, Dynamic, T, ColMajor> oc(R, C); for (int i = 0; i < n; i++) { o(i / C, i % C) = b[i]; oc(i / C, i % C) = b[i]; }
		partial = false;
		switch (r.pick(13)) {
			case 0: { int i = (int)r.pick(R), j = (int)r.pick(C), how = (int)r.pick(3); write("element write", Ids(1, ids.at(i, j)), {c}, [&] { if (how == 0) m(i, j) = T(c); else if (how == 1) m[i][j] = T(c); else m[std::make_pair(i, j)] = T(c); }); } break;
			case 1: write("assignment", ids.id, b, [&] { if (cm) m = oc; else m = o; }); break;
			case 2: for (int i = 0; i < n; i++) w[i] = a[i] + b[i]; write("+=", ids.id, w, [&] { if (cm) m += oc; else m += o; }); break;
			case 3: for (int i = 0; i < n; i++) w[i] = a[i] - b[i]; write("-=", ids.id, w, [&] { if (cm) m -= oc; else m -= o; }); break;
			case 4: for (int i = 0; i < n; i++) w[i] = a[i] * c; write("*=", ids.id, w, [&] { m *= T(c); }); break;
			case 5: for (int i = 0; i < n; i++) w[i] = a[i] / c2; write("/=", ids.id, w, [&] { m /= T(c2); }); break;
			case 6: write("zeroing", ids.id, vector<double>(n, 0.0), [&] { m = Zeros; }); break;
			case 7: write("constant", ids.id, vector<double>(n, c), [&] { m = Ones * T(c); }); break;
			case 8: for (int i = 0; i < n; i++) w[i] = a[i] + c; write("+= constant", ids.id, w, [&] { m += Ones * T(c); }); break;
			case 9: if (R == C && Sq<M>::value) { partial = true; for (int i = 0; i < n; i++) w[i] = i / C == i % C ? c : 0; write("identity", ids.id, w, [&] { this->ident(m, c, 0, Sq<M>()); }); partial = false; } break;
			case 10: if (R == C && Sq<M>::value) { for (int i = 0; i < n; i++) w[i] = i / C == i % C ? a[i] + c : a[i]; write("+= identity", ids.id, w, [&] { this->ident(m, c, 1, Sq<M>()); }); } break;
			case 11: if (R > 1) { int i = (int)r.pick(R), j = (int)((i + 1 + r.pick(R - 1)) % R); Ids x = row(ids, i); write("assignment of a row to a row", x, get(row(ids, j)), [&] { m[i] = m[j]; }); } break;
			default: if (C > 1) { int i = (int)r.pick(C), j = (int)((i + 1 + r.pick(C - 1)) % C); MIds t = tr(ids); Ids x = row(t, i), y = row(t, j); vector<double> nx = get(y), ny = get(x); x.insert(x.end(), y.begin(), y.end()); nx.insert(nx.end(), ny.begin(), ny.end()); partial = true; write("exchange of two columns", x, nx, [&] { auto mt = m.T(); auto p = mt[i]; auto q = mt[j]; using std::swap; swap(p, q); }); partial = false; }
		}
	}
	template<class M> using Sq = If<(MT<M>::R < 0 || MT<M>::C < 0 || MT<M>::R == MT<M>::C)>;
	template<class M> void ident(M& m, double c, int add, std::true_type) { if (add) m += Identity * T(c); else m = Identity * T(c); }
	template<class M> void ident(M&, double, int, std::false_type) {}
	template<class V> void act_vec(V& v, const Ids& ids) { switch (r.pick(4)) { case 0: read_constv(v, ids); break; case 1: compute_vec(v, ids); break; default: write_vec(v, ids); } }
	template<class M> void act_mat(M& m, const MIds& ids) { switch (r.pick(4)) { case 0: read_const(m, ids); break; case 1: compute_mat(m, ids); break; default: write_mat(m, ids); } }

	// ------------------------------------------------------------------ building views of views
	template<class V, bool L> struct HV : Held { V v; Ids ids; HV(const V& v_, const Ids& i) : v(v_), ids(i) {} void act(World& w) override { w.act_vecD(v, ids, If<L>()); } };
	template<class M, bool L> struct HM : Held { M m; MIds ids; HM(const M& m_, const MIds& i) : m(m_), ids(i) {} void act(World& w) override { w.act_matD(m, ids, If<L>()); } };
	// full: views up to two levels deep. light: the third level (fewer template instantiations)
	template<class V> void light_vec(V& v, const Ids& ids) {
		read_vec(v, ids); const V& cv = v; read_vec(cv, ids); size_t n = ids.size(); if (!n) return;
		vector<double> b = nums(n); int i = (int)r.pick(n); partial = false;
		switch (r.pick(3)) { case 0: write("element write", Ids(1, ids[i]), {b[i]}, [&] { v[i] = T(b[i]); }); break; case 1: write("zeroing", ids, vector<double>(n, 0.0), [&] { v = Zeros; }); break;
			default: { Vector<Dynamic, T> o(n); for (size_t k = 0; k < n; k++) o[k] = b[k]; write("assignment", ids, b, [&] { v = o; }); } }
	}
	template<class M> void light_mat(M& m, const MIds& ids) {
		read_mat(m, ids); const M& cm = m; read_mat(cm, ids); size_t n = ids.id.size(); if (!n) return;
		vector<double> b = nums(n); int i = (int)r.pick(ids.R), j = (int)r.pick(ids.C); partial = false;
		switch (r.pick(3)) { case 0: write("element write", Ids(1, ids.at(i, j)), {b[0]}, [&] { m(i, j) = T(b[0]); }); break; case 1: write("zeroing", ids.id, vector<double>(n, 0.0), [&] { m = Zeros; }); break;
			default: { Matrix<Dynamic, Dynamic, T> o(ids.R, ids.C); for (size_t k = 0; k < n; k++) o(k / ids.C, k % ids.C) = b[k]; write("assignment", ids.id, b, [&] { m = o; }); } }
	}
	template<int D, class V> void stop_vec(V& v, const Ids& ids) { if (r.pick(3) == 2) hold(new HV<V, D == 0>(v, ids)); else act_vecD(v, ids, If<D == 0>()); }
	template<int D, class M> void stop_mat(M& m, const MIds& ids) { if (r.pick(3) == 2) hold(new HM<M, D == 0>(m, ids)); else act_matD(m, ids, If<D == 0>()); }
	template<class V> void act_vecD(V& v, const Ids& ids, std::true_type) { light_vec(v, ids); }
	template<class V> void act_vecD(V& v, const Ids& ids, std::false_type) { act_vec(v, ids); }
	template<class M> void act_matD(M& m, const MIds& ids, std::true_type) { light_mat(m, ids); }
	template<class M> void act_matD(M& m, const MIds& ids, std::false_type) { act_mat(m, ids); }
	void hold(Held* h) { heap::Paused p; std::unique_ptr<Held> u(h); if (held.size() < 4) { held.push_back(std::move(u)); hname.push_back(path); } else { size_t k = r.pick(4); held[k] = std::move(u); hname[k] = path; } r.log("keep %s", path.c_str()); }

	template<int D, class V> void view_vec(V v, const Ids& ids, std::true_type) { stop_vec<D>(v, ids); }
	template<int D, class V> void view_vec(V v, const Ids& ids, std::false_type) { if (r.pick(3) == 0) stop_vec<D>(v, ids); else derive_vec<D>(v, ids); }
	template<int D, class M> void view_mat(M m, const MIds& ids, std::true_type) { stop_mat<D>(m, ids); }
	template<int D, class M> void view_mat(M m, const MIds& ids, std::false_type) { if (r.pick(3) == 0) stop_mat<D>(m, ids); else derive_mat<D>(m, ids); }
	// v: a new view prvalue
	template<int D, class V> void goV(V v, const Ids& ids) { view_vec<D>(v, ids, If<D == 0>()); }
	template<int D, class M> void goM(M m, const MIds& ids) { view_mat<D>(m, ids, If<D == 0>()); }

	template<int D, class V> void derive_vec(V& v, const Ids& ids) {
		int n = (int)ids.size();
		switch (r.pick(5)) {
			case 0: { int s = (int)r.pick(n + 1), l = (int)r.pick(n - s + 1); path += fmt(".slice(%d,%d)", s, l); goV<D - 1>(v.slice(s, l), sub(ids, s, l)); } break;
			case 1: path += ".as_slice()"; goV<D - 1>(v.as_slice(), ids); break;
			case 2: path += ".as_row()"; goM<D - 1>(v.as_row(), MIds{1, n, ids}); break;
			case 3: path += ".as_col()"; goM<D - 1>(v.as_col(), MIds{n, 1, ids}); break;
			default: svec<D>(v, ids, If<ROOM(VT<V>::S, 3)>());
		}
	}
	template<int D, class V> void svec(V& v, const Ids& ids, std::true_type) {
		int n = (int)ids.size(); if (n < 3) return;
		switch (r.pick(4)) {
			case 0: path += ".slice<1,2>()"; goV<D - 1>(v.template slice<1, 2>(), sub(ids, 1, 2)); break;
			case 1: path += ".slice<0,3>()"; goV<D - 1>(v.template slice<0, 3>(), sub(ids, 0, 3)); break;
			case 2: { int s = (int)r.pick(n - 1); path += fmt(".slice<Dynamic,2>(%d,2)", s); goV<D - 1>(v.template slice<Dynamic, 2>(s, 2), sub(ids, s, 2)); } break;
			default: { int l = (int)r.pick(n); path += fmt(".slice<1,Dynamic>(1,%d)", l); goV<D - 1>(v.template slice<1, Dynamic>(1, l), sub(ids, 1, l)); }
		}
	}
	template<int D, class V> void svec(V& v, const Ids& ids, std::false_type) {}
	template<int D, class M> void derive_mat(M& m, const MIds& ids) {
		int R = ids.R, C = ids.C;
		switch (r.pick(8)) {
			case 0: { int i = (int)r.pick(R + 1), j = (int)r.pick(C + 1), a = (int)r.pick(R - i + 1), b = (int)r.pick(C - j + 1); path += fmt(".slice(%d,%d,%d,%d)", i, j, a, b); goM<D - 1>(m.slice(i, j, a, b), sub(ids, i, j, a, b)); } break;
			case 1: path += ".T()"; goM<D - 1>(m.T(), tr(ids)); break;
			case 2: if (R) { int i = (int)r.pick(R); path += fmt("[%d]", i); goV<D - 1>(m[i], row(ids, i)); } break;
			case 3: if (C) { int i = (int)r.pick(C); path += fmt(".T()[%d]", i); auto t = m.T(); goV<D - 1>(t[i], row(tr(ids), i)); } break;
			case 4: path += ".diagonal_slice()"; goV<0>(m.diagonal_slice(), diag(ids)); break;
			default: smat<D>(m, ids, If<ROOM(MT<M>::R, 3) && ROOM(MT<M>::C, 3)>());
		}
	}
	template<int D, class M> void smat(M& m, const MIds& ids, std::true_type) {
		int R = ids.R, C = ids.C; if (R < 3 || C < 3) return;
		switch (r.pick(4)) {
			case 0: path += ".slice<1,1,2,2>()"; goM<D - 1>(m.template slice<1, 1, 2, 2>(), sub(ids, 1, 1, 2, 2)); break;
			case 1: path += ".slice<0,0,3,3>()"; goM<D - 1>(m.template slice<0, 0, 3, 3>(), sub(ids, 0, 0, 3, 3)); break;
			case 2: { int i = (int)r.pick(R - 1), l = 1 + (int)r.pick(C - 1); path += fmt(".slice<Dynamic,1,2,Dynamic>(%d,1,2,%d)", i, l); goM<D - 1>(m.template slice<Dynamic, 1, 2, Dynamic>(i, 1, 2, l), sub(ids, i, 1, 2, l)); } break;
			default: { int j = (int)r.pick(C - 1), l = 1 + (int)r.pick(R); path += fmt(".slice<0,Dynamic,Dynamic,2>(0,%d,%d,2)", j, l); goM<D - 1>(m.template slice<0, Dynamic, Dynamic, 2>(0, j, l, 2), sub(ids, 0, j, l, 2)); }
		}
	}
	template<int D, class M> void smat(M& m, const MIds& ids, std::false_type) {}

	// ------------------------------------------------------------------ a run over one root object
	template<class F> void drive(F fresh) {
		check("construction");
		while (r.next_op()) {
			heap::reset_count(); r.steps(1);
			if (!held.empty() && r.pick(3) == 0) { size_t k = r.pick(held.size()); path = hname[k]; r.probe("view_kept_across_operations"); held[k]->act(*this); }
			else { path = "x"; fresh(); }
			check("operation");
			r.cover(std::hash<string>()(name + path));
			for (double d : cell) r.hash_double(d);
		}
		held.clear();
	}
	void fill_cells(T* p, size_t n) { base = p; cell = nums(n); for (size_t i = 0; i < n; i++) p[i] = T(cell[i]); }
	template<class M> void root_mat(const char* nm, M& m, T* p, bool colmajor) {
		int R = m.num_rows(), C = m.num_cols(); name = fmt("%s %dx%d", nm, R, C); fill_cells(p, R * C);
		MIds ids{R, C, {}}; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) ids.id.push_back(colmajor ? j * R + i : i * C + j);
		drive([&] { if (r.pick(5) == 0) act_mat(m, ids); else derive_mat<(UNIT_PART == 1 || UNIT_PART == 3) ? 2 : 3>(m, ids); });
	}
	template<class V> void root_vec(const char* nm, V& v, T* p) {
		int n = v.size(); name = fmt("%s of %d", nm, n); fill_cells(p, n); Ids ids; for (int i = 0; i < n; i++) ids.push_back(i);
		drive([&] { if (r.pick(5) == 0) act_vec(v, ids); else derive_vec<3>(v, ids); });
	}
};
static void roots(World& w) {
	Run& r = w.r; int R = r.extent(1, 7, 30), C = r.extent(1, 7, 30);
	r.set_ops(r.range(3, 25));
	switch (r.pick(UNIT_PART == 1 || UNIT_PART == 3 ? 2 : 4) + 4 * (UNIT_PART)) {
#if UNIT_PART == 0
		case 0: { heap::Armed a; Matrix<Dynamic, Dynamic, T> m(R, C); heap::Paused p; w.root_mat("Matrix<>", m, m.get_data_ptr(), false); } break;
		case 1: { heap::Armed a; Matrix<Dynamic, Dynamic, T, ColMajor> m(R, C); heap::Paused p; w.root_mat("Matrix<ColMajor>", m, m.get_data_ptr(), true); } break;
		case 2: { vector<T> buf(R * C + 8, T(777)); Matrix<Dynamic, Dynamic, T, Reference::RowMajor> m(&buf[4], R, C); w.root_mat("wrapped matrix", m, &buf[4], false); for (int i = 0; i < 4; i++) if (value(buf[i]) != 777 || value(buf[buf.size() - 1 - i]) != 777) r.fail("wrong-cell", "memory outside the wrapped matrix was written"); } break;
		default: { vector<T> buf(R * C + 8, T(777)); Matrix<Dynamic, Dynamic, T, Reference::ColMajor> m(&buf[4], R, C); w.root_mat("wrapped column-major matrix", m, &buf[4], true); for (int i = 0; i < 4; i++) if (value(buf[i]) != 777 || value(buf[buf.size() - 1 - i]) != 777) r.fail("wrong-cell", "memory outside the wrapped matrix was written"); }
#elif UNIT_PART == 1
		case 4: { Matrix<5, 7, T> m; w.root_mat("Matrix<5,7>", m, m.get_data_ptr(), false); } break;
		default: { Matrix<6, 4, T, ColMajor> m; w.root_mat("Matrix<6,4,ColMajor>", m, m.get_data_ptr(), true); } break;
#elif UNIT_PART == 3
		case 12: { heap::Armed a; Matrix<Dynamic, 4, T> m(R, 4); heap::Paused p; w.root_mat("Matrix<Dynamic,4>", m, m.get_data_ptr(), false); } break;
		default: { heap::Armed a; Matrix<3, Dynamic, T, ColMajor> m(3, C); heap::Paused p; w.root_mat("Matrix<3,Dynamic,ColMajor>", m, m.get_data_ptr(), true); }
#else
		case 8: { Vector<9, T> v; w.root_vec("Vector<9>", v, v.get_data_ptr()); } break;
		case 9: { heap::Armed a; Vector<Dynamic, T> v(R + C); heap::Paused p; w.root_vec("Vector<>", v, v.get_data_ptr()); } break;
		case 10: { heap::Armed a; Vector<Resizable, T> v(R + C); heap::Paused p; w.root_vec("Vector<Resizable>", v, v.get_data_ptr()); } break;
		default: { vector<T> buf(R + C + 8, T(777)); auto v = wrapVector(&buf[4], R + C); w.root_vec("wrapped vector", v, &buf[4]); for (int i = 0; i < 4; i++) if (value(buf[i]) != 777 || value(buf[buf.size() - 1 - i]) != 777) r.fail("wrong-cell", "memory outside the wrapped vector was written"); }
#endif
	}
}
}
#define CAT3(a, b, c) a##b##_##c
#define CATX(a, b, c) CAT3(a, b, c)
void CATX(c08_, UNIT_T, UNIT_PART)(Run& r) {
	ScalarEnv::reset(); heap::begin_epoch(); long live0 = ScalarEnv::live;
	{ World w(r); roots(w); }
	if (heap::live_blocks()) r.fail("leak", "%ld heap blocks left", heap::live_blocks());
	if (ScalarEnv::live != live0) r.fail("unbalanced-elements", "%ld elements left", ScalarEnv::live - live0);
}
#ifdef UNIT_MAIN
void c08_double_1(Run&); void c08_double_2(Run&); void c08_double_3(Run&); void c08_Num_3(Run&); void c08_Num_0(Run&); void c08_Num_1(Run&); void c08_Num_2(Run&);
static void c08(Run& r) { switch (r.pick(8)) { case 0: c08_double_0(r); break; case 1: c08_double_1(r); break; case 2: c08_double_2(r); break; case 3: c08_Num_0(r); break; case 4: c08_Num_1(r); break; case 5: c08_Num_2(r); break; case 6: c08_Num_3(r); break; default: c08_double_3(r); } }
static Register R8("C08", c08, "Vector and Matrix views: slices, transposes, rows, columns, diagonals, wrapped memory; products, norms and extrema of views", "number type (failures), global operator new/delete (accounting)",
	"a run is a history of 3-25 operations through views (and views of views, up to three deep, some kept alive across operations) of one object; after each the storage is compared cell by cell with the model; non-trivial: an element operation threw in the middle of a write; distinct by event-log hash");
#endif
