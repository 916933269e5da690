// C09: requests that do not fit the objects they are made of are rejected, before anything is touched; all others are served.
#include "sim.h"
#include <TooN/TooN.h>
#include <TooN/helpers.h>
#include <TooN/Cholesky.h>
#include <TooN/Lapack_Cholesky.h>
#include <TooN/LU.h>
#include <TooN/SVD.h>
#include <TooN/GR_SVD.h>
#include <TooN/QR.h>
#include <TooN/QR_Lapack.h>
#include <TooN/SymEigen.h>
#include <TooN/determinant.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/wls.h>
#include <TooN/so2.h>
#include <TooN/so3.h>
#include <TooN/se2.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
#include <climits>
#include <memory>
#include <iostream>
#include <sstream>
using namespace sim; using namespace TooN;
using std::vector; using std::string;
namespace {
typedef std::function<void()> Fn;
struct Snap { int a, b; vector<double> v; bool operator==(const Snap& o) const { if (a != o.a || b != o.b || v.size() != o.v.size()) return false; for (size_t i = 0; i < v.size(); i++) if (!same_bits(v[i], o.v[i])) return false; return true; } };
static string show(const Snap& s) { string o = fmt("%dx%d:", s.a, s.b); for (double d : s.v) o += " " + dbl(d); return o; }
template<int N, class B> static Snap snap(const Vector<N, double, B>& v) { Snap s{v.size(), 1, {}}; for (int i = 0; i < v.size(); i++) s.v.push_back(v.get_data_ptr()[i]); return s; }
template<int R, int C, class B> static Snap snap(const Matrix<R, C, double, B>& m) { Snap s{m.num_rows(), m.num_cols(), {}}; for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) s.v.push_back(m(i, j)); return s; }
enum { VD, VR, V4, MD, MC, M34, MX, NOBJ };
static const char* const oname[] = { "Vector<>", "Vector<Resizable>", "Vector<4>", "Matrix<>", "Matrix<ColMajor>", "Matrix<3,4>", "Matrix<Dynamic,3>" };
static double none;
template<int N, class P, class B> static const double* first(const Vector<N, P, B>& v) { return v.size() > 0 ? &v[0] : &none; }
template<int R, int C, class P, class B> static const double* first(const Matrix<R, C, P, B>& m) { return m.num_rows() > 0 && m.num_cols() > 0 ? &m(0, 0) : &none; }
struct W {
	Run& r;
	Vector<> vd; Vector<Resizable> vr; Vector<4> v4; Matrix<> md; Matrix<Dynamic, Dynamic, double, ColMajor> mc; Matrix<3, 4> m34; Matrix<Dynamic, 3> mx;
	vector<Snap> model;
	W(Run& r_, int n1, int n2, int R1, int C1, int R2, int C2, int R3) : r(r_), vd(n1), vr(n2), md(R1, C1), mc(R2, C2), mx(R3, 3) {}
	Snap now(int k) { switch (k) { case VD: return snap(vd); case VR: return snap(vr); case V4: return snap(v4); case MD: return snap(md); case MC: return snap(mc); case M34: return snap(m34); default: return snap(mx); } }
	double num() { return r.small_int(16); }
	// an integer that often does not fit n
	int wild(int n) { switch (r.pick(10)) { case 5: return -1; case 6: return n; case 7: return n + 1; case 8: { static const int w[] = { INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, -2, 1 << 30, -(1 << 30), 65536, -65536, 256 }; return w[r.pick(10)]; } case 9: return (int)r.pick(12) - 4; default: return n > 0 ? (int)r.pick(n) : 0; } }
	int near(int n) { switch (r.pick(6)) { case 3: return n + 1 + (int)r.pick(3); case 4: case 5: return (int)r.pick(7); default: return n; } }                    // a size, often n
	int pos(int n) { int k = near(n); return k ? k : 1; }

	// rejected: abort or failed assertion. target: the object whose elements the request may change.
	bool aborted = false, refused = false;
	void request(const string& what, bool valid, const Fn& f, int target = -1, const Snap* after = nullptr, bool partly = false) {
		bool nomem = false; refused = false;
		uint64_t k = r.pick_from(S_FAULT, 5) == 4 ? 1 + r.pick_from(S_FAULT, 4) : 0;
		Fn g = [&] { try { f(); } catch (std::bad_array_new_length&) { refused = true; } catch (std::bad_alloc&) { nomem = heap::fired(); refused = !nomem; } catch (std::length_error&) { refused = true; } };
		heap::reset_count(); heap::fail_at(k);
		{ heap::Armed a; aborted = catch_abort(g); }
		heap::fail_at(0);
		if (nomem) r.fault("alloc_fail");
		bool rej = aborted || refused;
		r.log("%s: %s%s", what.c_str(), rej ? "rejected" : "served", nomem ? " out of memory" : ""); r.steps(1);
		r.probe(valid ? "request_that_fits" : "request_that_does_not_fit"); if (!valid) r.nontrivial();
		if (rej && valid) r.fail("false-rejection", "%s: rejected although it fits", what.c_str());
		if (!rej && !valid && !nomem) r.fail("not-rejected", "%s: served although it does not fit", what.c_str());
		heap::Paused p;
		for (int o = 0; o < NOBJ; o++) {
			Snap s = now(o);
			if (o == target && (nomem || (rej && partly))) { model[o] = s; continue; }
			if (o == target && !rej) { if (after && !(s == *after)) r.fail("wrong-result", "%s: %s is %s, should be %s", what.c_str(), oname[o], show(s).c_str(), show(*after).c_str()); model[o] = s; continue; }
			if (!(s == model[o])) r.fail(rej ? "changed-by-rejected-request" : "changed-by-bystander", "%s: %s changed from %s to %s", what.c_str(), oname[o], show(model[o]).c_str(), show(s).c_str());
		}
		if (!heap::check_guards() || heap::misuse) r.fail("heap-misuse", "%s", what.c_str());
		r.cover(std::hash<string>()(what));
	}
	void wrong(const string& what) { r.fail("wrong-result", "%s", what.c_str()); }

	// ---------------------------------------------------------------- elements and slices of a vector
	template<class V> void index_vec(V& v, int o) {
		int n = v.size(), i = wild(n); double c = num(); const V& cv = v; bool ok = i >= 0 && i < n; Snap s = model[o];
		if (r.pick(2)) { if (ok) s.v[i] = c; request(fmt("%s of %d: write [%d]", oname[o], n, i), ok, [&] { v[i] = c; }, o, &s); }
		else { double got = 0; request(fmt("%s of %d: read [%d]", oname[o], n, i), ok, [&] { got = cv[i]; }); if (ok && got != s.v[i]) wrong("read"); }
	}
	template<class V> void slice_vec(V& v, int o) {
		int n = v.size(), s = wild(n + 1), l = r.pick(4) ? wild(n + 1) : (int)((unsigned)INT_MAX - (unsigned)s + r.pick(2)); const V& cv = v;
		bool ok = s >= 0 && l >= 0 && (long long)s + l <= n; int len = 0; const double* p = nullptr;
		string w = fmt("%s of %d: slice(%d,%d)", oname[o], n, s, l);
		if (r.pick(2)) request(w, ok, [&] { auto x = v.slice(s, l); len = x.size(); p = first(x); });
		else request("const " + w, ok, [&] { const auto x = cv.slice(s, l); len = x.size(); p = first(x); });
		if (ok && (len != l || (p != &none && p != v.get_data_ptr() + s))) if (!heap::fired()) wrong(w);
	}
	template<class V> void static_slice(V& v, int o) {
		int n = v.size(); int s = wild(n), l = r.pick(3) ? 2 : wild(n); const double* p = nullptr; int len = -1, want = 0, ws = 0; string w; bool ok; const V& cv = v;
		Fn f;
		switch (r.pick(5)) {
			case 0: w = "slice<1,2>()"; ok = n >= 3; want = 2; ws = 1; f = [&] { auto x = v.template slice<1, 2>(); len = x.size(); p = first(x); }; break;
			case 1: w = "slice<0,4>()"; ok = n >= 4; want = 4; ws = 0; f = [&] { auto x = cv.template slice<0, 4>(); len = x.size(); p = first(x); }; break;
			case 2: if (o == VR) l = 2; w = fmt("slice<Dynamic,2>(%d,%d)", s, l); ok = s >= 0 && l == 2 && (long long)s + 2 <= n; want = 2; ws = s; f = [&] { auto x = v.template slice<Dynamic, 2>(s, l); len = x.size(); p = first(x); }; break;
			case 3: if (o == VR) s = 1; w = fmt("slice<1,Dynamic>(%d,%d)", s, l); ok = s == 1 && l >= 0 && (long long)l + 1 <= n; want = l; ws = 1; f = [&] { auto x = v.template slice<1, Dynamic>(s, l); len = x.size(); p = first(x); }; break;
			default: { int a = r.pick(3) ? 2 : (int)r.pick(4), b = r.pick(3) ? 2 : (int)r.pick(4); if (o == VR) a = b = 2; w = fmt("const slice<2,2>(%d,%d)", a, b); ok = a == 2 && b == 2 && n >= 4; want = ws = 2; f = [&, a, b] { const auto x = cv.template slice<2, 2>(a, b); len = x.size(); p = first(x); }; } break;
		}
		w = fmt("%s of %d: ", oname[o], n) + w;
		request(w, ok, f);
		if (ok && !heap::fired() && (len != want || (p != &none && p != v.get_data_ptr() + ws))) wrong(w);
	}
	// ---------------------------------------------------------------- elements and slices of a matrix
	template<class M> void index_mat(M& m, int o) {
		int R = m.num_rows(), C = m.num_cols(), i = wild(R), j = wild(C); double c = num(), got = 0; const M& cm = m; bool in = i >= 0 && i < R && j >= 0 && j < C; Snap s = model[o];
		string w = fmt("%s %dx%d: ", oname[o], R, C);
		if (in) s.v[i * C + j] = c;
		switch (r.pick(8)) {
			case 0: request(w + fmt("write (%d,%d)", i, j), in, [&] { m(i, j) = c; }, o, &s); return;
			case 1: request(w + fmt("write [%d][%d]", i, j), in, [&] { m[i][j] = c; }, o, &s); return;
			case 2: request(w + fmt("write [pair(%d,%d)]", i, j), in, [&] { m[std::make_pair(i, j)] = c; }, o, &s); return;
			case 3: request(w + fmt("write T()(%d,%d)", j, i), in, [&] { m.T()(j, i) = c; }, o, &s); return;
			case 4: request(w + fmt("write T()[%d][%d]", j, i), in, [&] { m.T()[j][i] = c; }, o, &s); return;
			case 5: request(w + fmt("read (%d,%d)", i, j), in, [&] { got = cm(i, j); }); break;
			case 6: request(w + fmt("read [%d][%d]", i, j), in, [&] { got = cm[i][j]; }); break;
			default: request(w + fmt("read [pair(%d,%d)]", i, j), in, [&] { got = cm[std::make_pair(i, j)]; });
		}
		if (in && got != model[o].v[i * C + j]) wrong(w + "read");
	}
	template<class M> void slice_mat(M& m, int o, bool colmajor) {
		int R = m.num_rows(), C = m.num_cols(), i = wild(R + 1), j = wild(C + 1), a = r.pick(4) ? wild(R + 1) : (int)((unsigned)INT_MAX - (unsigned)i + r.pick(2)), b = r.pick(4) ? wild(C + 1) : (int)((unsigned)INT_MAX - (unsigned)j + r.pick(2));
		const M& cm = m; int rr = -1, cc = -1; const double* p = nullptr; bool ok = i >= 0 && j >= 0 && a >= 0 && b >= 0 && (long long)i + a <= R && (long long)j + b <= C;
		string w = fmt("%s %dx%d: ", oname[o], R, C); Fn f; int wa = a, wb = b, wi = i, wj = j;
		switch (r.pick(5)) {
			case 0: w += fmt("slice(%d,%d,%d,%d)", i, j, a, b); f = [&] { auto x = m.slice(i, j, a, b); rr = x.num_rows(); cc = x.num_cols(); p = first(x); }; break;
			case 1: w += fmt("const slice(%d,%d,%d,%d)", i, j, a, b); f = [&] { const auto x = cm.slice(i, j, a, b); rr = x.num_rows(); cc = x.num_cols(); p = first(x); }; break;
			case 2: w += "slice<1,0,2,3>()"; ok = R >= 3 && C >= 3; wi = 1; wj = 0; wa = 2; wb = 3; f = [&] { auto x = m.template slice<1, 0, 2, 3>(); rr = x.num_rows(); cc = x.num_cols(); p = first(x); }; break;
			case 3: w += fmt("slice<Dynamic,1,2,Dynamic>(%d,1,2,%d)", i, b); ok = i >= 0 && b >= 0 && (long long)i + 2 <= R && 1ll + b <= C; wj = 1; wa = 2; f = [&] { auto x = m.template slice<Dynamic, 1, 2, Dynamic>(i, 1, 2, b); rr = x.num_rows(); cc = x.num_cols(); p = first(x); }; break;
			default: w += fmt("const slice<0,Dynamic,Dynamic,2>(0,%d,%d,2)", j, a); ok = j >= 0 && a >= 0 && a <= R && (long long)j + 2 <= C; wi = 0; wb = 2; f = [&] { const auto x = cm.template slice<0, Dynamic, Dynamic, 2>(0, j, a, 2); rr = x.num_rows(); cc = x.num_cols(); p = first(x); };
		}
		request(w, ok, f);
		if (ok && (rr != wa || cc != wb || p != &none && p != m.get_data_ptr() + (colmajor ? wj * R + wi : wi * C + wj))) wrong(w);
	}
	// ---------------------------------------------------------------- operands of different sizes
	template<class V, class U> void pair_vec(V& v, int o, const U& u, const char* un, bool resizes) {
		int n = v.size(), k = u.size(); bool same = n == k; Snap s = model[o], us = snap_any(u); double got = 0; string w = fmt("%s of %d with %s of %d: ", oname[o], n, un, k);
		auto el = [&](double (*op)(double, double)) { if (same) for (int i = 0; i < n; i++) s.v[i] = op(s.v[i], us.v[i]); };
		vector<double> out;
		switch (r.pick(15)) {
			case 12: { bool e = false; request(w + "==", same, [&] { e = v == u; }); if (same && e != (s.v == us.v)) wrong(w + "=="); } break;
			case 13: { bool e = false; request(w + "!=", same, [&] { e = v != u; }); if (same && e != (s.v != us.v)) wrong(w + "!="); } break;
			case 0: request(w + "=", same || resizes, [&] { v = u; }, o, &us); break;
			case 1: el([](double a, double b) { return a + b; }); request(w + "+=", same, [&] { v += u; }, o, &s); break;
			case 2: el([](double a, double b) { return a - b; }); request(w + "-=", same, [&] { v -= u; }, o, &s); break;
			case 3: request(w + "+", same, [&] { auto x = v + u; }); break;
			case 4: request(w + "-", same, [&] { auto x = v - u; }); break;
			case 5: request(w + "dot", same, [&] { got = v * u; }); break;
			case 6: request(w + "diagmult", same, [&] { auto x = diagmult(v, u); }); break;
			case 7: request(w + "as_diagonal *", same, [&] { auto x = v.as_diagonal() * u; }); break;
			case 8: request(w + "= u+u", same || resizes, [&] { v = u + u; }, o); break;
			case 9: request(w + "= u + Ones", same || resizes, [&] { v = u + Ones * 2.0; }, o); break;
			case 10: request(w + "= Ones - u", same || resizes, [&] { v = Ones * 2.0 - u; }, o); break;
			case 11: request(w + "= -u", same || resizes, [&] { v = -u; }, o); break;
			default: { U c(u); request(w + "swap", same || std::is_same<U, Vector<Resizable>>::value && std::is_same<V, U>::value, [&] { using std::swap; swap(v, c); }, o); }
		}
	}
	template<class U> Snap snap_any(const U& u) { Snap s{u.size(), 1, {}}; for (int i = 0; i < u.size(); i++) s.v.push_back(u[i]); return s; }
	template<class V> void pair_vec_any(V& v, int o, bool resizes = false) {
		int n = v.size();
		switch (r.pick(4)) {
			case 0: { Vector<> u(near(n)); for (int i = 0; i < u.size(); i++) u[i] = num(); pair_vec(v, o, u, "Vector<>", resizes); } break;
			case 1: { Vector<Resizable> u(near(n)); for (int i = 0; i < u.size(); i++) u[i] = num(); pair_vec(v, o, u, "Vector<Resizable>", resizes); } break;
			case 2: { int k = near(n); vector<double> buf(k + 1); for (double& d : buf) d = num(); Vector<Dynamic, double, Reference> u(&buf[0], k); pair_vec(v, o, u, "wrapped vector", resizes); } break;
			default: pair_static(v, o, std::integral_constant<bool, (V::SizeParameter < 0 || V::SizeParameter == 4)>(), resizes);
		}
	}
	template<class V> void pair_static(V& v, int o, std::true_type, bool resizes) { Vector<4> u; for (int i = 0; i < 4; i++) u[i] = num(); pair_vec(v, o, u, "Vector<4>", resizes); }
	template<class V> void pair_static(V&, int, std::false_type, bool) {}
	template<class M, class N> void pair_mat(M& m, int o, N& u, const char* un) {
		int R = m.num_rows(), C = m.num_cols(), K = u.num_rows(), L = u.num_cols(); bool same = R == K && C == L; Snap s = model[o], us = snap(u); string w = fmt("%s %dx%d with %s %dx%d: ", oname[o], R, C, un, K, L);
		switch (r.pick(17)) {
			case 15: { bool e = false; request(w + "==", same, [&] { e = m == u; }); if (same && e != (s.v == us.v)) wrong(w + "=="); } break;
			case 16: { bool e = false; request(w + "!=", same, [&] { e = m != u; }); if (same && e != (s.v != us.v)) wrong(w + "!="); } break;
			case 0: request(w + "=", same, [&] { m = u; }, o, &us); break;
			case 1: if (same) for (size_t i = 0; i < s.v.size(); i++) s.v[i] += us.v[i]; request(w + "+=", same, [&] { m += u; }, o, &s); break;
			case 2: if (same) for (size_t i = 0; i < s.v.size(); i++) s.v[i] -= us.v[i]; request(w + "-=", same, [&] { m -= u; }, o, &s); break;
			case 3: request(w + "+", same, [&] { auto x = m + u; }); break;
			case 4: request(w + "-", same, [&] { auto x = m - u; }); break;
			case 5: request(w + "* T()", C == L, [&] { auto x = m * u.T(); if (x.num_rows() != R || x.num_cols() != K) wrong(w + "size of product"); }); break;
			case 6: request(w + "T() *", R == K, [&] { auto x = m.T() * u; if (x.num_rows() != C || x.num_cols() != L) wrong(w + "size of product"); }); break;
			case 7: request(w + "= u + Identity", same && K == L, [&] { m = u + Identity * 2.0; }, o); break;
			case 8: request(w + "= Identity - u", same && K == L, [&] { m = Identity * 2.0 - u; }, o); break;
			case 9: request(w + "= u - Ones", same, [&] { m = u - Ones * 2.0; }, o); break;
			case 10: request(w + "= Ones - u", same, [&] { m = Ones * 2.0 - u; }, o); break;
			case 11: request(w + "= -u", same, [&] { m = -u; }, o); break;
			case 12: request(w + "+= u + Ones", same, [&] { m += u + Ones * 2.0; }, o); break;
			case 13: request(w + "= u * 2", same, [&] { m = u * 2.0; }, o); break;
			default: if (r.pick(2)) request(w + "= u + u", same, [&] { m = u + u; }, o); else { bool ok = K == R && L == C && K == L; request(w + "= u * u", ok, [&] { m = u * u; }, o); }
		}
	}
	template<class M> void pair_mat_any(M& m, int o) {
		int R = m.num_rows(), C = m.num_cols();
		switch (r.pick(3)) {
			case 0: { Matrix<> u(pos(R), pos(C)); for (int i = 0; i < u.num_rows(); i++) for (int j = 0; j < u.num_cols(); j++) u(i, j) = num(); pair_mat(m, o, u, "Matrix<>"); } break;
			case 1: { Matrix<Dynamic, Dynamic, double, ColMajor> u(pos(R), pos(C)); for (int i = 0; i < u.num_rows(); i++) for (int j = 0; j < u.num_cols(); j++) u(i, j) = num(); pair_mat(m, o, u, "Matrix<ColMajor>"); } break;
			default: { int k = pos(R), l = pos(C); vector<double> buf(k * l); for (double& d : buf) d = num(); Matrix<Dynamic, Dynamic, double, Reference::RowMajor> u(&buf[0], k, l); pair_mat(m, o, u, "wrapped matrix"); }
		}
	}
	template<class M> void mat_vec(M& m, int o) {
		int R = m.num_rows(), C = m.num_cols(); int a = near(R), b = near(C); Vector<> x(a), y(b); for (int i = 0; i < a; i++) x[i] = num(); for (int i = 0; i < b; i++) y[i] = num();
		string w = fmt("%s %dx%d with Vector<> of %d: ", oname[o], R, C, 0); Snap s = model[o]; double c = num();
		switch (r.pick(9)) {
			case 0: request(fmt("%s %dx%d * Vector<> of %d", oname[o], R, C, b), C == b, [&] { auto z = m * y; if (z.size() != R) wrong("size of a product"); }); break;
			case 1: request(fmt("Vector<> of %d * %s %dx%d", a, oname[o], R, C), R == a, [&] { auto z = x * m; if (z.size() != C) wrong("size of a product"); }); break;
			case 2: request(fmt("diagmult(Vector<> of %d, %s %dx%d)", a, oname[o], R, C), R == a, [&] { auto z = diagmult(x, m); }); break;
			case 3: request(fmt("diagmult(%s %dx%d, Vector<> of %d)", oname[o], R, C, b), C == b, [&] { auto z = diagmult(m, y); }); break;
			case 4: { int i = wild(R); bool ok = i >= 0 && i < R && C == b; if (ok) for (int j = 0; j < C; j++) s.v[i * C + j] = y[j]; request(fmt("%s %dx%d [%d] = Vector<> of %d", oname[o], R, C, i, b), ok, [&] { m[i] = y; }, o, &s); } break;
			case 5: { int j = wild(C); bool ok = j >= 0 && j < C && R == a; if (ok) for (int i = 0; i < R; i++) s.v[i * C + j] += x[i]; request(fmt("%s %dx%d T()[%d] += Vector<> of %d", oname[o], R, C, j, a), ok, [&] { m.T()[j] += x; }, o, &s); } break;
			case 6: { int d = std::min(R, C), k = near(d); Vector<> z(k); for (int i = 0; i < k; i++) z[i] = num(); if (k == d) for (int i = 0; i < d; i++) s.v[i * C + i] = z[i]; request(fmt("%s %dx%d diagonal_slice() = Vector<> of %d", oname[o], R, C, k), k == d, [&] { m.diagonal_slice() = z; }, o, &s); } break;
			case 7: { int d = near(R); vector<double> want; Vector<> z(d); for (int i = 0; i < d; i++) z[i] = num(); bool ok = R == d && C == d; if (ok) for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) s.v[i * C + j] = i == j ? z[i] : 0.0; request(fmt("%s %dx%d = diagonal matrix of %d", oname[o], R, C, d), ok, [&] { m = z.as_diagonal(); }, o, &s, true); } break;
			default: { bool ok = a == R && b == C; if (ok) for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) s.v[i * C + j] += x[i] * y[j] * c; request(fmt("%s %dx%d += outer product %dx%d", oname[o], R, C, a, b), ok, [&] { m += x.as_col() * (y * c).as_row(); }, o); }
		}
	}
	// ---------------------------------------------------------------- requests about one matrix
	template<class M> void square(M& m, int o) {
		int R = m.num_rows(), C = m.num_cols(); bool sq = R == C; Snap s = model[o]; string w = fmt("%s %dx%d: ", oname[o], R, C); double c = num(), got = 0;
		switch (r.pick(6)) {
			case 0: if (sq) for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) s.v[i * C + j] = i == j ? c : 0; request(w + "= Identity", sq, [&] { m = Identity * c; }, o, &s); break;
			case 1: if (sq) for (int i = 0; i < R; i++) s.v[i * C + i] += c; request(w + "+= Identity", sq, [&] { m += Identity * c; }, o, &s); break;
			case 2: { double t = 0; if (sq) for (int i = 0; i < R; i++) t += s.v[i * C + i]; request(w + "trace", sq, [&] { got = trace(m); }); if (sq && got != t) wrong(w + "trace"); } break;
			case 3: request(w + "determinant", sq, [&] { got = determinant(m); }); break;
			case 4: if (sq) for (int i = 0; i < R; i++) for (int j = i + 1; j < C; j++) s.v[i * C + j] = s.v[j * C + i] = (s.v[i * C + j] + s.v[j * C + i]) / 2; request(w + "Symmetrize", sq, [&] { Symmetrize(m); }, o, &s); break;
			default: request(w + "exp", sq, [&] { auto x = TooN::exp(m * 0.01); }); break;
		}
	}
	template<class M> void sized(M& m, int o) {       // constants with a size of their own
		int R = m.num_rows(), C = m.num_cols(); int a = near(R), b = near(C); string w = fmt("%s %dx%d: ", oname[o], R, C);
		switch (r.pick(3)) {
			case 0: { Snap z{R, C, vector<double>(R * C, 0.0)}; request(w + "= Zeros", true, [&] { m = Zeros; }, o, &z); } break;
			case 1: { Snap z{R, C, vector<double>(R * C, 3.0)}; request(w + "= Ones*3", true, [&] { m = Ones * 3.0; }, o, &z); } break;
			default: { int n = -1 - (int)r.pick(3); (void)a; (void)b; request(fmt("Vector<>(%d)", n), false, [&] { Vector<> x(n); }); }
		}
	}
	// ---------------------------------------------------------------- Fill and Data
	template<class V> void fill_vec(V& v, int o) {
		int n = v.size(), k = 1 + (int)r.pick(7); bool ok = n == k; Snap s{n, 1, {}}; double c[8]; for (int i = 0; i < k; i++) { c[i] = num(); s.v.push_back(c[i]); }
		string w = fmt("%s of %d: ", oname[o], n);
		if (r.pick(2)) request(w + fmt("Data of %d", k), ok, [&] { switch (k) { case 1: v = Data(c[0]); break; case 2: v = Data(c[0], c[1]); break; case 3: v = Data(c[0], c[1], c[2]); break; case 4: v = Data(c[0], c[1], c[2], c[3]); break; case 5: v = Data(c[0], c[1], c[2], c[3], c[4]); break; case 6: v = Data(c[0], c[1], c[2], c[3], c[4], c[5]); break; default: v = Data(c[0], c[1], c[2], c[3], c[4], c[5], c[6]); } }, o, &s);
		else request(w + fmt("Fill with %d", k), ok, [&] { switch (k) { case 1: Fill(v) = c[0]; break; case 2: Fill(v) = c[0], c[1]; break; case 3: Fill(v) = c[0], c[1], c[2]; break; case 4: Fill(v) = c[0], c[1], c[2], c[3]; break; case 5: Fill(v) = c[0], c[1], c[2], c[3], c[4]; break; case 6: Fill(v) = c[0], c[1], c[2], c[3], c[4], c[5]; break; default: Fill(v) = c[0], c[1], c[2], c[3], c[4], c[5], c[6]; } }, o, &s, true);
	}
	template<class V> void fill_slice(V& v, int o) {
		int n = v.size(); if (!n) return; int st = (int)r.pick(n), l = (int)r.pick(n - st) + 1, k = 1 + (int)r.pick(4); bool ok = l == k; Snap s = model[o]; double c[4]; for (int i = 0; i < k; i++) { c[i] = num(); if (ok) s.v[st + i] = c[i]; }
		auto x = v.slice(st, l);
		request(fmt("%s of %d: Fill slice(%d,%d) with %d", oname[o], n, st, l, k), ok, [&] { switch (k) { case 1: Fill(x) = c[0]; break; case 2: Fill(x) = c[0], c[1]; break; case 3: Fill(x) = c[0], c[1], c[2]; break; default: Fill(x) = c[0], c[1], c[2], c[3]; } }, o, &s, true);
	}
	template<class M> void fill_mat(M& m, int o) {
		int R = m.num_rows(), C = m.num_cols(), k = r.pick(2) ? R * C : 1 + (int)r.pick(9); if (k > 9) k = 9; bool ok = R * C == k; Snap s{R, C, {}}; double c[9]; for (int i = 0; i < k; i++) { c[i] = num(); s.v.push_back(c[i]); }
		string w = fmt("%s %dx%d: ", oname[o], R, C);
#define D_(...) { if (d) m = Data(__VA_ARGS__); else Fill(m) = __VA_ARGS__; } break
		bool d = r.pick(2);
		request(w + fmt(d ? "Data of %d" : "Fill with %d", k), ok, [&] { switch (k) { case 1: D_(c[0]); case 2: D_(c[0], c[1]); case 3: D_(c[0], c[1], c[2]); case 4: D_(c[0], c[1], c[2], c[3]); case 5: D_(c[0], c[1], c[2], c[3], c[4]); case 6: D_(c[0], c[1], c[2], c[3], c[4], c[5]); case 7: D_(c[0], c[1], c[2], c[3], c[4], c[5], c[6]); case 8: D_(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]); default: D_(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8]); } }, o, &s, !d);
#undef D_
	}
	// ---------------------------------------------------------------- decompositions, groups, least squares
	Matrix<> mat(int R, int C) { heap::Paused p; Matrix<> m(R, C); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) m(i, j) = num() + (i == j ? 40 : 0); for (int i = 0; i < std::min(R, C); i++) for (int j = 0; j < i; j++) m(i, j) = m(j, i); return m; }
	Vector<> vec(int n) { heap::Paused p; Vector<> v(n); for (int i = 0; i < n; i++) v[i] = num(); return v; }
	void decomp() {
		int n = 1 + (int)r.pick(4), R = pos(n), C = pos(n), k = near(n); Matrix<> a = mat(n, n), g = mat(R, C), B = mat(k ? k : 1, 2); Vector<> b = vec(k); bool sq = R == C, fit = sq && R == n, okb = k == n, okB = (k ? k : 1) == n;
		string w = fmt("%dx%d", R, C);
		switch (r.pick(31)) {
			case 0: request("Cholesky<> of " + w, sq, [&] { Cholesky<> d(g); }); break;
			case 1: { Cholesky<> d(n); request(fmt("Cholesky<> of %d, compute ", n) + w, fit, [&] { d.compute(g); }); } break;
			case 2: { Cholesky<> d(a); request(fmt("Cholesky<> of %d, backsub vector of %d", n, k), okb, [&] { d.backsub(b); }); } break;
			case 3: { Cholesky<> d(a); request(fmt("Cholesky<> of %d, backsub matrix of %d rows", n, B.num_rows()), okB, [&] { d.backsub(B); }); } break;
			case 4: { Cholesky<> d(a); request(fmt("Cholesky<> of %d, mahalanobis of %d", n, k), okb, [&] { d.mahalanobis(b); }); } break;
			case 5: request("Lapack_Cholesky<> of " + w, sq, [&] { Lapack_Cholesky<Dynamic> d(g); }); break;
			case 6: { Lapack_Cholesky<Dynamic> d(n); request(fmt("Lapack_Cholesky<> of %d, compute ", n) + w, fit, [&] { d.compute(g); }); } break;
			case 7: { Lapack_Cholesky<Dynamic> d(a); request(fmt("Lapack_Cholesky<> of %d, backsub vector of %d", n, k), okb, [&] { d.backsub(b); }); } break;
			case 8: { Lapack_Cholesky<Dynamic> d(a); request(fmt("Lapack_Cholesky<> of %d, backsub matrix of %d rows", n, B.num_rows()), okB, [&] { d.backsub(B); }); } break;
			case 9: request("LU<> of " + w, sq, [&] { LU<> d(g); }); break;
			case 10: { LU<> d(a); request(fmt("LU<> of %d, compute ", n) + w, fit, [&] { d.compute(g); }); } break;
			case 11: { LU<> d(a); request(fmt("LU<> of %d, backsub vector of %d", n, k), okb, [&] { d.backsub(b); }); } break;
			case 12: { LU<> d(a); request(fmt("LU<> of %d, backsub matrix of %d rows", n, B.num_rows()), okB, [&] { d.backsub(B); }); } break;
			case 13: request("SVD<> of " + w, true, [&] { SVD<> d(g); }); break;
			case 14: { SVD<> d(a); request(fmt("SVD<> of %d, compute ", n) + w, R == n && C == n, [&] { d.compute(g); }); } break;
			case 15: { SVD<> d(g); request("SVD<> of " + w + fmt(", backsub vector of %d", k), k == R, [&] { d.backsub(b); }); } break;
			case 16: { SVD<> d(g); request("SVD<> of " + w + fmt(", backsub matrix of %d rows", B.num_rows()), B.num_rows() == R, [&] { d.backsub(B); }); } break;
			case 17: request("SymEigen<> of " + w, sq, [&] { SymEigen<> d(g); }); break;
			case 18: { SymEigen<> d(n); request(fmt("SymEigen<> of %d, compute ", n) + w, fit, [&] { d.compute(g); }); } break;
			case 19: { SymEigen<> d(a); request(fmt("SymEigen<> of %d, backsub vector of %d", n, k), okb, [&] { d.backsub(b); }); } break;
			case 20: request(fmt("gaussian_elimination of %dx%d with a vector of %d", R, C, k), sq && k == R, [&] { gaussian_elimination(g, b); }); break;
			case 21: request(fmt("gaussian_elimination of %dx%d with a matrix of %d rows", R, C, B.num_rows()), sq && B.num_rows() == R, [&] { gaussian_elimination(g, B); }); break;
			case 22: request("determinant of " + w, sq, [&] { determinant(g); }); break;
			case 23: request("determinant_gaussian_elimination of " + w, sq, [&] { determinant_gaussian_elimination(g); }); break;
			case 24: { Matrix<3> t = Identity; LU<3> d(t); request("LU<3>, compute " + w, R == 3 && C == 3, [&] { d.compute(g); }); } break;
			case 25: { Matrix<3> t = Identity; Cholesky<3> d(t); request(fmt("Cholesky<3>, backsub vector of %d", k), k == 3, [&] { d.backsub(b); }); } break;
			case 26: { Matrix<3> t = Identity; SVD<3> d(t); request("SVD<3>, compute " + w, R == 3 && C == 3, [&] { d.compute(g); }); } break;
			case 27: { Matrix<4> t = Identity; SymEigen<4> d(t); request("SymEigen<4>, compute " + w, R == 4 && C == 4, [&] { d.compute(g); }); } break;
			case 28: request("log of " + w, sq, [&] { Matrix<> e(R, C); e = Ones * 0.01; if (sq) e += Identity; TooN::log(e); }); break;
			case 29: request("sqrt of " + w, sq, [&] { Matrix<> e(R, C); e = Zeros; if (sq) e += Identity * 4.0; TooN::sqrt(e); }); break;
			default: request(fmt("cross_product_matrix of %d", k), k == 3, [&] { cross_product_matrix(b); });
		}
	}
	void groups() {
		int k = near(3 + (int)r.pick(5)); Vector<> b = vec(k); for (int i = 0; i < k; i++) b[i] *= 0.05; int q = pos(4); Matrix<> B = mat(q, pos(q));
		SO3<> s3; SE3<> e3; SE2<> e2; SO2<> s2; SIM3<> i3; SIM2<> i2; SL<3> l3; Matrix<> S = mat(pos(6), pos(6));
		switch (r.pick(25)) {
			case 0: request(fmt("SO3::exp of %d", k), k == 3, [&] { SO3<>::exp(b); }); break;
			case 1: request(fmt("SE3::exp of %d", k), k == 6, [&] { SE3<>::exp(b); }); break;
			case 2: request(fmt("SE2::exp of %d", k), k == 3, [&] { SE2<>::exp(b); }); break;
			case 3: request(fmt("SIM3::exp of %d", k), k == 7, [&] { SIM3<>::exp(b); }); break;
			case 4: request(fmt("SIM2::exp of %d", k), k == 4, [&] { SIM2<>::exp(b); }); break;
			case 5: request(fmt("SL<3>::exp of %d", k), k == 8, [&] { SL<3>::exp(b); }); break;
			case 6: request(fmt("SL<2>::exp of %d", k), k == 3, [&] { SL<2>::exp(b); }); break;
			case 7: request(fmt("SO3 * vector of %d", k), k == 3, [&] { s3 * b; }); break;
			case 8: request(fmt("vector of %d * SO3", k), k == 3, [&] { b * s3; }); break;
			case 9: request(fmt("SE3 * vector of %d", k), k == 4, [&] { e3 * b; }); break;
			case 10: request(fmt("vector of %d * SE3", k), k == 4, [&] { b * e3; }); break;
			case 11: request(fmt("SE2 * vector of %d", k), k == 3, [&] { e2 * b; }); break;
			case 12: request(fmt("SO2 * vector of %d", k), k == 2, [&] { s2 * b; }); break;
			case 13: request(fmt("SIM3 * vector of %d", k), k == 4, [&] { i3 * b; }); break;
			case 14: request(fmt("SIM2 * vector of %d", k), k == 3, [&] { i2 * b; }); break;
			case 15: request(fmt("SL<3> * vector of %d", k), k == 3, [&] { l3 * b; }); break;
			case 16: request(fmt("SE3 adjoint of %d", k), k == 6, [&] { e3.adjoint(b); }); break;
			case 17: request(fmt("SE3 trinvadjoint of %d", k), k == 6, [&] { e3.trinvadjoint(b); }); break;
			case 18: request(fmt("SE3 adjoint of %dx%d", S.num_rows(), S.num_cols()), S.num_rows() == 6 && S.num_cols() == 6, [&] { e3.adjoint(S); }); break;
			case 19: { int i = wild(8); request(fmt("SL<3>::generator(%d)", i), i >= 0 && i < 8, [&] { SL<3>::generator(i); }); } break;
			case 20: request(fmt("SO3 * matrix of %d rows", q), q == 3, [&] { auto x = s3 * B; }); break;
			case 21: request(fmt("SE3 * matrix of %d rows", q), q == 4, [&] { auto x = e3 * B; }); break;
			case 22: request(fmt("matrix of %d columns * SE3", B.num_cols()), B.num_cols() == 4, [&] { auto x = B * e3; }); break;
			case 23: { Matrix<> M = mat(pos(3), pos(3)); for (int i = 0; i < M.num_rows(); i++) for (int j = 0; j < M.num_cols(); j++) if (i != j) M(i, j) *= 0.1; request(fmt("SO3 from %dx%d", M.num_rows(), M.num_cols()), M.num_rows() == 3 && M.num_cols() == 3, [&] { s3 = M; }); } break;
			default: { Vector<> p = vec(near(6)); request(fmt("SIM3 adjoint of %d", (int)p.size()), p.size() == 7, [&] { i3.adjoint(p); }); }
		}
	}
	// the remaining products, adjoints and constructions, and the sizes of both operands
	void groups2() {
		int k = near(3 + (int)r.pick(5)); Vector<> b = vec(k); for (int i = 0; i < k; i++) b[i] *= 0.05; int q = pos(4), p = pos(4); Matrix<> B = mat(q, p);
		SO3<> s3; SE3<> e3; SE2<> e2; SO2<> s2; SIM3<> i3; SIM2<> i2; SL<3> l3; int a = pos(6 + (int)r.pick(2)), c = r.pick(2) ? a : pos(7); Matrix<> S = mat(a, c); string sz = fmt("%dx%d", a, c), bz = fmt("%dx%d", q, p);
		Vector<> u = vec(near(3)), v = vec(near(3)); string uv = fmt("vectors of %d and %d", (int)u.size(), (int)v.size());
		switch (r.pick(50)) {
			case 44: case 45: { Vector<3> f, t; for (int i = 0; i < 3; i++) f[i] = (double)r.range(-3, 3); if (norm_sq(f) == 0) f[1] = 1; int w = r.range(-3, 3); t = f * w; if (r.pick(3) == 2) f *= std::ldexp(1.0, -500); bool fixed = r.pick(2); Vector<> df = f, dt = t;
				request(fmt("SO3 from [%g %g %g] to the direction of %d times that", f[0], f[1], f[2], w), w >= 0, [&] { SO3<> x = fixed ? SO3<>(f, t) : SO3<>(df, dt); }); } break;
			case 46: case 47: { int o[3] = { 0, 1, 2 }, s[3]; int det = 1; for (int i = 2; i > 0; i--) { int x = (int)r.pick(i + 1); if (x != i) { std::swap(o[i], o[x]); det = -det; } } Matrix<3> m = Zeros; for (int i = 0; i < 3; i++) { s[i] = r.pick(2) ? 1 : -1; det *= s[i]; m(i, o[i]) = s[i] * std::ldexp(1.0, r.range(-2, 2)); }
				int how = (int)r.pick(3); SO3<> x; request(fmt("SO3 of a %s", det > 0 ? "rotation" : "mirror image"), det > 0, [&] { if (how == 0) x = SO3<>(m); else if (how == 1) x = m; else { SE3<> y(m, makeVector(1.0, 2, 3)); } }); } break;
			case 48: { Matrix<3> m = Identity; bool flat = r.pick(2); int z = (int)r.pick(3); for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) m(i, j) = r.small_int(3); if (flat) for (int i = 0; i < 3; i++) r.pick(2), m(z, i) = 0; request(flat ? "SL<3> of a matrix with a row of zeros" : "SL<3> of a unit triangular matrix", !flat, [&] { SL<3> x(m); }); } break;
			case 49: { Matrix<3> m = Identity; GR_SVD<3, 3, double, false, true> nu(m); GR_SVD<3, 3, double, true, false> nv(m); int w = (int)r.pick(4); request(fmt("GR_SVD without %s: %s", w < 2 ? "U" : "V", w % 2 ? "V" : "U"), w == 1 || w == 2, [&] { try { if (w == 0) nu.get_U(); if (w == 1) nu.get_V(); if (w == 2) nv.get_U(); if (w == 3) nv.get_V(); } catch (int) { refused = true; } }); } break;
			case 0: request("SE3 trinvadjoint of " + sz, a == 6 && c == 6, [&] { e3.trinvadjoint(S); }); break;
			case 1: request("SE3 adjoint of " + sz, a == 6 && c == 6, [&] { e3.adjoint(S); }); break;
			case 2: request("SIM3 trinvadjoint of " + sz, a == 7 && c == 7, [&] { i3.trinvadjoint(S); }); break;
			case 3: request("SIM3 adjoint of " + sz, a == 7 && c == 7, [&] { i3.adjoint(S); }); break;
			case 4: request(fmt("SIM3 trinvadjoint of %d", k), k == 7, [&] { i3.trinvadjoint(b); }); break;
			case 5: request(fmt("SO3 adjoint of %d", k), k == 3, [&] { s3.adjoint(b); }); break;
			case 6: request(fmt("SE2 adjoint of %d", k), k == 3, [&] { e2.adjoint(b); }); break;
			case 7: request(fmt("SIM2 adjoint of %d", k), k == 4, [&] { i2.adjoint(b); }); break;
			case 8: request("matrix " + bz + " * SO3", p == 3, [&] { auto x = B * s3; }); break;
			case 9: request("SO2 * matrix " + bz, q == 2, [&] { auto x = s2 * B; }); break;
			case 10: request("matrix " + bz + " * SO2", p == 2, [&] { auto x = B * s2; }); break;
			case 11: request("SE2 * matrix " + bz, q == 3, [&] { auto x = e2 * B; }); break;
			case 12: request("matrix " + bz + " * SE2", p == 3, [&] { auto x = B * e2; }); break;
			case 13: request("SIM2 * matrix " + bz, q == 3, [&] { auto x = i2 * B; }); break;
			case 14: request("matrix " + bz + " * SIM2", p == 3, [&] { auto x = B * i2; }); break;
			case 15: request("SIM3 * matrix " + bz, q == 4, [&] { auto x = i3 * B; }); break;
			case 16: request("matrix " + bz + " * SIM3", p == 4, [&] { auto x = B * i3; }); break;
			case 17: request("SL<3> * matrix " + bz, q == 3, [&] { auto x = l3 * B; }); break;
			case 18: request("matrix " + bz + " * SL<3>", p == 3, [&] { auto x = B * l3; }); break;
			case 19: request(fmt("vector of %d * SO2", k), k == 2, [&] { auto x = b * s2; }); break;
			case 20: request(fmt("vector of %d * SE2", k), k == 3, [&] { auto x = b * e2; }); break;
			case 21: request(fmt("vector of %d * SIM2", k), k == 3, [&] { auto x = b * i2; }); break;
			case 22: request(fmt("vector of %d * SIM3", k), k == 4, [&] { auto x = b * i3; }); break;
			case 23: request(fmt("vector of %d * SL<3>", k), k == 3, [&] { auto x = b * l3; }); break;
			case 24: { for (int i = 0; i < u.size(); i++) u[i] = i + 1; for (int i = 0; i < v.size(); i++) v[i] = i + 2; request("SO3 from " + uv, u.size() == 3 && v.size() == 3, [&] { SO3<> x(u, v); }); } break;
			case 25: request(fmt("SO3 from a vector of %d", k), k == 3, [&] { SO3<> x(b); }); break;
			case 26: request(fmt("SE2 from a vector of %d", k), k == 3, [&] { SE2<> x(b); }); break;
			case 27: request(fmt("SE3 from a vector of %d", k), k == 6, [&] { SE3<> x(b); }); break;
			case 28: request(fmt("SIM2 from a vector of %d", k), k == 4, [&] { SIM2<> x(b); }); break;
			case 29: request(fmt("SIM3 from a vector of %d", k), k == 7, [&] { SIM3<> x(b); }); break;
			case 30: request(fmt("SL<3> from a vector of %d", k), k == 8, [&] { SL<3> x(b); }); break;
			case 31: request(fmt("SE3 from a rotation and a translation of %d", k), k == 3, [&] { SE3<> x(s3, b); }); break;
			case 32: { Matrix<> M = mat(pos(2), pos(2)); request(fmt("SO2 from %dx%d", M.num_rows(), M.num_cols()), M.num_rows() == 2 && M.num_cols() == 2, [&] { s2 = M; }); } break;
			case 33: { Matrix<> M = mat(pos(3), pos(3)); for (int i = 0; i < M.num_rows(); i++) for (int j = 0; j < M.num_cols(); j++) if (i != j) M(i, j) *= 0.1; request(fmt("SL<3> from %dx%d", M.num_rows(), M.num_cols()), M.num_rows() == 3 && M.num_cols() == 3, [&] { SL<3> x(M); }); } break;
			case 34: { Matrix<> M = mat(pos(3), pos(3)); for (int i = 0; i < M.num_rows(); i++) for (int j = 0; j < M.num_cols(); j++) if (i != j) M(i, j) *= 0.1; request(fmt("SO3 from %dx%d", M.num_rows(), M.num_cols()), M.num_rows() == 3 && M.num_cols() == 3, [&] { SO3<> x(M); }); } break;
			case 35: { Matrix<3> R; request(fmt("rodrigues_so3_exp of %d", k), k == 3, [&] { rodrigues_so3_exp(b, 1.0, 0.5, R); }); } break;
			case 36: { DiagonalMatrix<> d(u), e(v); request("product of diagonal matrices from " + uv, u.size() == v.size(), [&] { auto x = d * e; }); } break;
			case 37: { DiagonalMatrix<> d(u); request("diagonal matrix times vector, from " + uv, u.size() == v.size(), [&] { auto x = d * v; }); } break;
			case 38: { DiagonalMatrix<> d(u); request("vector times diagonal matrix, from " + uv, u.size() == v.size(), [&] { auto x = v * d; }); } break;
			case 39: { DiagonalMatrix<> d(u); request(fmt("diagonal matrix of %d times matrix ", (int)u.size()) + bz, u.size() == q, [&] { auto x = d * B; }); } break;
			case 40: { DiagonalMatrix<> d(u); request("matrix " + bz + fmt(" times diagonal matrix of %d", (int)u.size()), u.size() == p, [&] { auto x = B * d; }); } break;
			case 41: { Matrix<> D = mat(3, 3); SymEigen<> x(D); request(fmt("SymEigen<> backsub of %d", k), k == 3, [&] { x.backsub(b); }); } break;
			case 42: { Matrix<3> t = Identity; GR_SVD<3, 3> x(t); request(fmt("GR_SVD<3> backsub of %d", k), k == 3, [&] { x.backsub(b); }); } break;
			default: request(fmt("project of %d, unproject", k), true, [&] { if (k > 1) unproject(project(b)); }); break;
		}
	}
	void wls() {
		int n = 1 + (int)r.pick(4), k = near(n), N = pos(2), N2 = pos(N), S = pos(n); WLS<> w(n); { heap::Paused p; w.add_prior(1.0); }
		auto go = [&](const string& what, bool valid, const Fn& f) {
			request(fmt("WLS<> of %d: ", n) + what, valid, f);
		};
		Vector<> J = vec(k), m = vec(N2); Matrix<> JJ = mat(N, S), JT = mat(S, N), I = mat(pos(N), pos(N)), Pr = mat(S, pos(S)); bool icov = I.num_rows() == N && I.num_cols() == N;
		int ix = wild(n);
		switch (r.pick(9)) {
			case 0: go(fmt("add_mJ of a Jacobian of %d", k), k == n, [&] { w.add_mJ(1.0, J); }); break;
			case 1: go(fmt("add_mJ of %d measurements, Jacobian %dx%d", N2, N, S), N2 == N && S == n, [&] { w.add_mJ(m, JJ); }); break;
			case 2: go(fmt("add_mJ of %d measurements, Jacobian %dx%d, inverse covariance %dx%d", N2, S, N, I.num_rows(), I.num_cols()), N2 == N && S == n && icov, [&] { w.add_mJ(m, JT, I); }); break;
			case 3: go(fmt("add_mJ_rows of %d measurements, Jacobian %dx%d, inverse covariance %dx%d", N2, N, S, I.num_rows(), I.num_cols()), N2 == N && S == n && icov, [&] { w.add_mJ_rows(m, JJ, I); }); break;
			case 4: go(fmt("add_prior of %d", k), k == n, [&] { w.add_prior(J); }); break;
			case 5: go(fmt("add_prior of %dx%d", Pr.num_rows(), Pr.num_cols()), Pr.num_rows() == n && Pr.num_cols() == n, [&] { w.add_prior(Pr); }); break;
			case 6: { WLS<> o(S); heap::Paused p; o.add_prior(1.0); go(fmt("+= WLS<> of %d", S), S == n, [&] { heap::Armed a; w += o; }); } break;
			case 7: go(fmt("add_sparse_mJ of %d at %d", k, ix), k == 0 || (ix >= 0 && (long long)ix + k <= n), [&] { w.add_sparse_mJ(1.0, J, ix, 2.0); }); break;
			default: go(fmt("add_sparse_mJ_rows of %d measurements, Jacobian %dx%d at %d, inverse covariance %dx%d", N2, N, S, ix, I.num_rows(), I.num_cols()), N2 == N && icov && ix >= 0 && (long long)ix + S <= n, [&] { w.add_sparse_mJ_rows(m, JJ, ix, I); });
		}
	}
	void resize() {
		int n = wild(vr.size()); if (n > 100) n = 7; if (n < 0) { request(fmt("Vector<Resizable> resize(%d)", n), false, [&] { vr.resize(n); }, VR); return; }
		request(fmt("Vector<Resizable> resize(%d)", n), true, [&] { vr.resize(n); }, VR);
		for (int i = 0; i < vr.size(); i++) vr[i] = num(); model[VR] = snap(vr);
	}
	void construct() {
		int k = near(4), R = pos(3), C = pos(4); Vector<> b = vec(k); Matrix<> B = mat(R, C);
		switch (r.pick(4)) {
			case 0: request(fmt("Vector<4> from a Vector<> of %d", k), k == 4, [&] { Vector<4> x(b); }); break;
			case 1: request(fmt("Matrix<3,4> from a Matrix<> %dx%d", R, C), R == 3 && C == 4, [&] { Matrix<3, 4> x(B); }); break;
			case 2: request(fmt("Matrix<Dynamic,4> from a Matrix<> %dx%d", R, C), C == 4, [&] { Matrix<Dynamic, 4> x(B); }); break;
			default: { int n = 1 + (int)r.pick(4); request(fmt("Vector<4> from the first %d of a sum", n), n == 4 && k >= 4, [&] { Vector<4> x(b.slice(0, n) + b.slice(0, n)); }); }
		}
	}
	void pair_slices() {
		int n = vd.size(), k = v4.size(); int s = (int)r.pick(n + 1), l = (int)r.pick(n - s + 1), t = (int)r.pick(k + 1), u = (int)r.pick(k - t + 1); Snap w = model[VD]; if (l == u) for (int i = 0; i < l; i++) w.v[s + i] = model[V4].v[t + i];
		request(fmt("Vector<> slice(%d,%d) = Vector<4> slice(%d,%d)", s, l, t, u), l == u, [&] { vd.slice(s, l) = v4.slice(t, u); }, VD, &w);
		int R = md.num_rows(), C = md.num_cols(), i = (int)r.pick(R), j = (int)r.pick(C), a = (int)r.pick(R - i) + 1, b = (int)r.pick(C - j) + 1, e = 1 + (int)r.pick(3), f = 1 + (int)r.pick(4); Snap x = model[MD]; if (a == e && b == f) for (int p = 0; p < a; p++) for (int q = 0; q < b; q++) x.v[(i + p) * C + j + q] = model[M34].v[p * 4 + q];
		request(fmt("Matrix<> slice(%d,%d,%d,%d) = Matrix<3,4> slice(0,0,%d,%d)", i, j, a, b, e, f), a == e && b == f, [&] { md.slice(i, j, a, b) = m34.slice(0, 0, e, f); }, MD, &x);
	}
	void step() {
		switch (r.pick(28)) {
			case 26: groups2(); break; case 0: index_vec(vd, VD); break; case 1: index_vec(vr, VR); break; case 2: index_vec(v4, V4); break;
			case 3: switch (r.pick(4)) { case 0: index_mat(md, MD); break; case 1: index_mat(mc, MC); break; case 2: index_mat(m34, M34); break; default: index_mat(mx, MX); } break;
			case 4: slice_vec(vd, VD); break; case 5: slice_vec(vr, VR); break; case 6: slice_vec(v4, V4); break;
			case 7: switch (r.pick(3)) { case 0: slice_mat(md, MD, false); break; case 1: slice_mat(mc, MC, true); break; default: slice_mat(m34, M34, false); } break;
			case 8: switch (r.pick(3)) { case 0: static_slice(vd, VD); break; case 1: static_slice(vr, VR); break; default: static_slice(v4, V4); } break;
			case 9: pair_vec_any(vd, VD); break; case 10: pair_vec_any(v4, V4); break; case 11: pair_vec_any(vr, VR, true); break;
			case 12: pair_mat_any(md, MD); break; case 13: pair_mat_any(mc, MC); break; case 14: if (r.pick(2)) pair_mat_any(m34, M34); else pair_mat_any(mx, MX); break;
			case 15: switch (r.pick(4)) { case 0: mat_vec(md, MD); break; case 1: mat_vec(mc, MC); break; case 2: mat_vec(m34, M34); break; default: mat_vec(mx, MX); } break;
			case 16: switch (r.pick(3)) { case 0: square(md, MD); break; case 1: square(mc, MC); break; default: square(mx, MX); } break;
			case 17: sized(md, MD); break;
			case 18: fill_vec(vd, VD); break; case 19: switch (r.pick(3)) { case 0: fill_mat(md, MD); break; case 1: fill_mat(mc, MC); break; default: fill_mat(mx, MX); } break;
			case 20: decomp(); break; case 21: if (r.pick(3)) groups2(); else groups(); break; case 22: wls(); break; case 23: resize(); break; case 24: construct(); break;
			default: if (r.pick(2)) pair_slices(); else fill_slice(vd, VD);
		}
	}
};
}
static void c09(Run& r) {
	heap::begin_epoch(); heap::misuse = nullptr;
	W w(r, r.extent(0, 6, 40), r.extent(0, 6, 40), r.extent(1, 5, 20), r.extent(1, 5, 20), r.extent(1, 5, 20), r.extent(1, 5, 20), r.extent(1, 4, 20));
	for (int i = 0; i < w.vd.size(); i++) w.vd[i] = w.num(); for (int i = 0; i < w.vr.size(); i++) w.vr[i] = w.num(); for (int i = 0; i < 4; i++) w.v4[i] = w.num();
	for (int i = 0; i < w.md.num_rows(); i++) for (int j = 0; j < w.md.num_cols(); j++) w.md(i, j) = w.num();
	for (int i = 0; i < w.mc.num_rows(); i++) for (int j = 0; j < w.mc.num_cols(); j++) w.mc(i, j) = w.num();
	for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) w.m34(i, j) = w.num();
	for (int i = 0; i < w.mx.num_rows(); i++) for (int j = 0; j < 3; j++) w.mx(i, j) = w.num();
	for (int o = 0; o < NOBJ; o++) w.model.push_back(w.now(o));
	r.set_ops(r.range(2, 20));
	while (r.next_op()) w.step();
}
static Register R9("C09", c09, "indexing, slicing, size checks of vector and matrix arithmetic, constants, Fill, Data, decompositions, Lie groups, WLS", "global operator new (failures), std::abort and assert (observed)",
	"a request that does not fit was made (an index, slice, size or number of elements outside what the object has)");
