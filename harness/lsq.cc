// C10: weighted least squares accumulated by any number of workers, in any order, with failures and checkpoints.
// C11: the same for iteratively reweighted least squares.
#include "sim.h"
#include "scalar.h"
#include <TooN/TooN.h>
#include "wide.h"
#include <TooN/wls.h>
#include <TooN/irls.h>
#include <TooN/SVD.h>
#include <TooN/SymEigen.h>
#include <TooN/Lapack_Cholesky.h>
#include <memory>
using namespace sim; using namespace TooN;
using std::vector; using std::string;
namespace {
typedef long double ld;
// what the normal equations are: accumulated by hand, exactly
struct Ref {
	int n; vector<ld> C, v;
	Ref(int n_ = 0) : n(n_), C(n_ * n_, 0), v(n_, 0) {}
	void add(const vector<vector<double>>& J, const vector<double>& m, const vector<vector<double>>& W) {   // J: one row per measurement
		int N = (int)m.size();
		for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) { ld w = W[a][b]; if (w == 0) continue; for (int i = 0; i < n; i++) { v[i] += w * J[a][i] * m[b]; for (int j = 0; j < n; j++) C[i * n + j] += w * J[a][i] * J[b][j]; } }
	}
	void merge(const Ref& o) { for (size_t i = 0; i < C.size(); i++) C[i] += o.C[i]; for (size_t i = 0; i < v.size(); i++) v[i] += o.v[i]; }
	void clear() { std::fill(C.begin(), C.end(), 0); std::fill(v.begin(), v.end(), 0); }
};
template<int N> struct Sz { static int of(int n) { return N < 0 ? n : N; } };
template<int Size, class P, template<int, class> class D> struct Shop {
	typedef WLS<Size, P, D> W;
	Run& r; int n; const char* name;
	vector<std::unique_ptr<W>> w; vector<Ref> ref; vector<std::unique_ptr<W>> saved; vector<Ref> savedref; vector<bool> spd, savedspd;
	long delivered = 0;
	Shop(Run& r_, int n_, const char* nm) : r(r_), n(n_), name(nm) {}
	double num(int m) { return r.small_int(m); }
	template<int S> Vector<S, P> tv(const vector<double>& x) { Vector<S, P> v((int)x.size()); for (size_t i = 0; i < x.size(); i++) v[(int)i] = P(x[i]); return v; }
	template<int R, int C> Matrix<R, C, P> tm(const vector<vector<double>>& x, int cols) { Matrix<R, C, P> m((int)x.size(), cols); for (size_t i = 0; i < x.size(); i++) for (int j = 0; j < cols; j++) m((int)i, j) = P(x[i][j]); return m; }
	template<int R, int C> Matrix<R, C, P> tt(const vector<vector<double>>& x, int cols) { Matrix<R, C, P> m(cols, (int)x.size()); for (size_t i = 0; i < x.size(); i++) for (int j = 0; j < cols; j++) m(j, (int)i) = P(x[i][j]); return m; }

	void check(const char* op) {
		heap::Paused p; ScalarEnv::reset();
		for (size_t k = 0; k < w.size(); k++) {
			const W& x = *w[k];
			if (x.get_C_inv().num_rows() != n || x.get_vector().size() != n || x.get_mu().size() != n) r.fail("wrong-size", "%s: after %s", name, op);
			for (int i = 0; i < n; i++) {
				if (value(x.get_vector()[i]) != (double)ref[k].v[i]) r.fail("wrong-system", "%s: after %s, worker %zu: vector[%d] is %.17g, the measurements give %.17g", name, op, k, i, value(x.get_vector()[i]), (double)ref[k].v[i]);
				for (int j = i; j < n; j++) if (value(x.get_C_inv()(i, j)) != (double)ref[k].C[i * n + j]) r.fail("wrong-system", "%s: after %s, worker %zu: C_inv(%d,%d) is %.17g, the measurements give %.17g", name, op, k, i, j, value(x.get_C_inv()(i, j)), (double)ref[k].C[i * n + j]);
			}
		}
		for (const Ref& f : ref) for (ld d : f.v) r.hash_double((double)d);
	}
	// runs f on worker k, perhaps failing half way: then the worker is lost and comes back from its checkpoint
	bool attempt(const char* op, size_t k, const std::function<void()>& f, long other = -1) {
		heap::reset_count(); ScalarEnv::reset();
		uint64_t fa = r.pick_from(S_FAULT, 6);
		if (fa == 4) heap::fail_at(1 + r.pick_from(S_FAULT, 5));
		if (fa == 5) ScalarEnv::throw_at = 1 + r.pick_from(S_FAULT, 40);
		bool bad = false;
		try { heap::Armed a; f(); } catch (std::bad_alloc&) { if (!heap::fired()) r.fail("wrong-exception", "%s: %s throws bad_alloc", name, op); bad = true; r.fault("alloc_fail"); } catch (Interrupt&) { bad = true; r.fault("element_operation_throws"); }
		heap::fail_at(0); ScalarEnv::reset(); r.steps(1);
		r.log("worker %zu: %s%s", k, op, bad ? " fails" : "");
		if (bad) { restore(k); (void)other; r.probe("worker_lost_and_restored"); }
		return !bad;
	}
	void save(size_t k) { heap::Paused p; saved[k].reset(new W(*w[k])); savedref[k] = ref[k]; savedspd[k] = spd[k]; }
	void restore(size_t k) { heap::Paused p; r.log("worker %zu restored", k); if (r.pick(2)) *w[k] = *saved[k]; else w[k].reset(new W(*saved[k])); ref[k] = savedref[k]; spd[k] = savedspd[k]; r.nontrivial(); }
	vector<vector<double>> rows(int N, int c) { vector<vector<double>> J(N, vector<double>(c)); for (auto& q : J) for (double& d : q) d = num(3); return J; }
	vector<double> nums(int N, int m) { vector<double> v(N); for (double& d : v) d = num(m); return v; }
	vector<vector<double>> spdmat(int N) { vector<vector<double>> m(N, vector<double>(N, 0)); for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) m[i][j] = m[j][i] = num(1); for (int i = 0; i < N; i++) m[i][i] = N + (int)r.pick(3); return m; }
	vector<vector<double>> diag(const vector<double>& w) { vector<vector<double>> m(w.size(), vector<double>(w.size(), 0)); for (size_t i = 0; i < w.size(); i++) m[i][i] = w[i]; return m; }
	vector<vector<double>> spread(const vector<vector<double>>& J, int at) { vector<vector<double>> o; for (auto& q : J) { vector<double> t(n, 0); for (size_t i = 0; i < q.size(); i++) t[at + i] += q[i]; o.push_back(t); } return o; }
	void compute(size_t k) {
		if (!spd[k]) return;
		if (!attempt("compute", k, [&] { w[k]->compute(); })) return;
		const Ref& f = ref[k]; const W& x = *w[k]; ld nC = 0, nm = 0, worst = 0;
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (value(x.get_C_inv()(i, j)) != (double)f.C[i * n + j]) r.fail("wrong-system", "%s: C_inv is not symmetric after compute", name);
		for (int i = 0; i < n; i++) { ld t = 0; for (int j = 0; j < n; j++) t += std::fabs(f.C[i * n + j]); nC = std::max(nC, t); nm = std::max(nm, (ld)std::fabs(value(x.get_mu()[i]))); }
		for (int i = 0; i < n; i++) { ld t = -f.v[i]; for (int j = 0; j < n; j++) t += f.C[i * n + j] * value(x.get_mu()[j]); worst = std::max(worst, std::fabs(t)); }
		ld eps = std::is_same<P, float>::value ? 1.2e-7L : 2.3e-16L;
		if (!(worst <= 2000 * n * eps * nC * nm)) r.fail("wrong-solution", "%s: normal equations off by %.6Lg (matrix %.6Lg, solution %.6Lg)", name, worst, nC, nm);
		for (int i = 0; i < n; i++) r.hash_double(value(x.get_mu()[i]));
		// computing again from the same measurements, in an object of its own, gives the same
		std::unique_ptr<W> q(fresh()); q->get_C_inv() = x.get_C_inv(); q->get_vector() = x.get_vector(); q->compute();
		for (int i = 0; i < n; i++) if (!same_bits(value(q->get_mu()[i]), value(x.get_mu()[i]))) r.fail("depends-on-history", "%s: the solution depends on what was computed before: %.17g against %.17g", name, value(x.get_mu()[i]), value(q->get_mu()[i]));
		delivered++;
	}
	W* fresh() { heap::Paused p; return Size < 0 ? new W(n) : new W; }
	template<int N> void multi(size_t k, int N_, int form) {
		vector<vector<double>> J = rows(N_, n), C = spdmat(N_); vector<double> m = nums(N_, 4);
		Vector<N, P> tvm = tv<N>(m); Matrix<N, N, P> tc = tm<N, N>(C, N_); bool ok;
		if (form) { Matrix<N, Size, P> tj = tm<N, Size>(J, n); ok = attempt("add_mJ_rows", k, [&] { w[k]->add_mJ_rows(tvm, tj, tc); }); }
		else { Matrix<Size, N, P> tj = tt<Size, N>(J, n); ok = attempt("add_mJ with inverse covariance", k, [&] { w[k]->add_mJ(tvm, tj, tc); }); }
		if (ok) ref[k].add(J, m, C);
	}
	template<int N, int S1> void sparse(size_t k, int N_, int s1) {
		if (s1 > n) return; int at = (int)r.pick(n - s1 + 1);
		vector<vector<double>> J = rows(N_, s1), C = spdmat(N_); vector<double> m = nums(N_, 4); Vector<N, P> tvm = tv<N>(m); Matrix<N, N, P> tc = tm<N, N>(C, N_); Matrix<N, S1, P> tj = tm<N, S1>(J, s1);
		if (r.pick(2)) { if (attempt("add_sparse_mJ_rows", k, [&] { w[k]->add_sparse_mJ_rows(tvm, tj, at, tc); })) ref[k].add(spread(J, at), m, C); return; }
		int s2 = 1 + (int)r.pick(n), at2 = (int)r.pick(n - s2 + 1); vector<vector<double>> J2 = rows(N_, s2); Matrix<N, Dynamic, P> tj2 = tm<N, Dynamic>(J2, s2);
		if (attempt("add_sparse_mJ_rows with two blocks", k, [&] { w[k]->add_sparse_mJ_rows(tvm, tj, at, tj2, at2, tc); })) { vector<vector<double>> A = spread(J, at), B = spread(J2, at2); for (int a = 0; a < N_; a++) for (int i = 0; i < n; i++) A[a][i] += B[a][i]; ref[k].add(A, m, C); }
	}
	void step() {
		size_t k = r.pick(w.size()); static const double wt[] = { 1, 2, 0.5, 0.25, 0, 4 };
		switch (r.pick(16)) {
			case 0: case 1: { vector<double> J = nums(n, 3); double m = num(4), g = wt[r.pick(6)]; Vector<Size, P> tj = tv<Size>(J); if (attempt("add_mJ", k, [&] { w[k]->add_mJ(P(m), tj, P(g)); })) ref[k].add({J}, {m}, {{g}}); } break;
			case 2: { vector<double> J = nums(2 * n, 3), K; double m = num(4); Matrix<Dynamic, Dynamic, P> t(n, 2); for (int i = 0; i < n; i++) { t(i, 0) = P(J[i]); t(i, 1) = P(7); K.push_back(J[i]); } vector<double> K2; Vector<Size, P> c = tv<Size>(K); if (attempt("add_mJ with default weight", k, [&] { w[k]->add_mJ(P(m), c); })) ref[k].add({K}, {m}, {{1}}); } break;
			case 3: { int N = 1 + (int)r.pick(4); vector<vector<double>> J = rows(N, n); vector<double> m = nums(N, 4); double g = wt[r.pick(6)]; Vector<Dynamic, P> tvm = tv<Dynamic>(m); Matrix<Dynamic, Size, P> tj = tm<Dynamic, Size>(J, n); if (attempt("add_mJ of several", k, [&] { w[k]->add_mJ(tvm, tj, P(g)); })) ref[k].add(J, m, diag(vector<double>(N, g))); } break;
			case 4: multi<Dynamic>(k, 1 + (int)r.pick(3), 0); break;
			case 5: multi<2>(k, 2, 1); break;
			case 6: if (r.pick(2)) multi<2>(k, 2, 0); else multi<Dynamic>(k, 1 + (int)r.pick(3), 1); break;
			case 7: { int s = 1 + (int)r.pick(n), at = (int)r.pick(n - s + 1); vector<double> J = nums(s, 3); double m = num(4), g = wt[r.pick(6)]; Vector<Dynamic, P> tj = tv<Dynamic>(J); if (attempt("add_sparse_mJ", k, [&] { w[k]->add_sparse_mJ(P(m), tj, at, P(g)); })) ref[k].add(spread({J}, at), {m}, {{g}}); } break;
			case 8: if (r.pick(2)) sparse<Dynamic, Dynamic>(k, 1 + (int)r.pick(3), 1 + (int)r.pick(n)); else sparse<2, 1>(k, 2, 1); break;
			case 9: { double p = 0.25 * (1 + (int)r.pick(8)); if (attempt("add_prior", k, [&] { w[k]->add_prior(P(p)); })) { for (int i = 0; i < n; i++) ref[k].C[i * n + i] += p; spd[k] = true; } } break;
			case 10: { vector<double> p(n); for (double& d : p) d = 0.5 * (1 + (int)r.pick(6)); Vector<Size, P> t = tv<Size>(p); if (attempt("add_prior(vector)", k, [&] { w[k]->add_prior(t); })) { for (int i = 0; i < n; i++) ref[k].C[i * n + i] += p[i]; spd[k] = true; } } break;
			case 11: { vector<vector<double>> p = spdmat(n); Matrix<Size, Size, P> t = tm<Size, Size>(p, n); if (attempt("add_prior(matrix)", k, [&] { w[k]->add_prior(t); })) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) ref[k].C[i * n + j] += p[i][j]; spd[k] = spd[k]; } } break;
			case 12: { size_t o = r.pick(w.size()); Ref t = ref[o]; if (attempt("+= another", k, [&] { *w[k] += *w[o]; })) { ref[k].merge(t); spd[k] = spd[k] || spd[o]; r.nontrivial(); if (o != k && r.pick(2)) { if (attempt("clear", o, [&] { w[o]->clear(); })) { ref[o].clear(); spd[o] = false; } } } } break;
			case 13: save(k); r.log("worker %zu: checkpoint", k); break;
			case 14: if (r.pick(3) == 2) { restore(k); r.fault("worker_crash"); } else if (r.pick(4) == 3) { if (attempt("clear", k, [&] { w[k]->clear(); })) { ref[k].clear(); spd[k] = false; } } break;
			default:
				// what was computed must not be believed to be that of a system which has the same diagonal, size or right hand side
				if (r.pick(2)) {
					compute(k); int i = (int)r.pick(n), how = (int)r.pick(std::is_same<P, float>::value ? 2 : 3); W& x = *w[k]; Ref& f = ref[k]; r.log("worker %zu: unknown %d %s", k, i, how == 0 ? "is turned round" : how == 1 ? "is turned round, the right hand side is not" : "counts less");
					heap::Paused p; ScalarEnv::reset();
					for (int j = 0; j < n; j++) if (j != i && how < 2) { x.get_C_inv()(i, j) = -x.get_C_inv()(i, j); x.get_C_inv()(j, i) = -x.get_C_inv()(j, i); f.C[i * n + j] = -f.C[i * n + j]; f.C[j * n + i] = -f.C[j * n + i]; }
					if (how == 0) { x.get_vector()[i] = -x.get_vector()[i]; f.v[i] = -f.v[i]; }
					if (how == 2) { x.get_vector()[i] = x.get_vector()[i] * P(0.5); f.v[i] *= 0.5; }
					r.probe("edited_between_computations");
				}
				compute(k);
		}
		check("a step");
	}
	void run() {
		int workers = r.range(1, 4);
		for (int i = 0; i < workers; i++) { w.emplace_back(fresh()); ref.push_back(Ref(n)); saved.emplace_back(new W(*w.back())); savedref.push_back(Ref(n)); spd.push_back(false); savedspd.push_back(false); }
		check("construction");
		r.set_ops(r.range(4, 30));
		while (r.next_op()) step();
		// all that was collected, in some order, into one
		for (int k = 1; k < workers; k++) { *w[0] += *w[k]; ref[0].merge(ref[k]); }
		check("merging"); w[0]->add_prior(P(1)); for (int i = 0; i < n; i++) ref[0].C[i * n + i] += 1; spd[0] = true; compute(0);
		for (const Ref& f : ref) { uint64_t h = mix64(n); for (ld d : f.C) h = mix64(h ^ (uint64_t)(long long)(d * 4)); r.cover(h); }
	}
};
template<int Size, class P, template<int, class> class D> static void shop(Run& r, const char* name) { Shop<Size, P, D> s(r, Size < 0 ? r.extent(1, 5, 24) : Size, name); s.run(); }
// Measurements of long double: the sums are those of a 113 bit accumulation
template<int N> static void wide_shop(Run& r) {
	using namespace wide; int n = N < 0 ? r.extent(1, 6, 20) : N; TooN::WLS<N, W> w(n); std::vector<Q> C(n * n, 0), S(n * n, 0), v(n, 0), vs(n, 0); w.clear(); W prior = 1 + r.pick(4); w.add_prior(prior); for (int i = 0; i < n; i++) C[i * n + i] = S[i * n + i] = prior; r.set_ops(r.range(1, 12));
	auto judge = [&](const char* what) { for (int i = 0; i < n; i++) { Q t = (Q)LDBL_EPSILON * 30 * (vs[i] + 1e-30L); if (!(mag((Q)w.get_vector()[i] - v[i]) <= t)) r.fail("wrong-sum", "WLS of %d long double after %s: the vector is off by %g, rounding explains %g", n, what, (double)mag((Q)w.get_vector()[i] - v[i]), (double)t); for (int j = i; j < n; j++) { t = (Q)LDBL_EPSILON * 30 * (S[i * n + j] + 1e-30L); Q d = mag((Q)w.get_C_inv()(i, j) - C[i * n + j]); if (!(d <= t)) r.fail("wrong-sum", "WLS of %d long double after %s: C_inv(%d,%d) is off by %g, rounding explains %g", n, what, i, j, (double)d, (double)t); } } };
	auto add = [&](int at, int k, auto J, W m, W weight) { for (int i = 0; i < k; i++) { Q jw = (Q)weight * (Q)J[i]; v[at + i] += (Q)m * jw; vs[at + i] += mag((Q)m * jw); for (int j = 0; j < k; j++) { C[(at + i) * n + at + j] += jw * (Q)J[j]; S[(at + i) * n + at + j] += mag(jw * (Q)J[j]); } } };
	while (r.next_op()) {
		Numbers g(r.pick(1 << 30)); W m = g(), weight = g() + 1.5L;
		switch (r.pick(3)) {
			case 0: { TooN::Vector<N, W> J(n); for (int i = 0; i < n; i++) J[i] = g(); r.log("add_mJ"); w.add_mJ(m, J, weight); add(0, n, J, m, weight); judge("add_mJ"); } break;
			case 1: { int k = r.range(1, n), at = r.range(0, n - k); TooN::Vector<Dynamic, W> J(k); for (int i = 0; i < k; i++) J[i] = g(); r.log("add_sparse_mJ at %d", at); w.add_sparse_mJ(m, J, at, weight); add(at, k, J, m, weight); judge("add_sparse_mJ"); } break;
			default: { r.log("compute"); w.compute(); struct { TooN::WLS<N, W>& w; W operator()(int i, int) const { return w.get_mu()[i]; } } mu = { w }; struct { TooN::WLS<N, W>& w; W operator()(int i, int) const { return w.get_vector()[i]; } } b = { w }; residual(r, "WLS::compute", w.get_C_inv(), n, mu, b, 1); }
		}
		r.cover(r.hash); r.probe("long double"); r.nontrivial(); r.steps(1);
	}
}
static void c10(Run& r) {
	ScalarEnv::reset(); heap::begin_epoch();
	switch (r.pick(12)) {
		case 10: wide_shop<Dynamic>(r); break;
		case 11: wide_shop<3>(r); break;
		case 0: shop<Dynamic, double, Cholesky>(r, "WLS<>"); break;
		case 1: shop<3, double, Cholesky>(r, "WLS<3>"); break;
		case 2: shop<Dynamic, Num, Cholesky>(r, "WLS<Dynamic,Num>"); break;
		case 3: shop<Dynamic, float, Cholesky>(r, "WLS<Dynamic,float>"); break;
		case 4: shop<Dynamic, double, SQSVD>(r, "WLS<Dynamic,double,SQSVD>"); break;
		case 5: shop<6, double, SQSVD>(r, "WLS<6,double,SQSVD>"); break;
		case 6: shop<Dynamic, double, SymEigen>(r, "WLS<Dynamic,double,SymEigen>"); break;
		case 7: shop<2, double, SymEigen>(r, "WLS<2,double,SymEigen>"); break;
		case 8: shop<4, Num, Cholesky>(r, "WLS<4,Num>"); break;
		default: shop<3, double, Lapack_Cholesky>(r, "WLS<3,double,Lapack_Cholesky>");
	}
	if (heap::live_blocks()) r.fail("leak", "%ld heap blocks left", heap::live_blocks());
	if (heap::misuse) r.fail("heap-misuse", "%s", heap::misuse);
}
static Register R10("C10", c10, "WLS with Cholesky, SQSVD, SymEigen and Lapack_Cholesky; system LAPACK", "number type (failures), global operator new (failures)",
	"workers were merged, or one was lost and restored from a checkpoint");

// ---------------------------------------------------------------------------------------------------------------- C11
// loss functions, written down independently
static int throw_in = 0;              // the k-th call of a user's reweighting functor fails
struct RwFault {};
static void rw_call() { if (throw_in && !--throw_in) throw RwFault(); }
template<class P> struct UserRw { P s; void set_sd(P x) { s = x; } P reweight(P x) { rw_call(); return 1 / (1 + (x / s) * (x / s)) + P(0.5); } P true_scale(P x) { rw_call(); P u = (x / s) * (x / s); return (1 - u) / ((1 + u) * (1 + u)) + P(0.5); } P objective(P x) { rw_call(); return s * s * std::log(1 + (x / s) * (x / s)) / 2 + x * x / 4; } };
template<template<class> class R> struct Loss;
template<> struct Loss<RobustI> { static const bool descends = true, obj = true; static const char* name() { return "RobustI"; } static ld w(ld s, ld x) { return 1 / (s + fabsl(x)); } static ld t(ld s, ld x) { return s / ((s + fabsl(x)) * (s + fabsl(x))); } static ld mag(ld s, ld x) { return fabsl(x) + s; } static ld o(ld s, ld x) { return fabsl(x) - s * logl((s + fabsl(x)) / s); } };
template<> struct Loss<RobustII> { static const bool descends = true, obj = true; static const char* name() { return "RobustII"; } static ld w(ld s, ld x) { return 1 / (s * s + x * x); } static ld t(ld s, ld x) { ld u = s * s + x * x; return (s * s - x * x) / (u * u); } static ld mag(ld s, ld x) { return 1 + log1pl(x * x / (s * s)) + s * 0; } static ld o(ld s, ld x) { return log1pl(x * x / (s * s)) / 2; } };
template<> struct Loss<ILinear> { static const bool descends = true, obj = false; static const char* name() { return "ILinear"; } static ld w(ld, ld) { return 1; } static ld t(ld, ld) { return 1; } static ld mag(ld s, ld x) { return x * x + s * 0; } static ld o(ld, ld x) { return x * x; } };
template<> struct Loss<UserRw> { static const bool descends = true, obj = true; static const char* name() { return "user's reweighting"; } static ld w(ld s, ld x) { return 1 / (1 + x * x / (s * s)) + 0.5L; } static ld t(ld s, ld x) { ld u = x * x / (s * s); return (1 - u) / ((1 + u) * (1 + u)) + 0.5L; } static ld mag(ld s, ld x) { return s * s + x * x; } static ld o(ld s, ld x) { return s * s * log1pl(x * x / (s * s)) / 2 + x * x / 4; } };
template<class P> struct WithIII : RobustIII<P> { P true_scale(P x) { P u = 1 + x * x / this->sd_inlier; return 4 / (u * u * u) - 3 / (u * u); } };      // RobustIII has no true_scale of its own
template<> struct Loss<WithIII> { static const bool descends = true, obj = true; static const char* name() { return "RobustIII"; } static ld w(ld s, ld x) { ld u = 1 + x * x / (s * s); return 1 / (u * u); } static ld t(ld s, ld x) { ld u = 1 + x * x / (s * s); return 4 / (u * u * u) - 3 / (u * u); } static ld mag(ld s, ld x) { return x * x + s * 0; } static ld o(ld s, ld x) { return x * x / (2 * (1 + x * x / (s * s))); } };
struct Meas { vector<double> J; double m; };
template<int Size, class P, template<class> class R> struct IShop {
	typedef IRLS<Size, P, R> W; typedef Loss<R> L;
	Run& r; int n; string nm;
	struct Acc { vector<ld> C, v, T, aC, av, aT; ld res = 0, ares = 0; explicit Acc(int n) : C(n * n, 0), v(n, 0), T(n * n, 0), aC(C), av(v), aT(T) {} };
	struct Worker { std::unique_ptr<W> w; vector<Meas> log; Acc a; double sd; Worker(int n) : a(n) {} };   // log: what is durable
	vector<Worker> k;
	IShop(Run& r_, int n_) : r(r_), n(n_), nm(string("IRLS with ") + L::name()) {}
	W* fresh(double sd) { heap::Paused p; W* q = Size < 0 ? new W(n) : new W; q->set_sd(P(sd)); return q; }
	void count(Acc& a, const Meas& q, double sd) {
		ld m = (P)q.m, w = L::w((P)sd, m), t = L::t((P)sd, m), o = L::o((P)sd, m); a.res += o; a.ares += L::mag((P)sd, m);
		for (int i = 0; i < n; i++) { ld v = w * m * q.J[i]; a.v[i] += v; a.av[i] += fabsl(v); for (int j = 0; j < n; j++) { ld u = q.J[i] * q.J[j]; a.C[i * n + j] += w * u; a.aC[i * n + j] += fabsl(w * u); a.T[i * n + j] += t * u; a.aT[i * n + j] += 4 * fabsl(w * u); } }
	}
	void merge(Acc& a, const Acc& b) { for (size_t i = 0; i < a.C.size(); i++) { a.C[i] += b.C[i]; a.aC[i] += b.aC[i]; a.T[i] += b.T[i]; a.aT[i] += b.aT[i]; } for (int i = 0; i < n; i++) { a.v[i] += b.v[i]; a.av[i] += b.av[i]; } a.res += b.res; a.ares += b.ares; }
	void same(const char* what, ld got, ld want, ld scale, const char* op) {
		ld eps = std::is_same<P, float>::value ? 1.2e-7L : 2.3e-16L;
		if (!(fabsl(got - want) <= 300 * eps * scale)) r.fail("wrong-sum", "%s: after %s the %s holds %.17Lg, the measurements give %.17Lg", nm.c_str(), op, what, got, want);
		r.hash_double((double)got);
	}
	void check(const char* op) {
		heap::Paused p;
		for (Worker& q : k) {
			const W& x = *q.w;
			if (x.get_C_inv().num_rows() != n || x.get_vector().size() != n || x.get_true_C_inv().num_rows() != n || x.get_true_C_inv().num_cols() != n) r.fail("wrong-size", "%s: after %s", nm.c_str(), op);
			same("residual", q.w->get_residual(), q.a.res, q.a.ares, op);
			for (int i = 0; i < n; i++) { same("vector", x.get_vector()[i], q.a.v[i], q.a.av[i], op); for (int j = 0; j < n; j++) { if (j >= i) same("inverse covariance", x.get_C_inv()(i, j), q.a.C[i * n + j], q.a.aC[i * n + j], op); same("true inverse covariance", x.get_true_C_inv()(i, j), q.a.T[i * n + j], q.a.aT[i * n + j], op); } }
		}
	}
	bool attempt(const char* op, Worker& q, const std::function<void()>& f) {
		uint64_t fa = r.pick_from(S_FAULT, 5); heap::reset_count(); throw_in = 0; if (fa == 3) heap::fail_at(1 + r.pick_from(S_FAULT, 4)); if (fa == 4) throw_in = 1 + (int)r.pick_from(S_FAULT, 3);
		bool bad = false;
		try { heap::Armed a; f(); } catch (std::bad_alloc&) { if (!heap::fired()) r.fail("wrong-exception", "%s: bad_alloc from %s", nm.c_str(), op); bad = true; r.fault("alloc_fail"); } catch (RwFault&) { bad = true; r.fault("reweighting_throws"); }
		heap::fail_at(0); throw_in = 0; r.steps(1); r.log("%s%s", op, bad ? " fails" : "");
		if (bad) rebuild(q); return !bad;
	}
	void rebuild(Worker& q) {          // what was in the object is lost; the measurements are still in the log
		heap::Paused p; throw_in = 0;
		if (r.pick(2)) q.w->clear(); else q.w.reset(fresh(q.sd)); q.a = Acc(n);
		bool back = r.pick(2); if (back) std::reverse(q.log.begin(), q.log.end());
		for (const Meas& m : q.log) { add(*q.w, m); count(q.a, m, q.sd); }
		r.nontrivial(); r.probe("rebuilt_from_log");
	}
	void add(W& w, const Meas& m) { Vector<Size, P> J(n); for (int i = 0; i < n; i++) J[i] = P(m.J[i]); w.add_mJ(P(m.m), J); }
	void add_form(W& w, const Meas& m, int form) {
		if (form == 0) { add(w, m); return; }
		const int fs = Size < 0 ? 1 : Size; Matrix<Dynamic, Dynamic, P> M(n, 3); for (int i = 0; i < n; i++) M(i, 1) = P(m.J[i]); sized(w, P(m.m), M, form, std::integral_constant<bool, (Size > 0)>(), std::integral_constant<int, fs>());
	}
	template<int FS> void sized(W& w, P m, Matrix<Dynamic, Dynamic, P>& M, int form, std::true_type, std::integral_constant<int, FS>) { if (form == 1) w.add_mJ(m, M.T()[1].template slice<0, FS>()); else { const Matrix<Dynamic, Dynamic, P> t = M.T(); w.add_mJ(m, t[1].template slice<0, FS>()); } }
	template<int FS> void sized(W& w, P m, Matrix<Dynamic, Dynamic, P>& M, int form, std::false_type, std::integral_constant<int, FS>) { if (form == 1) w.add_mJ(m, M.T()[1]); else w.add_mJ(m, M.T()[1].slice(0, n)); }
	double unit = 1; bool spread = false;       // the size of everything measured; whether measurements of very different sizes meet
	Meas meas() { Meas m; m.J.resize(n); for (double& d : m.J) d = r.small_int(4) * 0.5; m.m = r.small_int(40) * 0.125 * unit; if (r.pick(5) == 4) m.m *= 1000; if (spread && r.pick(3) == 2) m.m = ldexp(m.m, r.small_int(std::is_same<P, float>::value ? 8 : 40)); return m; }
	void step() {
		Worker& q = k[r.pick(k.size())];
		switch (r.pick(10)) {
			default: { Meas m = meas(); int form = (int)r.pick(3); if (attempt("add_mJ", q, [&] { add_form(*q.w, m, form); })) { q.log.push_back(m); count(q.a, m, q.sd); } } break;
			case 6: { Worker& o = k[r.pick(k.size())]; if (o.sd != q.sd) break; Acc t = o.a; vector<Meas> l = o.log; if (attempt("+=", q, [&] { *q.w += *o.w; })) { merge(q.a, t); q.log.insert(q.log.end(), l.begin(), l.end()); r.probe("merge"); r.nontrivial(); if (&o != &q && r.pick(2)) { o.w->clear(); o.a = Acc(n); o.log.clear(); } } } break;
			case 7: r.fault("worker_crash"); r.log("a worker crashes"); rebuild(q); break;
			case 8: if (r.pick(3) == 2) { q.w->clear(); q.a = Acc(n); q.log.clear(); r.log("clear"); } break;
			case 9: if (q.log.size() > 20) { q.w->clear(); q.a = Acc(n); q.log.clear(); } break;
		}
		check("a step");
	}
	// the algorithm the class exists for: the objective never rises, and it stops where its gradient vanishes
	void iterate() {
		Worker& q = k[0]; if (q.log.empty() || q.log.size() > 60 || spread) return;
		vector<Meas> all = q.log; heap::Paused pz; throw_in = 0; int dup = 0;
		for (int i = 0; i < n; i++) { Meas m; m.J.assign(n, 0); m.J[i] = 1; m.m = 0.25 * i * unit; all.push_back(m); dup++; }     // makes the problem determined
		Vector<Size, P> x(n); for (int i = 0; i < n; i++) x[i] = 0;
		ld last = -1, last_scale = 0; ld eps = std::is_same<P, float>::value ? 1e-5L : 1e-12L; size_t crash_at = r.pick_from(S_FAULT, 12);
		for (size_t it = 0; it < 8; it++) {
			if (it == crash_at) { q.w.reset(fresh(q.sd)); r.fault("restart_between_iterations"); }
			q.w->clear(); ld scale = 0, ref = 0;
			for (const Meas& m : all) { P res = P(m.m); for (int i = 0; i < n; i++) res -= P(m.J[i]) * x[i]; Vector<Size, P> J(n); for (int i = 0; i < n; i++) J[i] = P(m.J[i]); q.w->add_mJ(res, J); ref += L::o((P)q.sd, res); scale += L::mag((P)q.sd, res); }
			if (fabsl(q.w->get_residual() - ref) > 1000 * eps * scale) r.fail("wrong-sum", "%s: residual %.17g, the measurements give %.17Lg", nm.c_str(), (double)q.w->get_residual(), ref);
			if (it && ref > last + 1000 * eps * (scale + last_scale)) r.fail("objective-rises", "%s: iteration %zu takes the objective from %.17Lg to %.17Lg", nm.c_str(), it, last, ref);
			last = ref; last_scale = scale; q.w->compute(); r.steps(1); r.hash_double((double)ref);
			for (int i = 0; i < n; i++) { if (!std::isfinite((double)q.w->get_mu()[i])) r.fail("not-finite", "%s: step %d is %g", nm.c_str(), i, (double)q.w->get_mu()[i]); x[i] += q.w->get_mu()[i]; }
		}
		r.probe("iterated");
	}
	void run() {
		double sd0 = 0; if (r.pick(3) == 2) { unit = ldexp(1, r.small_int(std::is_same<P, float>::value ? 12 : 60)); r.probe("very_large_or_small_units"); } spread = r.pick(4) == 3;
		int workers = r.range(1, 3); bool common = r.pick(4) < 3;
		for (int i = 0; i < workers; i++) { k.emplace_back(n); static const double sds[] = { 1, 0.5, 2, 0.125, 16, 3 }; k.back().sd = i && common ? sd0 : sds[r.pick(6)] * unit; if (!i) sd0 = k.back().sd; k.back().w.reset(fresh(k.back().sd)); }
		check("construction"); r.set_ops(r.range(4, 30));
		while (r.next_op()) step();
		iterate();
		for (Worker& q : k) { uint64_t h = mix64(n * 8 + q.log.size()); for (const Meas& m : q.log) h = mix64(h ^ (uint64_t)(long long)(m.m * 8)); r.cover(h); }
	}
};
template<int Size, class P, template<class> class R> static void ishop(Run& r) { IShop<Size, P, R> s(r, Size < 0 ? r.extent(1, 4, 16) : Size); s.run(); }
static void c11(Run& r) {
	ScalarEnv::reset(); heap::begin_epoch();
	switch (r.pick(12)) {
		case 10: ishop<Dynamic, double, WithIII>(r); break;
		case 11: ishop<2, double, WithIII>(r); break;
		case 0: ishop<Dynamic, double, RobustI>(r); break;
		case 1: ishop<3, double, RobustI>(r); break;
		case 2: ishop<Dynamic, double, RobustII>(r); break;
		case 3: ishop<2, double, RobustII>(r); break;
		case 4: ishop<Dynamic, double, ILinear>(r); break;
		case 5: ishop<4, double, UserRw>(r); break;
		case 6: ishop<Dynamic, double, UserRw>(r); break;
		case 7: ishop<3, float, RobustII>(r); break;
		case 8: ishop<Dynamic, float, RobustI>(r); break;
		default: ishop<1, double, RobustI>(r);
	}
	if (heap::live_blocks()) r.fail("leak", "%ld heap blocks left", heap::live_blocks());
	if (heap::misuse) r.fail("heap-misuse", "%s", heap::misuse);
}
static Register R11("C11", c11, "IRLS, RobustI, RobustII, RobustIII, ILinear, WLS, Cholesky", "a user's reweighting functor (failures), global operator new (failures)",
	"workers were merged, or one was rebuilt from its log");
}
