// C06: caller threads share constant objects and own disjoint parts of one storage.
// The unit is compiled with -fsanitize-coverage=trace-pc: every basic block of the library is a yield point.
#ifdef UNIT_T
#include "catalog_more.h"
#include <sstream>
#include <memory>
using namespace sim;
using std::vector;
using namespace TooN;
typedef cat::Out Out;

template<class T> struct Tables;
template<> struct Tables<double> { static vector<cat::Op<double>> get() { auto v = cat::all_double(); cat::add_more(v); cat::add_more_double(v); v.push_back({"d_text", cat::d_text}); return v; } };
template<> struct Tables<Num> { static vector<cat::Op<Num>> get() { auto v = cat::generic_ops<Num>(); cat::add_more(v); return v; } };
template<> struct Tables<float> { static vector<cat::Op<float>> get() { auto v = cat::generic_ops<float>(); cat::add_more(v); return v; } };

template<class T> struct Shared {
	cat::In<T> in;
	Cholesky<Dynamic, T> ch; Cholesky<3, T> ch3; SymEigen<3, T> se3; DiagonalMatrix<3, T> dg; DiagonalMatrix<Dynamic, T> dgd;
	WLS<3, T> w;
	Shared(Run& r, int n) : in(n), ch(n), dgd(n) {
		cat::fill(r, in);
		ch.compute(in.S); ch3.compute(in.P); se3.compute(in.P); for (int i = 0; i < 3; i++) dg[i] = in.u[i]; for (int i = 0; i < n; i++) dgd[i] = in.a[i];
		w.add_prior(in.s); w.add_mJ(in.s, in.u); w.add_mJ(in.u, in.M, Matrix<3, 3, T>(in.P)); w.compute();
	}
};
struct LapackShared { Lapack_Cholesky<Dynamic> lc; SymEigen<Dynamic> se; LU<Dynamic> lu; LapackShared(const cat::In<double>& in) : lc(in.S), se(in.S), lu(in.A) {} };

// const members of shared objects
template<class T> static int shared_ops() { return 6; }
template<class T> static void shared_op(const Shared<T>& s, int k, Out& o) {
	const cat::In<T>& in = s.in;
	switch (k) {
		case 0: o.vec(s.ch.backsub(in.a)); o.mat(s.ch.backsub(in.B)); o.num(T(s.ch.mahalanobis(in.b))); break;
		case 1: o.vec(s.ch3.backsub(in.u)); o.mat(s.ch3.get_L()); o.mat(s.ch3.get_D()); o.mat(s.ch3.get_unscaled_L()); o.num(s.ch3.rank()); break;
		case 2: o.vec(s.se3.backsub(in.w)); o.mat(s.se3.get_sqrtm()); o.mat(s.se3.get_isqrtm()); o.num(T(s.se3.get_determinant())); o.num(s.se3.is_posdef()); break;
		case 3: o.mat(s.dg * in.M); o.mat(in.K * s.dg); o.vec(s.dgd * in.a); o.mat(s.dgd * in.A); break;
		case 4: o.vec(s.w.get_mu()); o.mat(s.w.get_C_inv()); o.vec(s.w.get_vector()); { WLS<3, T> c(s.w); c += s.w; c.add_mJ(in.s, in.w); c.compute(); o.vec(c.get_mu()); } break;
		default: o.vec(in.A.T()[0].slice(0, in.n)); o.mat(in.H.template slice<1, 1, 2, 2>()); o.vec(in.A.diagonal_slice()); o.num(T(in.A[0] * in.B.T()[in.n - 1])); break;
	}
}
static void lapack_op(const LapackShared& s, const cat::In<double>& in, int k, Out& o) {
	switch (k) {
		case 0: o.vec(s.lc.backsub(in.a)); o.mat(s.lc.get_inverse()); o.num(s.lc.determinant()); break;
		case 1: o.vec(s.se.backsub(in.b)); o.mat(s.se.get_pinv()); o.mat(s.se.get_sqrtm()); break;
		default: o.num(s.lu.determinant()); o.mat(s.lu.get_lu()); break;
	}
}
// writes into the caller's own part of shared storage
template<class T, class M> static void own_op(M g, const cat::In<T>& in, int k, Out& o) {
	int R = g.num_rows(), C = g.num_cols();
	switch (k) {
		case 0: for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) g(i, j) = T(i * 3 + j) * in.s; break;
		case 1: g *= in.s; g /= T(2); break;
		case 2: if (R == C) g += Identity * in.s; g -= g * T(0.5); break;
		case 3: g[0] = g[R - 1] + g[0]; g.T()[C - 1] *= in.s; break;
		case 4: g = Zeros; g.diagonal_slice() = Ones(std::min(R, C)); break;
		case 5: { Matrix<Dynamic, Dynamic, T> t = g * g.T(); g[R - 1] *= t(0, 0); o.mat(t); break; }
		case 6: swap(g(0, 0), g(R - 1, C - 1)); if (R == C) Symmetrize(g); break;
		case 7: { Vector<Dynamic, T> v = g[0]; normalize(v); g[0] = v; o.num(T(norm_fro(g))); o.num(T(max_value(g))); break; }
		case 8: g.slice(0, 0, 1, C) = in.s * g.slice(R - 1, 0, 1, C); g[0] *= T(3); break;
		case 9: { std::stringstream s; s.precision(17); s << g * T(2); sim::NoPreempt np; s >> g; break; }
		default: { Vector<Dynamic, T> d(std::min(R, C)); for (int i = 0; i < d.size(); i++) d[i] = in.s; g.slice(0, 0, d.size(), C) = diagmult(d, g.slice(0, 0, d.size(), C)); break; }
	}
	o.mat(g);
}

template<class T> static void lapack_init(std::unique_ptr<LapackShared>&, const cat::In<T>&) {}
template<> void lapack_init<double>(std::unique_ptr<LapackShared>& p, const cat::In<double>& in) { p.reset(new LapackShared(in)); }
static void lapack_run(const LapackShared& s, const cat::In<double>& in, int k, Out& o) { lapack_op(s, in, k, o); }
template<class T> static void lapack_run(const LapackShared&, const cat::In<T>&, int, Out&) {}

struct Step { int kind; int op; };

template<class T> void run_c06(Run& r) {
	vector<cat::Op<T>> ops = Tables<T>::get();
	Shared<T> sh(r, r.extent(1, 5, 12));
	std::unique_ptr<LapackShared> lp; lapack_init(lp, sh.in);
	int nt = 2 + (int)r.pick(3), h = r.range(1, 3), w = r.range(1, 3);
	bool by_col = r.pick(2), colmajor = r.pick(2), cold = r.pick(2), whole = r.pick(2);   // whole: every caller has inputs of its own
	int divisor = (int[]){3, 12, 60, 300, 1500}[r.pick(5)], hot = (int[]){0, 2, 3, 9}[r.pick(4)];
	std::vector<int> palette; int crowd = (int)r.pick(3); for (int i = 0; i < crowd; i++) palette.push_back((int)r.pick(ops.size()));   // callers in the same code
	vector<vector<Step>> plan(nt);
	vector<std::unique_ptr<cat::In<T>>> mine;
	if (whole) for (int t = 0; t < nt; t++) { mine.emplace_back(new cat::In<T>(r.range(1, 6))); cat::fill(r, *mine[t]); }
	// operations of the tape are the threads' steps: thread = draw, so dropping one keeps the rest
	r.set_ops(r.range(2, 8));
	while (r.next_op()) {
		int t = (int)r.pick(nt); Step s; s.kind = (int)r.pick(crowd == 1 ? 6 : 4);
		if (s.kind == 0) s.op = (int)r.pick(shared_ops<T>()); else if (s.kind == 1) s.op = (int)r.pick(11); else if (s.kind == 2 && lp) s.op = (int)r.pick(3); else { s.kind = 3; s.op = palette.empty() ? (int)r.pick(ops.size()) : palette[r.pick(palette.size())]; }
		plan[t].push_back(s);
	}
	int GR = by_col ? h : h * nt, GC = by_col ? w * nt : w;
	Matrix<Dynamic, Dynamic, T> G1(GR, GC), G2(GR, GC); Matrix<Dynamic, Dynamic, T, ColMajor> H1(GR, GC), H2(GR, GC);
	for (int i = 0; i < GR; i++) for (int j = 0; j < GC; j++) { T v = T(r.small_int(16) / 8.0 + 2.5); G1(i, j) = v; G2(i, j) = v; H1(i, j) = v; H2(i, j) = v; }
	auto step = [&](const Step& s, int t, Matrix<Dynamic, Dynamic, T>& G, Matrix<Dynamic, Dynamic, T, ColMajor>& H, Out& o) {
		int r0 = by_col ? 0 : t * h, c0 = by_col ? t * w : 0;
		switch (s.kind) {
			case 0: shared_op<T>(sh, s.op, o); break;
			case 1: if (colmajor) own_op<T>(H.slice(r0, c0, h, w), sh.in, s.op, o); else own_op<T>(G.slice(r0, c0, h, w), sh.in, s.op, o); break;
			case 2: lapack_run(*lp, sh.in, s.op, o); break;
			default: ops[s.op].f(whole ? *mine[t] : sh.in, o);
		}
	};
	vector<Out> serial(nt), conc(nt);
	uint64_t total = 0;
	auto do_serial = [&] {
		for (int t = 0; t < nt; t++) for (const Step& s : plan[t]) step(s, t, G1, H1, serial[t]);
	};
	auto do_conc = [&](int stint) {
		Sched sc(r);
		for (int t = 0; t < nt; t++) sc.spawn([&, t] { heap::Armed a; for (const Step& s : plan[t]) step(s, t, G2, H2, conc[t]); });
		ScalarEnv::reset(); ScalarEnv::yields = true; heap::allocator_yields(true);
		uint64_t t0 = stats.ticks;
		sc.go(stint, hot);
		total = stats.ticks - t0;
		ScalarEnv::yields = false; heap::allocator_yields(false);
		r.steps(total);
		r.cover(sc.schedule_hash);
		r.hash_bytes(&sc.schedule_hash, 8);
		if (sc.switch_count > (uint64_t)nt + 1) { r.nontrivial(); r.fault("preemptive_schedule"); }
		if (sc.targeted) r.fault("preempted_at_shared_memory");
		r.log("%d threads, %llu yield points, %llu scheduling decisions", nt, (unsigned long long)total, (unsigned long long)sc.switch_count);
	};
	size_t steps = 0; for (auto& p : plan) steps += p.size();
	int stint = (int)std::max<size_t>(1, steps * 12000 / divisor);
	if (cold) { r.fault("cold_start"); do_conc(stint); do_serial(); } else { do_serial(); do_conc(stint); }
	for (int t = 0; t < nt; t++) {
		std::string what; for (const Step& s : plan[t]) what += fmt(" %s%d", s.kind == 3 ? ops[s.op].name : s.kind == 0 ? "shared" : s.kind == 1 ? "own" : "lapack", s.op);
		r.log("thread %d:%s", t, what.c_str());
		for (double d : serial[t].v) r.hash_double(d);
		if (!(conc[t] == serial[t])) r.fail("interference", "thread %d of %d (%s ) computed something else than on its own: %s", t, nt, what.c_str(), conc[t].diff(serial[t]).c_str());
	}
	Out a, b; a.mat(G1); a.mat(H1); b.mat(G2); b.mat(H2);
	if (!(a == b)) r.fail("interference", "threads writing disjoint parts of one matrix left another result than one after another: %s", b.diff(a).c_str());
}
template void run_c06<UNIT_T>(Run&);
#else
#include "scalar.h"
using namespace sim;
template<class T> void run_c06(Run& r);
extern template void run_c06<Num>(Run&); extern template void run_c06<float>(Run&); extern template void run_c06<double>(Run&);
static void c06(Run& r) {
	switch (r.pick(4)) { case 0: run_c06<Num>(r); break; case 1: run_c06<float>(r); break; default: run_c06<double>(r); }
}
static Register R6("C06", c06, "the library headers (every basic block a preemption point), LAPACK (atomic)", "thread scheduler (seeded), global allocator and number type (preemption points)",
	"2-4 caller threads execute 2-8 random operations on shared constant objects, private objects and disjoint parts of shared storage, preempted at seeded basic blocks; the oracle is the same steps executed one thread after the other; non-trivial: at least one preemption inside an operation; distinct by event-log hash", true);
#endif
