// C17..C20: optimisers, line searches and numerical derivatives, driven against a simulated objective function.
//
// The objective is the environment of these algorithms: the simulator decides at which evaluation it throws, leaves the
// domain (NaN or infinity), runs another optimiser inside itself, or finds the heap exhausted; optimisers are checkpointed,
// lost and restored between steps. After every step the state must satisfy the invariants of the property; a copy stepped
// without faults on a heap with other garbage must agree bit for bit; after the faults stop the minimum must be reached.
#include "sim.h"
#include <TooN/TooN.h>
#include <cstring>
#include <cfloat>
#include <memory>
#include <algorithm>
using namespace sim; using namespace TooN;
using std::vector; using std::string;
typedef long double ld;

struct EvalFault { int at; };
struct TooLong { };

// ---------------------------------------------------------------------------------------------------------- the function
struct Objective {
	enum Family { QUADRATIC, QUARTIC, VALLEY, ABSOLUTE, BARRIER, SATURATING, FLOOR, FLAT, EDGE, FAMILIES };
	static const char* name(int f) { static const char* n[] = { "quadratic", "quartic", "valley", "absolute", "barrier", "saturating", "floor", "flat", "edge" }; return n[f]; }
	int n, family; vector<double> c, A, w, half; double k, bound, unit = 1, vunit = 1; bool nan_outside;   // units of the coordinates and of the values, powers of two
	// a convex quadratic form with moderate condition, minimum k at c
	void make(Run& r, int n_, int f, bool nan) {
		n = n_; family = f; nan_outside = nan; c.resize(n); w.resize(n); half.assign(n, 0); A.assign(n * n, 0); k = r.small_int(3);
		for (double& d : c) d = r.pick(3) ? r.unit() * 4 : r.small_int(3);
		for (double& d : w) d = 1 + (int)r.pick(3);
		for (int i = 0; i < n; i++) A[i * n + i] = w[i];
		if (r.pick(2)) { vector<double> b(n); for (double& d : b) d = r.unit(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A[i * n + j] += b[i] * b[j]; }
		if (r.pick(3) == 2) { double s = std::ldexp(1.0, r.range(-6, 6)); for (double& d : A) d *= s; for (double& d : w) d *= s; }
		for (double& d : half) d = r.small_int(2); bound = 0;
	}
	// the start lies inside the domain of BARRIER and EDGE
	void admit(const vector<double>& start, double slack) { bound = slack; for (int i = 0; i < n; i++) bound += half[i] * start[i] / unit; }
	double q(const double* x) const { double s = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) s += (x[i] - c[i]) * A[i * n + j] * (x[j] - c[j]); return s; }
	double room(const double* x) const { double s = bound; for (int i = 0; i < n; i++) s -= half[i] * x[i]; return s; }
	__attribute__((noinline)) double operator()(const double* x) const {
		if (unit != 1) { vector<double> t(x, x + n); for (double& d : t) d /= unit; return vunit * value(t.data()); }
		return vunit * value(x);
	}
	double value(const double* x) const {
		for (int i = 0; i < n; i++) if (std::isnan(x[i])) return NAN;
		switch (family) {
			case QUADRATIC: return q(x) + k;
			case QUARTIC: { double s = k; for (int i = 0; i < n; i++) { double d = x[i] - c[i]; s += w[i] * d * d * d * d; } return s + 0.1 * q(x); }
			case VALLEY: { double s = 0; for (int i = 0; i < n; i++) { double d = 1 - x[i]; s += d * d; if (i) { double e = x[i] - x[i - 1] * x[i - 1]; s += 10 * e * e; } } return s + k; }
			case ABSOLUTE: { double s = k; for (int i = 0; i < n; i++) s += w[i] * std::fabs(x[i] - c[i]); return s; }
			case BARRIER: { double g = room(x); if (!(g > 0)) return nan_outside ? NAN : INFINITY; return q(x) - 0.1 * std::log(g) + k; }
			case SATURATING: { double t = q(x); return t > 1e300 ? k + 1 : k + t / (1 + t); }
			case FLOOR: { double t = q(x); return k + std::max(t, 0.5); }
			case FLAT: return k;
			case EDGE: { double g = room(x); if (g < 0) return nan_outside ? NAN : INFINITY; return std::sqrt(g) + k; }
		}
		return 0;
	}
	void gradient(const double* x, double* g) const {
		if (unit != 1 || vunit != 1) { vector<double> t(x, x + n); for (double& d : t) d /= unit; slope(t.data(), g); for (int i = 0; i < n; i++) g[i] *= vunit / unit; return; }
		slope(x, g);
	}
	void slope(const double* x, double* g) const {
		switch (family) {
			default: for (int i = 0; i < n; i++) { g[i] = 0; for (int j = 0; j < n; j++) g[i] += 2 * A[i * n + j] * (x[j] - c[j]); } break;
			case QUARTIC: for (int i = 0; i < n; i++) { double d = x[i] - c[i]; g[i] = 4 * w[i] * d * d * d; for (int j = 0; j < n; j++) g[i] += 0.2 * A[i * n + j] * (x[j] - c[j]); } break;
			case VALLEY: for (int i = 0; i < n; i++) { g[i] = -2 * (1 - x[i]); if (i) g[i] += 20 * (x[i] - x[i - 1] * x[i - 1]); if (i + 1 < n) g[i] -= 40 * x[i] * (x[i + 1] - x[i] * x[i]); } break;
			case ABSOLUTE: for (int i = 0; i < n; i++) g[i] = x[i] > c[i] ? w[i] : x[i] < c[i] ? -w[i] : 0; break;
			case BARRIER: for (int i = 0; i < n; i++) { g[i] = 0.1 * half[i] / room(x); for (int j = 0; j < n; j++) g[i] += 2 * A[i * n + j] * (x[j] - c[j]); } break;
			case SATURATING: { double t = q(x), s = 1 / ((1 + t) * (1 + t)); for (int i = 0; i < n; i++) { g[i] = 0; for (int j = 0; j < n; j++) g[i] += 2 * s * A[i * n + j] * (x[j] - c[j]); } } break;
			case FLOOR: { bool flat = q(x) <= 0.5; for (int i = 0; i < n; i++) { g[i] = 0; if (!flat) for (int j = 0; j < n; j++) g[i] += 2 * A[i * n + j] * (x[j] - c[j]); } } break;
			case FLAT: for (int i = 0; i < n; i++) g[i] = 0; break;
			case EDGE: { double s = std::sqrt(std::max(room(x), 0.0)); for (int i = 0; i < n; i++) g[i] = s > 0 ? -half[i] / (2 * s) : 0; } break;
		}
	}
	bool convex_smooth() const { return family == QUADRATIC; }
};

// ------------------------------------------------------------------------------------------- the function under simulation
struct Env {
	Run& r; const Objective& f; long evals = 0, throw_at = 0, budget = 20000; bool thrown = false; std::function<void()> nested; long nest_at = 0;
	vector<vector<double>> seen; vector<double> val; bool record = false;
	Env(Run& r_, const Objective& f_) : r(r_), f(f_) {}
	void arm() { evals = 0; throw_at = 0; nest_at = 0; thrown = false; budget = 20000; seen.clear(); val.clear(); }
	double call(const double* x) {
		heap::Paused p; evals++; r.steps(1);
		if (evals > budget) throw TooLong();
		if (throw_at && evals == throw_at) { thrown = true; throw EvalFault{ (int)evals }; }
		if (nested && nest_at && evals == nest_at) nested();
		double v = f(x); if (record) { seen.push_back(vector<double>(x, x + f.n)); val.push_back(v); } return v;
	}
};
struct Fn { Env* e; template<int S, class P, class B> double operator()(const Vector<S, P, B>& v) const { double x[16]; for (int i = 0; i < e->f.n; i++) x[i] = (double)v[i]; return e->call(x); } };
template<int N, class P> struct Grad { Env* e; template<int S, class Q, class B> Vector<N, P> operator()(const Vector<S, Q, B>& v) const { double x[16], g[16]; for (int i = 0; i < e->f.n; i++) x[i] = (double)v[i];
	{ heap::Paused p; e->evals++; if (e->throw_at && e->evals == e->throw_at) { e->thrown = true; throw EvalFault{ (int)e->evals }; } e->f.gradient(x, g); } Vector<N, P> o(e->f.n); for (int i = 0; i < e->f.n; i++) o[i] = P(g[i]); return o; } };
template<class V> static vector<double> list(const V& v) { vector<double> o(v.size()); for (int i = 0; i < v.size(); i++) o[i] = (double)v[i]; return o; }
template<class M> static vector<double> listm(const M& m) { vector<double> o; for (int i = 0; i < m.num_rows(); i++) for (int j = 0; j < m.num_cols(); j++) o.push_back((double)m(i, j)); return o; }
static string show(const vector<double>& v) { string s = "("; for (size_t i = 0; i < v.size(); i++) s += fmt("%s%.17g", i ? ", " : "", v[i]); return s + ")"; }
static bool same(const vector<double>& a, const vector<double>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same_bits(a[i], b[i])) return false; return true; }
static uint64_t hashv(uint64_t h, const vector<double>& v) { for (double d : v) { uint64_t b; memcpy(&b, &d, 8); h = mix64(h ^ b); } return h; }
template<class P> struct Eps { static ld v() { return 2.3e-16L; } };
template<> struct Eps<float> { static ld v() { return 1.2e-7L; } };
static void finish(Run& r) { if (heap::live_blocks()) r.fail("leak", "%ld heap blocks left", heap::live_blocks()); if (heap::misuse) r.fail("heap-misuse", "%s", heap::misuse); }
enum Cut { DONE, CUT };
// runs f with the planned fault; CUT: it ended with that fault
static Cut attempt(Run& r, Env& e, const char* what, uint64_t junk, const std::function<void()>& f, bool faults = true, int max_eval = 12) {
	e.arm(); heap::reset_count(); uint64_t fa = faults ? r.pick_from(S_FAULT, 8) : 0;
	if (fa == 5) e.throw_at = 1 + r.pick_from(S_FAULT, max_eval); if (fa == 6) heap::fail_at(1 + r.pick_from(S_FAULT, 12)); if (fa == 7) e.nest_at = 1 + r.pick_from(S_FAULT, max_eval);
	heap::garbage(junk); paint_stack(junk); Cut c = DONE; bool ab = false;
	try { ab = catch_abort([&] { heap::Armed a; f(); }); }
	catch (EvalFault&) { c = CUT; r.fault("evaluation_throws"); }
	catch (std::bad_alloc&) { if (!heap::fired()) r.fail("wrong-exception", "%s: bad_alloc without a failed allocation", what); c = CUT; r.fault("alloc_fail"); }
	catch (TooLong&) { r.fail("no-progress", "%s: %ld evaluations of the %s function in one call", what, e.evals - 1, Objective::name(e.f.family)); }
	heap::fail_at(0); if (ab) r.fail("abort", "%s of the %s function aborts", what, Objective::name(e.f.family));
	if (c == DONE && e.thrown) r.fail("swallowed", "%s: the exception of the function did not arrive", what);
	if (c == DONE && e.nest_at && e.evals >= e.nest_at && e.nested) r.fault("nested_optimiser");
	r.log("%s: %ld evaluations%s", what, e.evals, c == CUT ? ", fails" : ""); return c;
}
static vector<double> start_point(Run& r, int n) { vector<double> s(n); for (double& d : s) d = r.pick(2) ? r.small_int(5) : r.unit() * 6; return s; }
template<int N, class P> static Vector<N, P> vec(const vector<double>& v) { Vector<N, P> o((int)v.size()); for (size_t i = 0; i < v.size(); i++) o[i] = P(v[i]); return o; }
template<int S> static int size_of(Run& r, int hi) { return S < 0 ? r.extent(1, hi, 2 * hi + 2) : S; }

#if PART == 17
// ----------------------------------------------------------------------------------------------- C17: downhill simplex
#include <TooN/optimization/downhill_simplex.h>
static void other_optimiser(const Objective& f) {   // an unrelated optimisation, run in the middle of an evaluation
	auto g = [&](const Vector<>& v) { double s = 0; for (int i = 0; i < v.size(); i++) s += (v[i] - 3) * (v[i] - 3); return s; };
	Vector<> c(f.n); c = Zeros; DownhillSimplex<> d(g, c, 2); for (int i = 0; i < 3; i++) d.iterate(g);
}
template<int N, class P> struct Simplex {
	typedef DownhillSimplex<N, P> D;
	Run& r; int n; Objective f; Env e; std::unique_ptr<D> o, saved; bool intact = false, saved_ok = false; vector<double> S, V; uint64_t junk;
	Simplex(Run& r_) : r(r_), n(size_of<N>(r_, 5)), e(r_, f) {}
	double at(const vector<double>& s, int i) { return f(&s[i * n]); }
	double tol(double v) { return std::is_same<P, float>::value ? 2e-5 * (std::fabs(v) + 20 * f.vunit) : 1e-10 * (std::fabs(v) + f.vunit); }
	void snap(vector<double>& s, vector<double>& v) { s = listm(o->get_simplex()); v = list(o->get_values()); }
	bool value_ok(const vector<double>& s, const vector<double>& v, int i) { double w = at(s, i); if (std::is_same<P, float>::value) return std::isinf(w) || std::isinf(v[i]) || std::fabs(w - v[i]) <= 1e-3 * (std::fabs(w) + 20 * f.vunit); return v[i] == w; }
	// 1 surely, 0 surely not, 2 too close to tell
	int less(double a, double b) { if (std::isinf(a) || std::isinf(b)) return a < b; if (std::fabs(a - b) <= tol(a) + tol(b)) return 2; return a < b; }
	void state(const char* what) {
		vector<double> s, v; snap(s, v); if ((int)v.size() != n + 1 || (int)s.size() != n * (n + 1)) r.fail("shape", "after %s the simplex has %zu vertices", what, v.size());
		for (int i = 0; i <= n; i++) if (!value_ok(s, v, i)) r.fail("value-mismatch", "after %s the value of vertex %d is %.17g, the function gives %.17g there (%s, %d dimensions)", what, i, v[i], at(s, i), Objective::name(f.family), n);
		int b = o->get_best(), w = o->get_worst(); for (int i = 0; i <= n; i++) { if (v[i] < v[b]) r.fail("best", "after %s get_best() is %d, but vertex %d is better", what, b, i); if (v[i] > v[w]) r.fail("worst", "after %s get_worst() is %d, but vertex %d is worse", what, w, i); }
		for (double d : v) r.hash_double(d);
		// whether it has finished
		ld span = 0, sc = 0; for (int j = 0; j < n; j++) { ld d = (ld)s[b * n + j] - s[w * n + j]; span += d * d; sc += (ld)s[b * n + j] * s[b * n + j]; } span = sqrtl(span); sc = sqrtl(sc); ld lim = std::max(sc * (ld)o->epsilon, (ld)o->zero_epsilon);
		if ((span < lim * 0.99L || span > lim * 1.01L) && span < 1e15L && sc > 0 && o->finished() != (span < lim)) r.fail("finished", "after %s finished() is %d: best and worst are %.6Lg apart, limit %.6Lg", what, (int)o->finished(), span, lim);
		S = s; V = v;
	}
	double best(const vector<double>& v) { return *std::min_element(v.begin(), v.end()); }
	bool near(const vector<double>& s, int i, const vector<ld>& x) { ld sc = f.unit; for (double d : S) sc = std::max(sc, (ld)std::fabs(d)); for (int j = 0; j < n; j++) if (!(fabsl(s[i * n + j] - x[j]) <= 40 * n * Eps<P>::v() * sc)) return false; return true; }
	// one step of the documented algorithm leads from (S,V) to (s,v)
	bool is_step(const vector<double>& s, const vector<double>& v) {
		double top = *std::max_element(V.begin(), V.end()), low = best(V);
		for (int w = 0; w <= n; w++) {
			if (V[w] != top) continue; double second = -INFINITY; for (int i = 0; i <= n; i++) if (i != w) second = std::max(second, V[i]);
			vector<ld> x0(n, 0), xr(n), xe(n), xc(n); for (int j = 0; j < n; j++) { for (int i = 0; i <= n; i++) if (i != w) x0[j] += S[i * n + j]; x0[j] /= n; ld d = x0[j] - S[w * n + j]; xr[j] = x0[j] + d; xe[j] = x0[j] + 2 * d; xc[j] = x0[j] + d / 2; }
			bool edge = false;   // where the last bit of a coordinate decides on the domain, any outcome is good
			auto fx = [&](const vector<ld>& x) { vector<double> t(n); for (int j = 0; j < n; j++) t[j] = (double)(P)x[j]; if (f.family == Objective::BARRIER || f.family == Objective::EDGE) { double sc = std::fabs(f.bound); for (int j = 0; j < n; j++) sc += std::fabs(f.half[j] * t[j] / f.unit); vector<double> tu = t; for (double& d : tu) d /= f.unit; if (std::fabs(f.room(tu.data())) <= 1e3 * (double)Eps<P>::v() * (sc + 1)) edge = true; } return f(t.data()); };
			double fr = fx(xr), fe = fx(xe), fc = fx(xc); bool only = true; for (int i = 0; i <= n; i++) if (i != w) only = only && v[i] == V[i] && std::equal(s.begin() + i * n, s.begin() + i * n + n, S.begin() + i * n);
			int a = less(fr, low), b = less(fe, fr), m = less(fr, second), t = less(fr, top), u = less(fr, fc); if (edge) a = b = m = t = u = 2;
			if (only && a && b && near(s, w, xe)) { r.probe("expand"); return true; }
			if (only && ((a && b != 1) || (a != 1 && m)) && near(s, w, xr)) { r.probe("reflect"); return true; }
			if (only && a != 1 && m != 1 && t && u != 1 && near(s, w, xc)) { r.probe("contract"); return true; }
			if (a != 1 && m != 1 && (t != 1 || u)) for (int b2 = 0; b2 <= n; b2++) { if (V[b2] != low) continue; bool ok = true; for (int i = 0; i <= n && ok; i++) { vector<ld> x(n); for (int j = 0; j < n; j++) x[j] = i == b2 ? (ld)S[i * n + j] : ((ld)S[i * n + j] + S[b2 * n + j]) / 2; ok = near(s, i, x); } if (ok && v[b2] == V[b2]) { r.probe("shrink"); return true; } }
		}
		return false;
	}
	void step_ok(const vector<double>& s, const vector<double>& v) {
		if (!is_step(s, v)) r.fail("wrong-step", "the step from simplex %s with values %s to %s with values %s is none that the algorithm makes (%s)", show(S).c_str(), show(V).c_str(), show(s).c_str(), show(v).c_str(), Objective::name(f.family));
	}
	void copy_agrees(const char* what, const std::function<void(D&, const Fn&)>& op, D& before) {   // the same from a copy, undisturbed
		heap::Paused p; Env q(r, f); q.arm(); heap::garbage(mix64(junk + 3)); paint_stack(junk + 4); op(before, Fn{ &q }); heap::garbage(junk);
		if (!same(listm(before.get_simplex()), listm(o->get_simplex())) || !same(list(before.get_values()), list(o->get_values()))) r.fail("depends-on-history", "%s: a copy taken before does something else", what);
	}
	vector<double> start() { vector<double> s = start_point(r, n); for (double& d : s) d *= f.unit; return s; }
	void restart(bool at_best) {
		vector<double> c = at_best && intact ? vector<double>(S.begin() + o->get_best() * n, S.begin() + o->get_best() * n + n) : start(); double sp = r.pick(2) ? 1 : 0.25 * (1 + (int)r.pick(12)); if (r.pick(6) == 5) sp = -sp; sp *= f.unit;
		Cut k; Vector<N> vc = vec<N, double>(c); const Vector<N>& cc = vc;
		if (!o) { k = attempt(r, e, "construction", junk, [&] { o.reset(new D(Fn{ &e }, cc, P(sp))); }, true, n + 2); if (k == CUT) { o.reset(); intact = false; return; } }
		else if (at_best && intact) k = attempt(r, e, "restart around the best", junk, [&] { o->restart(Fn{ &e }, P(sp)); }, true, n + 2);
		else k = attempt(r, e, "restart", junk, [&] { o->restart(Fn{ &e }, cc, P(sp)); }, true, n + 2);
		if (k == CUT) { intact = false; r.probe("restart_cut_short"); return; }
		if (e.evals != n + 1) r.fail("evaluations", "starting a simplex in %d dimensions evaluated the function %ld times", n, e.evals);
		intact = true; state("a restart");
		for (int i = 0; i <= n; i++) for (int j = 0; j < n; j++) { P t = P(c[j]); if (i == j) t += P(sp); if (!(std::fabs(S[i * n + j] - (double)t) <= 4 * Eps<P>::v() * std::fabs((double)t))) r.fail("start", "vertex %d of the initial simplex has coordinate %d %.17g, not %.17g", i, j, S[i * n + j], (double)t); }
	}
	void iterate() {
		vector<double> s0 = S, v0 = V; std::unique_ptr<D> before; { heap::Paused p; before.reset(new D(*o)); } bool bare = r.pick(4) == 3, more = false;
		Cut k = attempt(r, e, "an iteration", junk, [&] { if (bare) o->find_next_point(Fn{ &e }); else more = o->iterate(Fn{ &e }); }, true, n + 3);
		if (e.evals > n + 2) r.fail("evaluations", "one iteration in %d dimensions evaluated the function %ld times", n, e.evals);
		vector<double> s, v; snap(s, v);
		if (k == DONE) { step_ok(s, v); state("an iteration"); if (!bare && more == o->finished()) r.fail("finished", "iterate() returns %d, finished() %d", (int)more, (int)o->finished());
			copy_agrees("an iteration", [&](D& d, const Fn& fn) { d.find_next_point(fn); }, *before); }
		else {
			if (!is_step(s, v)) { int bi = std::min_element(v0.begin(), v0.end()) - v0.begin(); for (int i = 0; i <= n; i++) {
				bool kept = v[i] == v0[i] && std::equal(s.begin() + i * n, s.begin() + i * n + n, s0.begin() + i * n); if (kept) continue;
				vector<ld> x(n); for (int j = 0; j < n; j++) x[j] = ((ld)s0[i * n + j] + s0[bi * n + j]) / 2; if (!near(s, i, x)) r.fail("half-step", "an iteration that was cut short moved vertex %d to %s", i, show(vector<double>(s.begin() + i * n, s.begin() + i * n + n)).c_str()); } }
			state("an iteration that was cut short"); r.probe("iteration_cut_short"); r.nontrivial();
		}
		if (best(V) > best(v0)) r.fail("worse", "the best value went from %.17g to %.17g", best(v0), best(V));
		r.cover(hashv(n, V));
	}
	void run() {
		junk = mix64(r.pick_from(S_FAULT, 1000)); static const int fam[] = { Objective::QUADRATIC, Objective::QUARTIC, Objective::VALLEY, Objective::ABSOLUTE, Objective::BARRIER, Objective::SATURATING, Objective::FLOOR, Objective::FLAT, Objective::EDGE };
		f.make(r, n, fam[r.pick(9)], false); if (r.pick(4) == 3) { f.unit = std::ldexp(1.0, std::is_same<P, float>::value ? r.range(-10, 10) : r.range(-30, 30)); f.vunit = std::ldexp(1.0, r.range(-20, 20)); r.probe("very_large_or_small_units"); } vector<double> s0 = start(); f.admit(s0, 1 + (int)r.pick(4)); e.nested = [&] { other_optimiser(f); };
		r.log("%s in %d dimensions", Objective::name(f.family), n);
		r.set_ops(r.range(4, 30));
		while (r.next_op()) {
			if (!o || !intact) { if (saved_ok && r.pick(2)) { heap::Paused p; o.reset(new D(*saved)); intact = true; r.fault("optimiser_lost_and_restored"); r.nontrivial(); state("restoring"); } else restart(false); continue; }
			switch (r.pick(12)) {
				case 0: restart(true); break;
				case 1: if (r.pick(3) == 2) restart(false); break;
				case 2: { heap::Paused p; saved.reset(new D(*o)); saved_ok = true; r.log("checkpoint"); } break;
				case 3: if (saved_ok) { heap::Paused p; o.reset(new D(*saved)); r.fault("optimiser_lost_and_restored"); r.nontrivial(); r.log("restored"); state("restoring"); } break;
				default: iterate();
			}
		}
		// no more faults: the minimum is reached
		if (o && intact && f.convex_smooth() && n <= 3 && !std::is_same<P, float>::value) {
			double first = best(V) / f.vunit - f.k; long used = 0; heap::garbage(0);
			for (int again = 0; again < 4; again++) { e.arm(); o->restart(Fn{ &e }, P((again ? 0.7 : 1.3) * f.unit)); int it = 0; while (o->iterate(Fn{ &e })) { e.evals = 0; if (++it > 4000) r.fail("no-progress", "not finished after %d iterations", it); } used += it; state("running to the end"); }
			double gap = best(V) / f.vunit - f.k; if (!(gap <= 1e-6 * std::max(first, 1.0) * std::max(1.0, f.A[0]))) r.fail("not-a-minimum", "the optimiser stops %.6g above the minimum of a quadratic function in %d dimensions (%.6g before)", gap, n, first);
			r.probe("minimum_reached"); r.steps(used);
		}
		heap::garbage(0); o.reset(); saved.reset();
	}
};
template<int N, class P> static void simplex(Run& r) { Simplex<N, P> s(r); s.run(); }
static void c17(Run& r) {
	heap::begin_epoch();
	switch (r.pick(6)) { case 0: simplex<Dynamic, double>(r); break; case 1: simplex<2, double>(r); break; case 2: simplex<3, double>(r); break; case 3: simplex<1, double>(r); break; case 4: simplex<2, float>(r); break; default: simplex<5, double>(r); }
	finish(r);
}
static Register R17("C17", c17, "DownhillSimplex", "the objective function (failures, infinities, nested optimisers); global operator new", "an iteration was cut short or the optimiser restored");
#endif

#if PART == 18
// -------------------------------------------------------------------------------------------- C18: conjugate gradients
#include <TooN/optimization/conjugate_gradient.h>
template<int N, class P> struct Cg {
	typedef ConjugateGradient<N, P> D;
	Run& r; int n; Objective f; Env e; std::unique_ptr<D> o, saved; uint64_t junk; static const bool flt = std::is_same<P, float>::value; bool fresh_dir = true;
	Cg(Run& r_) : r(r_), n(size_of<N>(r_, 5)), e(r_, f) {}
	double fx(const vector<double>& x) { return f(x.data()); }
	vector<double> st(D& d) { vector<double> v = list(d.x), t; v.push_back((double)d.y); for (auto* p : { &d.g, &d.h, &d.minus_h }) { t = list(*p); v.insert(v.end(), t.begin(), t.end()); } return v; }
	void state(const char* what, bool dir = true) {
		vector<double> x = list(o->x); double w = fx(x), y = (double)o->y; ld t = flt ? 1e-3L : 1e-9L; ld slope = 0; vector<double> g(n); f.gradient(x.data(), g.data()); for (int i = 0; i < n; i++) slope += fabsl(g[i]) * fabsl(x[i]);
		if (std::isnan(y) || !(fabsl(w - y) <= t * (fabsl(w) + f.vunit) + (flt ? 1e-5L : 1e-13L) * slope)) r.fail("value-mismatch", "after %s y is %.17g, the function gives %.17g at %s (%s)", what, y, w, show(x).c_str(), Objective::name(f.family));
		for (int i = 0; dir && i < n; i++) if (!(o->minus_h[i] == -o->h[i])) r.fail("direction", "after %s minus_h is %.17g, not the opposite of %.17g", what, (double)o->minus_h[i], (double)o->h[i]);
		for (double d : x) r.hash_double(d);
	}
	void make() {
		vector<double> s = start_point(r, n); for (double& d : s) d *= f.unit; f.admit(s, 0.5 + (int)r.pick(4)); Vector<N, P> v = vec<N, P>(s); bool direct = r.pick(3) == 2; if (flt) { vector<double> q = list(v); f.admit(q, 0.5 + (int)r.pick(4)); }
		Cut k = attempt(r, e, "construction", junk, [&] { if (direct) { Vector<N, P> g = Grad<N, P>{ &e }(v); o.reset(new D(v, Fn{ &e }, g)); } else o.reset(new D(v, Fn{ &e }, Grad<N, P>{ &e })); }, true, 3);
		if (k == CUT) { o.reset(); return; }
		state("construction"); fresh_dir = true; for (int i = 0; i < n; i++) if (o->x[i] != v[i]) r.fail("start", "construction does not start at the point given");
		vector<double> g(n), x = list(o->x); f.gradient(x.data(), g.data()); for (int i = 0; i < n; i++) if ((double)o->g[i] != (double)(P)g[i] || (double)o->h[i] != (double)(P)g[i]) r.fail("direction", "the first direction is not the gradient");
	}
	void iterate() {
		std::unique_ptr<D> before, ref; { heap::Paused p; before.reset(new D(*o)); ref.reset(new D(*o)); } bool bare = r.pick(5) == 4, more = false;
		vector<double> s0 = st(*o); double y0 = (double)o->y;
		Cut k = attempt(r, e, "an iteration", junk, [&] { if (bare) o->find_next_point(Fn{ &e }); else more = o->iterate(Fn{ &e }, Grad<N, P>{ &e }); }, true, 25);
		// from a copy, undisturbed, on other garbage
		{ heap::Paused p; Env q(r, f); q.arm(); heap::garbage(mix64(junk + 3)); paint_stack(junk + 4); ref->find_next_point(Fn{ &q }); heap::garbage(junk); }
		state(k == CUT ? "an iteration that was cut short" : "an iteration", k == DONE);
		if (!((double)o->y <= y0)) r.fail("worse", "y went from %.17g to %.17g (%s)", y0, (double)o->y, Objective::name(f.family));
		vector<double> x = list(o->x); bool moved = !same(x, list(before->x));
		if (k == CUT) {
			r.probe("iteration_cut_short"); r.nontrivial();
			bool advanced = same(x, list(ref->x)) && same_bits((double)o->y, (double)ref->y), kept = !moved && same_bits((double)o->y, y0);
			if (!kept && !advanced) r.fail("half-step", "an iteration that was cut short leaves x at %s, neither where it was nor where it was going", show(x).c_str());
			if (!same(list(o->h), list(before->h)) || !same(list(o->g), list(before->g))) {   // only once the new gradient has arrived
				if (kept && moved) r.fail("half-step", "an iteration that was cut short changed the direction but not x");
				{ heap::Paused p; o.reset(new D(*before)); }  // no promise about half-updated directions
			}
			return;
		}
		if (!same(x, list(ref->x)) || !same_bits((double)o->y, (double)ref->y)) r.fail("depends-on-history", "an iteration of a copy taken before gives y=%.17g, not %.17g", (double)ref->y, (double)o->y);
		if (!same(list(o->old_x), list(before->x)) || !same_bits((double)o->old_y, y0)) r.fail("previous", "old_x, old_y are not the previous point");
		if (o->iterations != before->iterations + 1) r.fail("iterations", "iterations went from %d to %d", before->iterations, o->iterations);
		ld dy = 2 * fabsl((ld)o->y - o->old_y), lim = (ld)o->tolerance * (fabsl((ld)o->y) + fabsl((ld)o->old_y) + (ld)o->epsilon); bool fin = o->iterations > o->max_iterations || dy <= lim;
		if (!(dy > lim * 0.999L && dy < lim * 1.001L) && o->finished() != fin) r.fail("finished", "finished() is %d after a change from %.17g to %.17g", (int)o->finished(), y0, (double)o->y);
		if (!bare && more == o->finished()) r.fail("finished", "iterate() returns %d, finished() %d", (int)more, (int)o->finished());
		// x moved against h
		{ ld hh = 0, m = 0, off = 0, sc = f.unit; for (int i = 0; i < n; i++) { hh += (ld)before->h[i] * before->h[i]; m -= (ld)before->h[i] * (x[i] - (ld)before->x[i]); sc = std::max(sc, std::max(fabsl(x[i]), fabsl((ld)before->x[i]))); } if (hh > 0) { m /= hh; for (int i = 0; i < n; i++) off = std::max(off, fabsl(x[i] - before->x[i] + m * before->h[i])); if (!(off <= 100 * Eps<P>::v() * sc)) r.fail("direction", "x left the search line by %.6Lg", off); if (m < -1e-12L) r.fail("direction", "x moved along h instead of against it"); } else if (moved) r.fail("direction", "x moved without a direction"); }
		vector<double> g(n); f.gradient(x.data(), g.data());
		if (!bare && more) {
			for (int i = 0; i < n; i++) if ((double)o->g[i] != (double)(P)g[i]) r.fail("direction", "g is not the gradient at x");
			ld gg = 0, og = 0, oo = 0, aog = 0; for (int i = 0; i < n; i++) { gg += (ld)o->g[i] * o->g[i]; og += (ld)before->g[i] * o->g[i]; aog += fabsl((ld)before->g[i] * o->g[i]); oo += (ld)before->g[i] * before->g[i]; }
			if (oo > 0) { ld ga = (gg - og) / oo; for (int i = 0; i < n; i++) { ld w = o->g[i] + ga * before->h[i], sc = fabsl((ld)o->g[i]) + (gg + aog) / oo * fabsl((ld)before->h[i]); if (!(fabsl(o->h[i] - w) <= 100 * n * Eps<P>::v() * sc)) r.fail("direction", "the conjugate direction is off by %.6Lg (Polak-Ribiere)", fabsl(o->h[i] - w)); } }
		}
		// a quadratic is minimised along the line
		if (f.convex_smooth() && !flt && moved) { ld a = 0, b = 0; for (int i = 0; i < n; i++) { a += (ld)g[i] * before->h[i]; vector<double> g0(n), x0 = list(before->x); f.gradient(x0.data(), g0.data()); b += (ld)g0[i] * before->h[i]; }
			if (y0 / f.vunit - f.k > 1e-6 * (1 + std::fabs(f.k)) && b > 0) { ld cu = 0, big = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { cu += 2 * (ld)before->h[i] * f.A[i * n + j] * before->h[j]; big += fabsl((x[i] - (ld)f.c[i] * f.unit) * f.A[i * n + j]) * (fabsl(x[j]) + fabsl((ld)f.c[j] * f.unit)); }
				ld noise = 40 * n * 2.3e-16L * (fabsl((ld)y0) + fabsl((ld)f.k) * f.vunit + big); if (!(fabsl(a) <= 2e-3L * b + 4 * sqrtl(noise * cu))) r.fail("line-search", "the slope along the line went from %.6Lg to %.6Lg only", b, a); r.probe("line_minimum"); } }
		r.cover(hashv(n, x));
	}
	void run() {
		junk = mix64(r.pick_from(S_FAULT, 1000)); f.make(r, n, (int)r.pick(Objective::FAMILIES), true); if (r.pick(4) == 3) { f.unit = std::ldexp(1.0, flt ? r.range(-8, 8) : r.range(-20, 20)); f.vunit = f.unit * f.unit; r.probe("very_large_or_small_units"); }
		e.nested = [&] { auto g = [](const Vector<2>& v) { return v * v; }; ConjugateGradient<2> c(makeVector(3, 4), g, [](const Vector<2>& v) { return Vector<2>(2 * v); }); c.iterate(g, [](const Vector<2>& v) { return Vector<2>(2 * v); }); };
		r.log("%s in %d dimensions", Objective::name(f.family), n); r.set_ops(r.range(3, 16));
		while (r.next_op()) {
			if (!o) { make(); continue; }
			switch (r.pick(8)) {
				case 0: { heap::Paused p; saved.reset(new D(*o)); r.log("checkpoint"); } break;
				case 1: if (saved) { heap::Paused p; o.reset(new D(*saved)); r.fault("optimiser_lost_and_restored"); r.nontrivial(); state("restoring"); } break;
				default: iterate();
			}
		}
		if (o && !flt && f.family == Objective::QUADRATIC) {
			vector<double> x = list(o->x); double first = (double)o->y / f.vunit - f.k; heap::garbage(0); int its = 0; e.arm();
			for (int again = 0; again < 3; again++) { x = list(o->x); Vector<N, P> v = vec<N, P>(x); o.reset(new D(v, Fn{ &e }, Grad<N, P>{ &e })); while (true) { e.evals = 0; if (!o->iterate(Fn{ &e }, Grad<N, P>{ &e })) break; if (++its > 1000 * n) r.fail("no-progress", "not finished after %d iterations", its); } state("running to the end"); }
			double gap = (double)o->y / f.vunit - f.k; if (!(gap <= 1e-6 * (std::fabs(f.k) + 1) + 1e-6 * first)) r.fail("not-a-minimum", "the optimiser stops %.6g above the minimum of a quadratic function in %d dimensions (%.6g before)", gap, n, first); r.probe("minimum_reached");
		}
		heap::garbage(0); o.reset(); saved.reset();
	}
};
template<int N, class P> static void cg(Run& r) { Cg<N, P> s(r); s.run(); }
static void c18(Run& r) {
	heap::begin_epoch();
	switch (r.pick(6)) { case 0: cg<Dynamic, double>(r); break; case 1: cg<2, double>(r); break; case 2: cg<3, double>(r); break; case 3: cg<1, double>(r); break; case 4: cg<2, float>(r); break; default: cg<5, double>(r); }
	finish(r);
}
static Register R18("C18", c18, "ConjugateGradient, brent_line_search", "the objective function (failures, NaN outside its domain, nested optimisers); global operator new", "an iteration was cut short or the optimiser restored");
#endif

#if PART == 19
// -------------------------------------------------------------------------------------------------- C19: line searches
#include <TooN/optimization/brent.h>
#include <TooN/optimization/golden_section.h>
struct Line { int shape; double c, p, left, right, k, lo, hi; bool bumpy; double unit = 1;
	double operator()(double x) const { if (std::isnan(x)) return x; double d = x / unit - c; switch (shape) { case 0: return k + (d < 0 ? left : right) * std::pow(std::fabs(d), p); case 1: return k + left * (std::exp(right * d) - right * d - 1); case 2: return k + left * d * d / (1 + d * d) ; case 3: return k + std::max(0.0, std::fabs(d) - 0.25) * left; default: return k + left * d * d + right * std::sin(5 * d); } }
	bool unimodal() const { return shape <= 2; } };
struct LineEnv { Run& r; const Line& f; double lo, hi; long evals = 0, throw_at = 0, nan_at = 0, nest_at = 0, limit; vector<double> xs, fs; bool thrown = false; LineEnv(Run& r_, const Line& f_) : r(r_), f(f_) {} };
template<class P> struct LineFn { LineEnv* e; P operator()(P x) const {
	heap::Paused p; e->evals++; e->r.steps(1); if (e->evals > 5000) throw TooLong(); if (e->throw_at == e->evals) { e->thrown = true; throw EvalFault{ (int)e->evals }; }
	if (e->nest_at == e->evals) { auto g = [](double x) { return (x - 1) * (x - 1); }; brent_line_search(0., 0.5, 3., 0.25, g, 10, 1e-3, 1e-6); golden_section_search(0., 0.5, 3., g, 5); }
	double v = (double)(P)e->f((double)x); if (e->nan_at == e->evals) { v = NAN; e->r.fault("nan_evaluation"); } e->xs.push_back((double)x); e->fs.push_back(v); return P(v); } };
template<class P> static void line(Run& r) {
	Line f; f.shape = (int)r.pick(5); f.c = r.pick(3) ? r.unit() * 3 : r.small_int(2); static const double ps[] = { 2, 1, 4, 1.5, 3, 0.75 }; f.p = ps[r.pick(6)]; f.left = 0.25 * (1 + (int)r.pick(8)); f.right = 0.25 * (1 + (int)r.pick(8)); f.k = r.small_int(2); if (r.pick(3) == 2) { double s = std::ldexp(1.0, r.range(-10, 10)); f.left *= s; if (f.shape != 1) f.right *= s; }
	// (Brent can stop early where two values are equal to the last bit: 1e4 eps was seen, so 1e5 is allowed)
	if (r.pick(4) == 3) { f.unit = std::ldexp(1.0, std::is_same<P, float>::value ? r.range(-10, 10) : r.range(-40, 40)); r.probe("very_large_or_small_units"); }
	P a = P(f.c - 0.01 - std::fabs(r.unit()) * (1 + (int)r.pick(4))), c = P(f.c + 0.01 + std::fabs(r.unit()) * (1 + (int)r.pick(4))), b = P(a + (c - a) * (0.02 + 0.96 * std::fabs(r.unit())));
	a *= P(f.unit); b *= P(f.unit); c *= P(f.unit); const double at = f.c * f.unit;
	auto fp = [&](P x) { return P(f((double)x)); };
	if (!(a < b && b < c && fp(a) > fp(b) && fp(b) < fp(c))) { r.probe("no_bracket"); return; }
	int max = r.pick(4) ? 500 : r.range(0, 12); int tolk = (int)r.pick(4); P tol = tolk == 0 ? P(0) : P(std::ldexp(1.0, -(std::is_same<P, float>::value ? r.range(3, 11) : r.range(3, 25)))), eps = P(std::ldexp(1.0, -(std::is_same<P, float>::value ? 12 : 40)) * f.unit); if (tolk == 0) tol = std::sqrt(std::numeric_limits<P>::epsilon());
	int algo = (int)r.pick(3);
	static const char* an[] = { "brent_line_search", "golden_section_search", "golden_section_search without value" };
	r.log("%s, shape %d, bracket %.9g %.9g %.9g, minimum at %.9g, at most %d iterations, tolerance %.3g", an[algo], f.shape, (double)a, (double)b, (double)c, at, max, (double)tol);
	bool dflt = tolk == 0 && r.pick(2); vector<double> first;
	for (int pass = 0; pass < 3; pass++) {     // with a fault; then twice without
		LineEnv e(r, f); uint64_t fa = pass ? 0 : r.pick_from(S_FAULT, 5); if (fa == 1) e.throw_at = 1 + r.pick_from(S_FAULT, 10); if (fa == 2 && algo == 0) e.nan_at = 1 + r.pick_from(S_FAULT, 8); if (fa == 3) e.nest_at = 1 + r.pick_from(S_FAULT, 10);
		Vector<2, P> res = Zeros; bool cut = false; paint_stack(mix64(pass + 11 * fa)); LineFn<P> fn{ &e }; P fb = fp(b); bool ab = false;
		try { ab = catch_abort([&] { switch (algo) {
			case 0: res = dflt ? brent_line_search(a, b, c, fb, fn, max) : brent_line_search(a, b, c, fb, fn, max, tol, eps); break;
			case 1: res = dflt ? golden_section_search(a, b, c, fb, fn, max) : golden_section_search(a, b, c, fb, fn, max, tol); break;
			default: res = dflt ? golden_section_search(a, b, c, fn, max) : golden_section_search(a, b, c, fn, max, tol); } }); }
		catch (EvalFault&) { cut = true; r.fault("evaluation_throws"); r.nontrivial(); }
		catch (TooLong&) { r.fail("no-progress", "%s does not stop after %d iterations (tolerance %.3g, minimum at %.9g)", an[algo], max, (double)tol, at); }
		if (ab) r.fail("abort", "%s aborts", an[algo]); if (!cut && e.thrown) r.fail("swallowed", "%s: the exception of the function did not arrive", an[algo]);
		if (e.nest_at && e.evals >= e.nest_at) { r.fault("nested_search"); r.nontrivial(); } if (e.nan_at && e.evals >= e.nan_at) r.nontrivial();
		for (double x : e.xs) if (!(x >= (double)a && x <= (double)c) && !(std::isnan(x) && e.nan_at)) r.fail("outside", "%s evaluates the function at %.17g, outside the bracket %.17g to %.17g", an[algo], x, (double)a, (double)c);
		long lim = algo == 0 ? max : algo == 1 ? std::max(max, 1) : std::max(max, 1) + 1; if (e.evals > lim) r.fail("evaluations", "%s with at most %d iterations evaluates the function %ld times", an[algo], max, e.evals);
		if (cut) continue;
		double x = (double)res[0], y = (double)res[1]; r.hash_double(x); r.cover(mix64((uint64_t)(long long)(x / f.unit * 1e9)));
		if (!(x >= (double)a && x <= (double)c)) r.fail("outside", "%s returns %.17g, outside the bracket", an[algo], x);
		if (y != (double)(P)f(x)) r.fail("value-mismatch", "%s returns the value %.17g at %.17g, the function gives %.17g", an[algo], y, x, f(x));
		if (y > (double)fb) r.fail("worse", "%s returns %.17g, worse than the %.17g that it was given", an[algo], y, (double)fb);
		for (double v : e.fs) if (v < y) r.fail("not-the-best", "%s returns %.17g although it has seen %.17g", an[algo], y, v);
		if (!e.nan_at && f.unimodal() && e.evals < lim) {     // it stopped because it was content
			double d = 4 * ((double)tol * 2 * std::fabs(at) + (algo ? (double)tol * 0.02 * f.unit : std::max((double)eps, dflt ? (double)std::numeric_limits<P>::epsilon() : 0.0))) + 1e-14 * f.unit, worst = std::max(f(at - d), f(at + d)), slack = (algo ? 40 : std::is_same<P, float>::value ? 1e4 : 1e5) * (double)Eps<P>::v() * (std::fabs(f.k) + (f.shape == 1 ? f.left : 0) + std::max(std::fabs((double)fp(a) - f.k), std::fabs((double)fp(c) - f.k)));
			if (!(y <= worst + slack)) r.fail("not-a-minimum", "%s stops at %.17g with value %.17g; the minimum is %.17g at %.17g (tolerance %.3g, power %g)", an[algo], x, y, f.k, at, (double)tol, f.p); r.probe("minimum_reached"); }
		vector<double> all = e.xs; all.push_back(x); all.push_back(y); if (pass == 1) first = all; if (pass == 2 && !same(first, all)) r.fail("depends-on-history", "%s does something else when it is run again", an[algo]);
	}
}
static void c19(Run& r) { heap::begin_epoch(); r.set_ops(r.range(1, 6)); while (r.next_op()) { if (r.pick(4) == 3) line<float>(r); else line<double>(r); } finish(r); }
static Register R19("C19", c19, "brent_line_search, golden_section_search", "the function (failures, NaN, nested searches)", "an evaluation failed, was not a number, or ran another search");
#endif

#if PART == 20
// -------------------------------------------------------------------------------------------- C20: numerical derivatives
#include <TooN/functions/derivatives.h>
// a sum of products of elementary functions of one coordinate each, with its derivatives
struct Smooth {
	int n, terms; int kind[6][10]; ld a[6];
	static ld phi(int k, ld x, int d) {
		switch (k) { default: return d == 0; case 1: return d == 0 ? x : d == 1; case 2: return d == 0 ? x * x : d == 1 ? 2 * x : 2; case 3: return d == 0 ? x * x * x : d == 1 ? 3 * x * x : 6 * x;
			case 4: return d == 0 ? sinl(x) : d == 1 ? cosl(x) : -sinl(x); case 5: return expl(x / 4) * (d == 0 ? 1 : d == 1 ? 0.25L : 0.0625L); case 6: { ld q = 1 + x * x; return d == 0 ? 1 / q : d == 1 ? -2 * x / (q * q) : (6 * x * x - 2) / (q * q * q); } }
	}
	void make(Run& r, int n_, bool far = false) { n = n_; terms = r.range(1, 6); for (int t = 0; t < terms; t++) { a[t] = r.small_int(3); for (int i = 0; i < n; i++) kind[t][i] = (int)r.pick(far ? 4 : 7); } }
	ld at(const ld* x, int p = -1, int q = -1) const { ld s = 0; for (int t = 0; t < terms; t++) { ld m = a[t]; for (int i = 0; i < n; i++) m *= phi(kind[t][i], x[i], (i == p) + (i == q)); s += m; } return s; }
	ld scale(const ld* x) const { ld s = 0; for (int t = 0; t < terms; t++) { ld m = fabsl(a[t]); for (int i = 0; i < n; i++) m *= fabsl(phi(kind[t][i], x[i], 0)) + fabsl(phi(kind[t][i], x[i], 1)) * std::max(fabsl(x[i]), 1.0L) + fabsl(phi(kind[t][i], x[i], 2)) * std::max(x[i] * x[i], 1.0L) + (kind[t][i] == 3 ? 6 * std::max(fabsl(x[i] * x[i] * x[i]), 1.0L) : 0); s += m; } return s; }
};
struct Surface { Run& r; const Smooth& f; vector<double> v, room; long evals = 0, throw_at = 0, nest_at = 0; int order = 1; bool thrown = false, check = true; std::function<void()> nested; Surface(Run& r_, const Smooth& f_) : r(r_), f(f_) {} long nans = 0; uint64_t h = 0;
	double call(const double* x) {
		heap::Paused p; evals++; r.steps(1); if (evals > 20000L * std::max(1, f.n * f.n / 9)) throw TooLong(); if (throw_at == evals) { thrown = true; throw EvalFault{ (int)evals }; } if (nest_at == evals && nested) nested();
		int moved = 0; double reach = 0; for (int i = 0; i < f.n; i++) { if (x[i] != v[i]) moved++; reach = std::max(reach, std::max(std::fabs(v[i]), 1.0)); uint64_t b; memcpy(&b, &x[i], 8); h = mix64(h ^ b); }
		if (check && moved > order) r.fail("strays", "the function is evaluated with %d coordinates other than those of the point", moved);
		for (int i = 0; i < f.n; i++) if (check && !(std::fabs(x[i] - v[i]) <= (order == 1 ? std::max(std::fabs(v[i]), 1.0) : reach) * 1.001e-3)) r.fail("strays", "the function is evaluated at %.17g for coordinate %d of %.17g", x[i], i, v[i]);
		for (int i = 0; i < f.n; i++) if (std::fabs(x[i] - v[i]) > room[i]) { nans++; return NAN; }
		ld y[10]; for (int i = 0; i < f.n; i++) y[i] = x[i]; return (double)f.at(y); } };
struct SurfaceFn { Surface* e; template<int S, class P, class B> double operator()(const Vector<S, P, B>& v) const { double x[10]; for (int i = 0; i < e->f.n; i++) x[i] = (double)v[i]; return e->call(x); } };
template<int N> static void derive(Run& r) {
	int n = size_of<N>(r, 4); bool far = r.pick(8) == 7; Smooth f; f.make(r, n, far); Surface e(r, f); SurfaceFn fn{ &e }; e.v.resize(n); e.room.assign(n, INFINITY); bool big = r.pick(4) == 3;
	for (double& d : e.v) d = r.pick(3) == 0 ? r.small_int(4) : r.unit() * (big ? 100 : 3); int algo = (int)r.pick(4); if (algo >= 2) for (double& d : e.v) if (std::fabs(d) > 4) d /= 32; if (far) { double s = std::pow(10.0, r.range(1, 12)); for (double& d : e.v) { d = s * (0.25 + std::fabs(r.unit())) * (r.pick(2) ? -1 : 1); if (algo < 2) d *= std::pow(10.0, -(int)r.pick(8)); } r.probe("far_from_zero"); } bool tranche = r.pick(3) == 2;
	if (tranche) for (int i = 0; i < n; i++) if (r.pick(2)) e.room[i] = std::max(std::fabs(e.v[i]), 1.0) * 1e-3 * std::pow(1.1, -(double)r.range(1, 25));
	e.order = algo >= 2 ? 2 : 1; static const char* an[] = { "numerical_gradient", "numerical_gradient_with_errors", "numerical_hessian", "numerical_hessian_with_errors" };
	r.log("%s in %d dimensions, %d terms at %s%s", an[algo], n, f.terms, show(e.v).c_str(), tranche ? ", defined nearby only" : "");
	for (int t = 0; t < f.terms; t++) { string k; for (int i = 0; i < n; i++) k += fmt(" %d", f.kind[t][i]); r.log("term %Lg of kinds%s", f.a[t], k.c_str()); }
	e.nested = [&] { auto g = [](const Vector<>& v) { return v * v; }; Vector<> c(2); c = Ones; numerical_gradient(g, c); };
	Vector<N> x = vec<N, double>(e.v); vector<double> first; uint64_t h1 = 0;
	for (int pass = 0; pass < 3; pass++) {
		e.evals = e.throw_at = e.nest_at = e.nans = 0; e.thrown = false; e.h = 0; heap::reset_count(); uint64_t fa = pass ? 0 : r.pick_from(S_FAULT, 6); if (fa == 1) e.throw_at = 1 + r.pick_from(S_FAULT, 60 * n); if (fa == 2) heap::fail_at(1 + r.pick_from(S_FAULT, 60)); if (fa == 3) e.nest_at = 1 + r.pick_from(S_FAULT, 60 * n);
		uint64_t junk = mix64(pass + 11 * fa + 1); heap::garbage(junk); paint_stack(junk); bool cut = false, ab = false; vector<double> res, err;
		try { ab = catch_abort([&] { heap::Armed a; switch (algo) {
			case 0: { Vector<N> g = numerical_gradient(fn, x); heap::Paused p; res = list(g); } break;
			case 1: { Matrix<N, 2> g = numerical_gradient_with_errors(fn, x); heap::Paused p; for (int i = 0; i < n; i++) res.push_back(g(i, 0)), err.push_back(g(i, 1)); } break;
			case 2: { Matrix<N> m = numerical_hessian(fn, x); heap::Paused p; res = listm(m); } break;
			default: { std::pair<Matrix<N>, Matrix<N>> m = numerical_hessian_with_errors(fn, x); heap::Paused p; res = listm(m.first); err = listm(m.second); } } }); }
		catch (EvalFault&) { cut = true; r.fault("evaluation_throws"); r.nontrivial(); }
		catch (std::bad_alloc&) { if (!heap::fired()) r.fail("wrong-exception", "%s: bad_alloc without a failed allocation", an[algo]); cut = true; r.fault("alloc_fail"); r.nontrivial(); }
		catch (TooLong&) { r.fail("no-progress", "%s evaluates the function tens of thousands of times", an[algo]); }
		heap::fail_at(0); heap::garbage(0); if (ab) r.fail("abort", "%s aborts", an[algo]); if (!cut && e.thrown) r.fail("swallowed", "%s: the exception of the function did not arrive", an[algo]);
		for (int i = 0; i < n; i++) if (x[i] != e.v[i]) r.fail("argument-changed", "%s changed coordinate %d of the point", an[algo], i);
		if (e.nest_at && e.evals >= e.nest_at) { r.fault("nested_derivative"); r.nontrivial(); } if (e.nans) { r.fault("undefined_at_large_steps"); r.nontrivial(); }
		if (cut) continue;
		for (double d : res) r.hash_double(d); r.cover(hashv(algo, res));
		ld y[10]; for (int i = 0; i < n; i++) y[i] = e.v[i]; ld sc = f.scale(y) + 1e-3L;
		auto within = [&](int i) { ld s = std::max(fabsl(y[i]), 1.0L); return s; };
		for (int i = 0; i < (int)res.size(); i++) {
			int p = algo < 2 ? i : i / n, q = algo < 2 ? -1 : i % n; ld w = f.at(y, p, q), tol = algo < 2 ? sc / within(p) : sc / within(p) / within(q);
			ld re = fabsl(res[i] - w) / tol;
			if (!(re <= (algo < 2 ? 1e-7L : 2e-5L))) r.fail("inaccurate", "%s: entry %d is %.17g, the derivative is %.17Lg (%d dimensions%s)", an[algo], i, res[i], w, n, tranche ? ", defined nearby only" : "");
			if (algo >= 2 && !same_bits(res[p * n + q], res[q * n + p])) r.fail("not-symmetric", "%s: the Hessian is not symmetric", an[algo]);
			if (err.size() && (!(err[i] >= 0) || std::isinf(err[i]))) r.fail("error-estimate", "%s: the estimate of error %d is %g", an[algo], i, err[i]);
			if (err.size() && err[i] > (algo < 2 ? 1e-6L : 2e-5L) * tol) r.fail("error-estimate", "%s: entry %d is %.17g, the estimate of its error %.3g", an[algo], i, res[i], err[i]);
		}
		vector<double> all = res; all.insert(all.end(), err.begin(), err.end()); if (pass == 1) { first = all; h1 = e.h; } if (pass == 2 && (!same(first, all) || h1 != e.h)) r.fail("depends-on-history", "%s does something else when it is run again", an[algo]);
	}
}
static void c20(Run& r) { heap::begin_epoch(); r.set_ops(r.range(1, 4)); while (r.next_op()) switch (r.pick(4)) { case 0: derive<2>(r); break; case 1: derive<3>(r); break; case 2: derive<1>(r); break; default: derive<Dynamic>(r); } finish(r); }
static Register R20("C20", c20, "numerical_gradient, numerical_hessian and their variants with errors", "the function (failures, undefined regions, nested derivatives); global operator new", "an evaluation failed or was not a number, memory ran out, or another derivative was taken meanwhile");
#endif
