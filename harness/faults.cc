// C04 allocation failure, C05 throwing number type, C25-like reproducibility (C06) share this unit.
#include "catalog_more.h"
#include <new>
using namespace sim;
using std::string; using std::vector;

template<class T> struct Tables;
template<> struct Tables<double> { static const vector<cat::Op<double>>& get() { static const vector<cat::Op<double>> v = [] { auto l = cat::all_double(); cat::add_more(l); cat::add_more_double(l); return l; }(); return v; } };
template<> struct Tables<Num> { static const vector<cat::Op<Num>>& get() { static const vector<cat::Op<Num>> v = [] { auto l = cat::generic_ops<Num>(); cat::add_more(l); return l; }(); return v; } };

#ifdef UNIT_ALLOC
// ------------------------------------------------------------------------------------ C04
template<class T> static void alloc_faults(Run& r) {
	const vector<cat::Op<T>>& ops = Tables<T>::get();
	cat::In<T> in(r.extent(1, 6, 16)); cat::fill(r, in);
	cat::Out before; in.dump(before);
	bool faulty = r.pick_from(S_FAULT, 8) != 7;
	while (r.next_op()) {
		const cat::Op<T>& op = ops[r.pick(ops.size())];
		bool stream = string(op.name) == "stream_out";   // iostreams turn bad_alloc into badbit
		heap::begin_epoch(); ScalarEnv::reset();
		long scal = ScalarEnv::live;
		cat::Out plain; uint64_t n;
		{ cat::Out warm; op.f(in, warm); }        // function-local constants of the library and of LAPACK
		heap::begin_epoch(); ScalarEnv::reset();
		scal = ScalarEnv::live;
		{ heap::Armed a; op.f(in, plain); }
		n = heap::count();
		r.steps(n);
		if (heap::live_blocks()) r.fail("leak", "%s leaves %ld heap blocks behind when nothing fails", op.name, heap::live_blocks());
		if (heap::misuse) r.fail("heap-misuse", "%s: %s", op.name, heap::misuse);
		r.log("%s: %llu allocations", op.name, (unsigned long long)n);
		for (double d : plain.v) r.hash_double(d);
		if (!faulty || !n || stream) continue;
		uint64_t k = 1 + r.pick_from(S_FAULT, n);
		bool sticky = r.pick_from(S_FAULT, 3) == 2;
		heap::begin_epoch();
		heap::fail_at(k, sticky);
		cat::Out got; bool threw = false; string other;
		{
			heap::Armed a;
			try { op.f(in, got); }
			catch (std::bad_alloc&) { threw = true; }
			catch (Violation&) { throw; }
			catch (std::exception& e) { heap::Paused p; other = e.what(); }
		}
		bool fired = heap::fired();
		heap::fail_at(0);
		long left = heap::live_blocks();
		bool guards = heap::check_guards();
		r.log("%s: allocation %llu fails%s -> %s", op.name, (unsigned long long)k, sticky ? " and all after it" : "", threw ? "bad_alloc" : other.empty() ? "completes" : other.c_str());
		if (fired) { r.fault(sticky ? "alloc_fail_sticky" : "alloc_fail"); r.nontrivial(); r.cover(mix64(std::hash<string>()(op.name)) ^ mix64(k)); }
		if (!other.empty()) r.fail("wrong-exception", "%s: allocation %llu of %llu failed and %s was thrown", op.name, (unsigned long long)k, (unsigned long long)n, other.c_str());
		if (left) r.fail("leak", "%s: allocation %llu of %llu fails: %ld heap blocks are never released", op.name, (unsigned long long)k, (unsigned long long)n, left);
		if (!guards || heap::misuse) r.fail("heap-misuse", "%s: allocation %llu of %llu fails: %s", op.name, (unsigned long long)k, (unsigned long long)n, heap::misuse ? heap::misuse : "a heap block was overrun");
		if (ScalarEnv::live != scal) r.fail("unbalanced-elements", "%s: allocation %llu of %llu fails: %ld elements not destroyed", op.name, (unsigned long long)k, (unsigned long long)n, ScalarEnv::live - scal);
		if (!threw && !(got == plain)) r.fail("wrong-result", "%s: allocation %llu of %llu failed, the operation completed with another result: %s", op.name, (unsigned long long)k, (unsigned long long)n, got.diff(plain).c_str());
		cat::Out now; in.dump(now);
		if (!(now == before)) r.fail("operand-changed", "%s: allocation %llu of %llu fails: an operand changed: %s", op.name, (unsigned long long)k, (unsigned long long)n, now.diff(before).c_str());
		cat::Out again; heap::begin_epoch();
		{ heap::Armed a; op.f(in, again); }
		if (!(again == plain)) r.fail("no-recovery", "%s: after allocation %llu of %llu failed, repeating the operation gives another result: %s", op.name, (unsigned long long)k, (unsigned long long)n, again.diff(plain).c_str());
		if (heap::live_blocks()) r.fail("leak", "%s: repeating after a failed allocation leaves %ld blocks", op.name, heap::live_blocks());
	}
}
static void c04(Run& r) {
	r.set_ops(r.range(1, 8));
	if (r.chance(1, 4)) alloc_faults<Num>(r); else alloc_faults<double>(r);
}
static Register R4("C04", c04, "TooN containers, operators, decompositions, estimators, optimisers, Lie groups; LAPACK",
	"global operator new/delete (seeded failures, leak and overrun accounting)",
	"a run applies 1-8 random catalogue operations to random operands, each with a seeded allocation failing (once or from then on); non-trivial: a failure fired inside an operation; distinct by event-log hash");
#endif

#ifdef UNIT_THROW
// ------------------------------------------------------------------------------------ C05
static void c05(Run& r) {
	r.set_ops(r.range(1, 8));
	const vector<cat::Op<Num>>& ops = Tables<Num>::get();
	cat::In<Num> in(r.range(1, 6)); ScalarEnv::reset(); cat::fill(r, in);
	cat::Out before; in.dump(before);
	while (r.next_op()) {
		const cat::Op<Num>& op = ops[r.pick(ops.size())];
		if (string(op.name) == "stream_out") continue;
		heap::begin_epoch(); ScalarEnv::reset();
		{ cat::Out warm; op.f(in, warm); }        // function-local constants of the library
		ScalarEnv::reset(); heap::begin_epoch();
		long scal = ScalarEnv::live;
		cat::Out plain;
		{ heap::Armed a; op.f(in, plain); }
		uint64_t n = ScalarEnv::ops;
		r.steps(n);
		for (double d : plain.v) r.hash_double(d);
		if (heap::live_blocks()) r.fail("leak", "%s leaves %ld heap blocks behind", op.name, heap::live_blocks());
		if (ScalarEnv::live != scal) r.fail("unbalanced-elements", "%s leaves %ld elements alive", op.name, ScalarEnv::live - scal);
		if (!n) continue;
		uint64_t k = 1 + r.pick_from(S_FAULT, n);
		ScalarEnv::reset(); heap::begin_epoch();
		ScalarEnv::throw_at = k;
		cat::Out got; bool threw = false; string other;
		{
			heap::Armed a;
			try { op.f(in, got); } catch (Interrupt&) { threw = true; } catch (Violation&) { throw; } catch (std::exception& e) { heap::Paused p; other = e.what(); }
		}
		ScalarEnv::throw_at = 0;
		r.log("%s: element operation %llu of %llu throws -> %s", op.name, (unsigned long long)k, (unsigned long long)n, threw ? "propagates" : "completes");
		if (ScalarEnv::thrown) { r.fault("element_operation_throws"); r.nontrivial(); r.cover(mix64(std::hash<string>()(op.name)) ^ mix64(k)); }
		if (ScalarEnv::thrown && !threw) r.fail("swallowed", "%s: the exception of element operation %llu of %llu did not reach the caller %s", op.name, (unsigned long long)k, (unsigned long long)n, other.c_str());
		if (heap::live_blocks()) r.fail("leak", "%s: element operation %llu of %llu throws: %ld heap blocks are never released", op.name, (unsigned long long)k, (unsigned long long)n, heap::live_blocks());
		if (!heap::check_guards() || heap::misuse) r.fail("heap-misuse", "%s: element operation %llu of %llu throws: %s", op.name, (unsigned long long)k, (unsigned long long)n, heap::misuse ? heap::misuse : "a heap block was overrun");
		if (ScalarEnv::live != scal) r.fail("unbalanced-elements", "%s: element operation %llu of %llu throws: %ld elements created but not destroyed", op.name, (unsigned long long)k, (unsigned long long)n, ScalarEnv::live - scal);
		cat::Out now; in.dump(now);
		if (!(now == before)) r.fail("operand-changed", "%s: element operation %llu of %llu throws: an operand changed: %s", op.name, (unsigned long long)k, (unsigned long long)n, now.diff(before).c_str());
		ScalarEnv::reset();
		cat::Out again; op.f(in, again);
		if (!(again == plain)) r.fail("no-recovery", "%s: after element operation %llu of %llu threw, repeating the operation gives another result: %s", op.name, (unsigned long long)k, (unsigned long long)n, again.diff(plain).c_str());
	}
}
static Register R5("C05", c05, "TooN containers, operators, decompositions, estimators, optimisers, Lie groups instantiated for a user number type",
	"the number type (every operation counted, one seeded operation throws); global operator new/delete accounting",
	"a run applies 1-8 random catalogue operations, in each one a seeded element operation throws; non-trivial: the exception fired inside an operation; distinct by event-log hash");
#endif
