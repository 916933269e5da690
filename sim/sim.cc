#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csetjmp>
#include <new>
#include <thread>
#include <unordered_set>
#include <set>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <iostream>
#include <semaphore.h>
#include <pthread.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <time.h>
#include <errno.h>

namespace sim {
Run* current = nullptr;
Stats stats;

// ------------------------------------------------------------------------------- helpers
std::string fmt(const char* f, ...) {
	heap::Paused p;
	char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
std::string dbl(double d) { heap::Paused p; char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
bool same_bits(double a, double b) {
	if (a != a && b != b) return true;
	return memcmp(&a, &b, sizeof a) == 0;
}

// ---------------------------------------------------------------------------------- Run
static std::unordered_set<uint64_t>& coverage() { static std::unordered_set<uint64_t> s; return s; }
static size_t coverage_cap = 400000;

Run::Run(uint64_t seed) : replay(false), rng(mix64(seed)), seed_(seed) {}
Run::Run(const Tape& t) : tape(t), replay(true), rng(0), seed_(0) {}

void Run::need(size_t i) {
	heap::Paused p;
	if (out.s.size() <= i) out.s.resize(i + 1);
	if (pos.size() <= i) pos.resize(i + 1, 0);
	while (srng.size() <= i) srng.push_back(Rng(mix64(seed_ ^ mix64(0x517cc1b727220a95ull * (srng.size() + 1)))));
}
uint64_t Run::pick_from(int st, uint64_t n) {
	size_t i = st;
	need(i);
	stats.draws++;
	uint64_t v;
	if (n <= 1) v = 0;
	else if (replay) v = (i < tape.s.size() && pos[i] < tape.s[i].size()) ? tape.s[i][pos[i]] % n : 0;
	else v = srng[i].below(n);
	pos[i]++;
	heap::Paused p;
	out.s[i].push_back(v);
	return v;
}
uint64_t Run::pick(uint64_t n) { return pick_from((int)cur, n); }
bool Run::next_op() {
	size_t nx = cur < FIRST_OP ? (size_t)FIRST_OP : cur + 1;
	bool more = replay ? nx < tape.s.size() : (int)(nx - FIRST_OP) < gen_ops;
	if (!more) return false;
	cur = nx;
	need(cur);
	stats.ops++;
	return true;
}
double Run::unit() { return ((double)pick(2097153) - 1048576.0) / 1048576.0; }
double Run::number() {
	switch (pick(6)) {
		case 0: return (double)small_int(4);
		case 1: return small_int(1000) / 8.0;
		case 2: return unit();
		case 3: return unit() * 100;
		case 4: { double m = unit(); int e = small_int(30); return ldexp(m, e); }
		default: { double m = (double)pick(1ull << 53) / 9007199254740992.0; return (chance(1, 2) ? -m : m) * 10; }
	}
}
void Run::hash_bytes(const void* p, size_t n) {
	const unsigned char* c = (const unsigned char*)p;
	for (size_t i = 0; i < n; i++) { hash ^= c[i]; hash *= 1099511628211ull; }
}
void Run::hash_double(double d) { if (d != d) { hash_bytes("nan", 3); return; } hash_bytes(&d, sizeof d); }
void Run::log(const char* f, ...) {
	heap::Paused p;
	char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
	hash_bytes(b, strlen(b)); hash_bytes("\n", 1);
	if (trace.size() < 60000) { trace += b; trace += '\n'; }
	if (verbose) { fprintf(stderr, "  | %s\n", b); }
}
void Run::fail(const char* cls, const char* f, ...) {
	Violation v;
	{
		heap::Paused p;
		char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
		v.cls = cls; v.msg = b;
	}
	throw v;
}
void Run::fault(const char* k) { heap::Paused p; stats.faults[k]++; }
void Run::probe(const char* k) { heap::Paused p; stats.probes[k]++; }
void Run::cover(uint64_t h) { heap::Paused p; if (coverage().size() < coverage_cap) coverage().insert(h); }

// --------------------------------------------------------------------------------- heap
namespace heap {
	static thread_local bool armed = false;
	Armed::Armed() : old(armed) { armed = true; }
	Armed::~Armed() { armed = old; }
	Paused::Paused() : old(armed) { armed = false; }
	Paused::~Paused() { armed = old; }

	struct Head { Head *next, *prev; size_t size; uint32_t epoch; uint32_t magic; uint64_t pad[2]; };
	static_assert(sizeof(Head) % 16 == 0, "alignment");
	static const uint32_t LIVE_ONE = 0xA110C001u, LIVE_ARR = 0xA110C0A2u, DEAD = 0xDEADDEADu;
	static const uint64_t TAIL = 0x7a11b10c7a11b10cull;
	static Head list = { &list, &list, 0, 0, 0, {0, 0} };
	static uint32_t epoch = 1;
	static long live = 0;
	static uint64_t n_alloc = 0, countdown = 0;
	static bool sticky_ = false, fired_ = false, yields = false;
	static uint64_t garbage_seed = 0;
	const char* misuse = nullptr;

	void begin_epoch() { epoch++; live = 0; n_alloc = 0; misuse = nullptr; fired_ = false; countdown = 0; list.next = list.prev = &list; }
	long live_blocks() { return live; }
	uint64_t count() { return n_alloc; }
	void reset_count() { n_alloc = 0; }
	void fail_at(uint64_t k, bool s) { countdown = k; sticky_ = s; fired_ = false; }
	bool fired() { return fired_; }
	void garbage(uint64_t s) { garbage_seed = s; }
	void allocator_yields(bool on) { yields = on; }

	static void* get(size_t n, bool arr, bool nothrow) {
		bool mine = armed;
		if (mine) {
			if (yields) yield_point();
			n_alloc++; stats.allocs++;
			if (fired_ && sticky_) { if (nothrow) return nullptr; throw std::bad_alloc(); }
			if (countdown && --countdown == 0) {
				fired_ = true;
				if (nothrow) return nullptr;
				throw std::bad_alloc();
			}
		}
		if (n > (size_t)1 << 40) { if (nothrow) return nullptr; throw std::bad_alloc(); }
		Head* h = (Head*)malloc(sizeof(Head) + n + 8);
		if (!h) { if (nothrow) return nullptr; throw std::bad_alloc(); }
		h->size = n; h->magic = arr ? LIVE_ARR : LIVE_ONE; h->epoch = mine ? epoch : 0;
		char* u = (char*)(h + 1);
		memcpy(u + n, &TAIL, 8);
		if (mine) {
			live++;
			h->next = list.next; h->prev = &list; list.next->prev = h; list.next = h;
			if (garbage_seed) {
				uint64_t g = garbage_seed;
				for (size_t i = 0; i + 8 <= n; i += 8) {
					g = mix64(g);
					double d = (g & 3) ? ((double)(int64_t)g / 1e15) : 0;
					if ((g & 31) == 4) d = NAN;
					memcpy(u + i, &d, 8);
				}
				for (size_t i = n & ~(size_t)7; i < n; i++) u[i] = (char)(garbage_seed >> (8 * (i & 7)));
			}
		}
		return u;
	}
	static void put(void* p, bool arr) {
		if (!p) return;
		Head* h = (Head*)p - 1;
		if (h->magic == DEAD) { misuse = "double free"; return; }
		if (h->magic != LIVE_ONE && h->magic != LIVE_ARR) { fprintf(stderr, "free of a foreign or overwritten block\n"); abort(); }
		if ((h->magic == LIVE_ARR) != arr) misuse = "new/delete mismatch";
		if (memcmp((char*)p + h->size, &TAIL, 8)) misuse = "write past the end of a heap block";
		if (h->epoch == epoch) { live--; h->next->prev = h->prev; h->prev->next = h->next; }
		h->magic = DEAD;
		free(h);
	}
	void live_ranges(std::vector<std::pair<const char*, const char*>>& v) {
		for (Head* h = list.next; h != &list; h = h->next) v.push_back({(const char*)(h + 1), (const char*)(h + 1) + h->size});
	}
	bool check_guards() {
		for (Head* h = list.next; h != &list; h = h->next)
			if (memcmp((char*)(h + 1) + h->size, &TAIL, 8)) return false;
		return true;
	}
}
} // namespace sim

void* operator new(size_t n) { return sim::heap::get(n, false, false); }
void* operator new[](size_t n) { return sim::heap::get(n, true, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::heap::get(n, false, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::heap::get(n, true, true); }
void operator delete(void* p) noexcept { sim::heap::put(p, false); }
void operator delete[](void* p) noexcept { sim::heap::put(p, true); }
void operator delete(void* p, size_t) noexcept { sim::heap::put(p, false); }
void operator delete[](void* p, size_t) noexcept { sim::heap::put(p, true); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::heap::put(p, false); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::heap::put(p, true); }

namespace sim {
// -------------------------------------------------------------------------------- sched
struct Sched::Impl {
	struct T { sem_t go; bool done = false; int pending = 0; std::exception_ptr err; Violation viol; bool has_viol = false; };
	Run* run; int n; std::vector<T*> t; sem_t idle; int active = -1;
	uint64_t stint = 0; int max_stint = 0; uint64_t hash = 14695981039346656037ull, switches = 0; uint64_t since = 0;
	int hot_rate = 0; long hot_left = 0; uint64_t hot_switches = 0; const char *stack_lo = nullptr, *stack_hi = nullptr;
	std::vector<std::pair<const char*, const char*>> blocks;    // live heap blocks at the start, sorted
	bool shared(const void* p) const {
		const char* a = (const char*)p;
		if (a >= stack_lo && a < stack_hi) return true;
		auto i = std::upper_bound(blocks.begin(), blocks.end(), std::make_pair(a, (const char*)~0ull));
		return i != blocks.begin() && a < (--i)->second;
	}
	void choose_other(int me) {
		heap::Paused p;
		std::vector<int> r;
		for (int i = 0; i < n; i++) if (!t[i]->done && i != me) r.push_back(i);
		if (r.empty()) { active = me; return; }
		active = r[r.size() > 1 ? run->pick_from(S_SCHED, r.size()) : 0];
		switches++; stats.switches++;
		hash = (hash ^ (uint64_t)active) * 1099511628211ull; hash = (hash ^ since) * 1099511628211ull; since = 0;
	}
	std::vector<int> runnable() { std::vector<int> r; for (int i = 0; i < n; i++) if (!t[i]->done) r.push_back(i); return r; }
	// called by the scheduler logic with the only running thread's token
	void choose() {
		heap::Paused p;
		std::vector<int> r = runnable();
		if (r.empty()) { active = -1; return; }
		uint64_t k = run->pick_from(S_SCHED, r.size());
		uint64_t s = run->pick_from(S_SCHED, max_stint + 1);
		active = r[k];
		stint = s ? s : ~0ull;      // 0: run until it ends
		switches++; stats.switches++;
		hash = (hash ^ (uint64_t)active) * 1099511628211ull; hash = (hash ^ since) * 1099511628211ull; since = 0;
	}
};
static Sched::Impl* impl = nullptr;
static thread_local int self = -1;
thread_local int no_preempt = 0;

static void wait(sem_t* s) { while (sem_wait(s) != 0 && errno == EINTR) {} }

static void hand_over(int me) {
	if (impl->active == me) return;
	sem_post(&impl->t[impl->active]->go);
	wait(&impl->t[me]->go);
}
void yield_point() {
	if (!impl || self < 0) return;
	stats.ticks++;
	impl->since++;
	if (no_preempt > 0) return;
	if (--impl->stint) return;
	int me = self;
	impl->choose();
	hand_over(me);
}

void Sched::go(int max_stint, int hot_rate) {
	Impl im; im.run = &run; im.n = (int)body.size(); im.max_stint = max_stint;
	im.hot_rate = hot_rate; im.hot_left = 1500;
	{
		heap::Paused p;
		heap::live_ranges(im.blocks); std::sort(im.blocks.begin(), im.blocks.end());
		pthread_attr_t at; void* lo; size_t sz;
		pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
		im.stack_lo = (const char*)lo; im.stack_hi = im.stack_lo + sz;
	}
	sem_init(&im.idle, 0, 0);
	for (int i = 0; i < im.n; i++) { Impl::T* t = new Impl::T; sem_init(&t->go, 0, 0); im.t.push_back(t); }
	std::vector<std::thread> th;
	for (int i = 0; i < im.n; i++) {
		th.emplace_back([&im, this, i] {
			self = i; no_preempt = 0;
			wait(&im.t[i]->go);
			try { body[i](); }
			catch (Violation& v) { im.t[i]->viol = v; im.t[i]->has_viol = true; }
			catch (...) { im.t[i]->err = std::current_exception(); }
			im.t[i]->done = true;
			im.choose();
			self = -1;
			if (im.active >= 0) sem_post(&im.t[im.active]->go); else sem_post(&im.idle);
		});
	}
	impl = &im;
	im.choose();
	sem_post(&im.t[im.active]->go);
	wait(&im.idle);
	impl = nullptr;
	for (auto& x : th) x.join();
	schedule_hash = im.hash; switch_count = im.switches; targeted = im.hot_switches;
	Violation* v = nullptr; Violation vv; std::exception_ptr e;
	for (auto* t : im.t) { if (t->has_viol && !v) { vv = t->viol; v = &vv; } if (t->err && !e) e = t->err; sem_destroy(&t->go); }
	for (auto* t : im.t) delete t;
	sem_destroy(&im.idle);
	if (v) throw vv;
	if (e) std::rethrow_exception(e);
}
} // namespace sim

// called at every basic block of units compiled with -fsanitize-coverage=trace-pc
extern "C" void __sanitizer_cov_trace_pc() { sim::yield_point(); }

// Units compiled with -fsanitize=thread call these before every access to memory (this is not ThreadSanitizer: its
// run-time library is replaced by the scheduler). The addresses only guide where preemption is tried: accesses to static
// storage and writes to what existed before the threads started; what counts is the results.
extern char __data_start, _end;
namespace sim {
	static void access_point(const void* a, bool write) {
		if (!impl || self < 0) return;
		Sched::Impl& im = *impl;
		Sched::Impl::T& t = *im.t[self];
		if (im.hot_rate) {
			bool hot = t.pending > 0;
			if (hot) t.pending--;
			if ((a >= &__data_start && a < &_end) || (write && im.shared(a))) { hot = true; t.pending = 2; }
			if (hot && no_preempt == 0 && im.hot_left > 0) {
				im.hot_left--;
				if (im.run->pick_from(S_SCHED, im.hot_rate) == 1) {
					stats.ticks++; im.since++; im.hot_switches++;
					int me = self;
					im.choose_other(me);
					hand_over(me);
					return;
				}
			}
		}
		yield_point();
	}
}
extern "C" {
#define RW(N) void __tsan_read##N(void* a) { sim::access_point(a, false); } void __tsan_write##N(void* a) { sim::access_point(a, true); } \
	void __tsan_unaligned_read##N(void* a) { sim::access_point(a, false); } void __tsan_unaligned_write##N(void* a) { sim::access_point(a, true); } \
	void __tsan_volatile_read##N(void* a) { sim::access_point(a, false); } void __tsan_volatile_write##N(void* a) { sim::access_point(a, true); }
	RW(1) RW(2) RW(4) RW(8) RW(16)
#undef RW
	void __tsan_read_range(void* a, unsigned long) { sim::access_point(a, false); }
	void __tsan_write_range(void* a, unsigned long) { sim::access_point(a, true); }
	void __tsan_vptr_update(void**, void*) {}
	void __tsan_vptr_read(void**) {}
	void __tsan_func_entry(void*) {}
	void __tsan_func_exit() {}
	void __tsan_init() {}
#define AT(B, T) T __tsan_atomic##B##_load(const T* a, int) { sim::access_point(a, false); return __atomic_load_n(a, 5); } \
	void __tsan_atomic##B##_store(T* a, T v, int) { sim::access_point(a, true); __atomic_store_n(a, v, 5); } \
	T __tsan_atomic##B##_exchange(T* a, T v, int) { sim::access_point(a, true); return __atomic_exchange_n(a, v, 5); } \
	T __tsan_atomic##B##_fetch_add(T* a, T v, int) { sim::access_point(a, true); return __atomic_fetch_add(a, v, 5); } \
	T __tsan_atomic##B##_fetch_sub(T* a, T v, int) { sim::access_point(a, true); return __atomic_fetch_sub(a, v, 5); } \
	T __tsan_atomic##B##_fetch_and(T* a, T v, int) { sim::access_point(a, true); return __atomic_fetch_and(a, v, 5); } \
	T __tsan_atomic##B##_fetch_or(T* a, T v, int) { sim::access_point(a, true); return __atomic_fetch_or(a, v, 5); } \
	T __tsan_atomic##B##_fetch_xor(T* a, T v, int) { sim::access_point(a, true); return __atomic_fetch_xor(a, v, 5); } \
	int __tsan_atomic##B##_compare_exchange_strong(T* a, T* e, T v, int, int) { sim::access_point(a, true); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); } \
	int __tsan_atomic##B##_compare_exchange_weak(T* a, T* e, T v, int, int) { sim::access_point(a, true); return __atomic_compare_exchange_n(a, e, v, false, 5, 5); }
	AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
#undef AT
	void __tsan_atomic_thread_fence(int) {}
	void __tsan_atomic_signal_fence(int) {}
}

// Function-local statics of the code under test: the other caller threads are parked, so a thread
// must not lose the processor while it holds an initialisation guard.
extern "C" {
	int __cxa_guard_acquire(long long* g) { if (*(char*)g) return 0; ++sim::no_preempt; return 1; }
	void __cxa_guard_release(long long* g) { *(char*)g = 1; --sim::no_preempt; }
	void __cxa_guard_abort(long long*) { --sim::no_preempt; }
	int __real_pthread_mutex_lock(pthread_mutex_t*);
	int __real_pthread_mutex_unlock(pthread_mutex_t*);
	int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { int r = __real_pthread_mutex_lock(m); if (!r) ++sim::no_preempt; return r; }
	int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); if (!r) --sim::no_preempt; return r; }
}

// -------------------------------------------------------------------------------- abort
namespace sim {
	static jmp_buf* abort_target = nullptr;
	bool catch_abort(const std::function<void()>& f) {
		jmp_buf b; jmp_buf* old = abort_target;
		volatile bool hit = false;
		if (setjmp(b) == 0) {
			abort_target = &b;
			try { f(); } catch (...) { abort_target = old; throw; }
		} else hit = true;
		abort_target = old;
		return hit;
	}
	__attribute__((noinline)) void paint_stack(uint64_t seed) {
		volatile double a[6000];
		uint64_t g = seed;
		for (int i = 0; i < 6000; i++) { g = mix64(g); a[i] = seed ? (double)(int64_t)g / 1e15 : 0.0; }
		(void)a[seed % 6000];
	}
}
extern "C" {
	void __real_abort() __attribute__((noreturn));
	void __real___assert_fail(const char*, const char*, unsigned, const char*) __attribute__((noreturn));
	void __wrap_abort() __attribute__((noreturn));
	void __wrap_abort() { if (sim::abort_target) longjmp(*sim::abort_target, 1); __real_abort(); }
	void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char* fn) __attribute__((noreturn));
	void __wrap___assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
		if (sim::abort_target) longjmp(*sim::abort_target, 1);
		__real___assert_fail(e, f, l, fn);
	}
}

// --------------------------------------------------------------------------------- main
namespace sim {
struct Prop { std::string id; Scenario s; std::string real, stubs, rule; bool isolate; };
static std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
Register::Register(const char* p, Scenario s, const char* r, const char* st, const char* ru, bool iso) { props().push_back({p, s, r, st, ru, iso}); }

static std::string esc(const std::string& s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o;
}

struct Outcome { bool viol = false; std::string cls, msg, trace; uint64_t hash = 0; Tape tape; bool nontriv = false; };

static void arm_timer() {
	struct itimerval it = {{0, 0}, {20, 0}};
	setitimer(ITIMER_PROF, &it, nullptr);
}

// Code under test that ends the process in the middle of a run (exit, Fortran's STOP) has failed, whatever the status.
static bool in_run = false;
static void left_run() { if (!in_run) return; in_run = false; fflush(stdout); static const char m[] = "the run ends the process\n"; if (write(2, m, sizeof m - 1) < 0) _exit(98); raise(SIGABRT); _exit(98); }
static Outcome execute_here(const Prop& p, Run& r) {
	struct Inside { bool old; Inside() : old(in_run) { in_run = true; } ~Inside() { in_run = old; } } inside;
	Outcome o;
	current = &r;
	heap::begin_epoch(); heap::garbage(0); heap::allocator_yields(false);
	arm_timer();
	try { p.s(r); }
	catch (Violation& v) { o.viol = true; o.cls = v.cls; o.msg = v.msg; }
	catch (std::exception& e) { o.viol = true; o.cls = "escaped-exception"; o.msg = e.what(); }
	heap::fail_at(0);
	if (!o.viol && heap::misuse) { o.viol = true; o.cls = "heap-misuse"; o.msg = heap::misuse; }
	current = nullptr;
	stats.runs++; stats.steps += r.sim_steps;
	if (r.is_nontrivial) stats.nontrivial++;
	r.hash_bytes(o.cls.data(), o.cls.size());
	r.hash_bytes(&r.sim_steps, 8);
	o.hash = r.hash; o.trace = r.trace; o.tape = r.out; o.nontriv = r.is_nontrivial;
	return o;
}

static Outcome isolated(const Prop& p, Run& r);
static bool in_own_process = false;
static Outcome execute(const Prop& p, Run& r) {
	if (p.isolate && !in_own_process) return isolated(p, r);
	return execute_here(p, r);
}

static std::string tape_json(const Tape& t) {
	std::string s = "[";
	for (size_t i = 0; i < t.s.size(); i++) {
		s += i ? ",[" : "[";
		for (size_t j = 0; j < t.s[i].size(); j++) { if (j) s += ","; s += std::to_string(t.s[i][j]); }
		s += "]";
	}
	return s + "]";
}
// parses the value of "tape" from a replay file
static bool parse_tape(const std::string& f, Tape& t) {
	size_t p = f.find("\"tape\"");
	if (p == std::string::npos) return false;
	p = f.find('[', p); if (p == std::string::npos) return false;
	p++;
	t.s.clear();
	while (p < f.size()) {
		while (p < f.size() && (f[p] == ' ' || f[p] == ',' || f[p] == '\n')) p++;
		if (f[p] == ']') return true;
		if (f[p] != '[') return false;
		p++;
		t.s.emplace_back();
		while (p < f.size() && f[p] != ']') {
			if (f[p] >= '0' && f[p] <= '9') t.s.back().push_back(strtoull(&f[p], nullptr, 10)), p = f.find_first_not_of("0123456789", p);
			else p++;
		}
		p++;
	}
	return false;
}


static std::string crash_text(int st, const std::string& e, std::string& cls) {
	std::string msg;
	if (WIFSIGNALED(st)) {
		int sg = WTERMSIG(st);
		cls = sg == SIGPROF ? "hang" : sg == SIGABRT ? "crash:SIGABRT" : sg == SIGSEGV ? "crash:SIGSEGV" : "crash:signal";
		msg = sg == SIGPROF ? "the run did not end within 20 s of processor time" : "process killed by signal " + std::to_string(sg);
	} else { cls = "crash:exit"; msg = "process exited with status " + std::to_string(WEXITSTATUS(st)); }
	size_t k = e.find("ERROR: AddressSanitizer");
	if (k != std::string::npos) { msg += ": " + e.substr(k, e.find('\n', k) - k); size_t h = msg.find(" on address"); if (h != std::string::npos) msg.resize(h); }
	else if ((k = e.find("Assertion")) != std::string::npos) msg += ": " + e.substr(k, e.find('\n', k) - k);
	else if (!e.empty()) msg += ": " + e.substr(0, std::min<size_t>(e.find('\n'), 200));
	return msg;
}
static void put_map(std::string& m, const std::map<std::string, uint64_t>& x) { m += std::to_string(x.size()) + "\n"; for (auto& k : x) m += k.first + "\n" + std::to_string(k.second) + "\n"; }
static void get_map(std::istream& i, std::map<std::string, uint64_t>& x) { size_t n; std::string k; uint64_t v; i >> n; for (size_t j = 0; j < n; j++) { i.ignore(1); std::getline(i, k); i >> v; x[k] += v; } }
static Tape record_crash_tape(const Prop& p, Run& r);
static Outcome isolated(const Prop& p, Run& r) {
	int fd[2], er = memfd_create("stderr", 0);
	if (pipe(fd) || er < 0) _exit(3);
	pid_t c = fork();
	if (c == 0) {
		close(fd[0]); dup2(er, 2);
		in_own_process = true;
		stats = Stats(); coverage().clear();
		Outcome o = execute_here(p, r);
		std::string m = (o.viol ? "1 " : "0 ") + std::to_string(o.hash) + " " + std::to_string(o.nontriv) + " " + std::to_string(r.sim_steps) + " " + std::to_string(stats.ops) + " " + std::to_string(stats.draws) + " " + std::to_string(stats.switches) + " " + std::to_string(stats.allocs) + " " + std::to_string(stats.ticks) + "\n";
		put_map(m, stats.faults); put_map(m, stats.probes);
		m += std::to_string(coverage().size()) + "\n"; for (uint64_t h : coverage()) m += std::to_string(h) + "\n";
		m += std::to_string(o.cls.size()) + " " + std::to_string(o.msg.size()) + " " + std::to_string(o.trace.size()) + "\n" + o.cls + o.msg + o.trace + "\"tape\":" + tape_json(o.tape);
		size_t off = 0; while (off < m.size()) { ssize_t n = write(fd[1], m.data() + off, m.size() - off); if (n <= 0) break; off += n; }
		_exit(0);
	}
	close(fd[1]);
	std::string m, e; char b[65536]; ssize_t n;
	while ((n = read(fd[0], b, sizeof b)) > 0) m.append(b, n);
	int st = 0; waitpid(c, &st, 0);
	lseek(er, 0, SEEK_SET);
	while (e.size() < (1u << 20) && (n = read(er, b, sizeof b)) > 0) e.append(b, n);
	close(fd[0]); close(er);
	Outcome o; stats.runs++;
	if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) {
		o.viol = true; o.msg = crash_text(st, e, o.cls);
		o.hash = 0; for (char ch : o.cls) o.hash = mix64(o.hash ^ (unsigned char)ch);
		o.tape = r.replay ? r.tape : record_crash_tape(p, r);
		return o;
	}
	std::istringstream i(m); size_t k, a1, a2, a3; uint64_t st1, op, dr, sw, al, ti;
	i >> o.viol >> o.hash >> o.nontriv >> st1 >> op >> dr >> sw >> al >> ti;
	stats.steps += st1; stats.ops += op; stats.draws += dr; stats.switches += sw; stats.allocs += al; stats.ticks += ti; stats.nontrivial += o.nontriv;
	get_map(i, stats.faults); get_map(i, stats.probes);
	i >> k; for (size_t j = 0; j < k; j++) { uint64_t h; i >> h; if (coverage().size() < coverage_cap) coverage().insert(h); }
	i >> a1 >> a2 >> a3; size_t q = (size_t)i.tellg() + 1;
	o.cls = m.substr(q, a1); o.msg = m.substr(q + a1, a2); o.trace = m.substr(q + a1 + a2, a3);
	parse_tape(m.substr(q + a1 + a2 + a3), o.tape);
	if (r.verbose) fprintf(stderr, "%s", o.trace.c_str());
	return o;
}

// Runs one tape (or seed) in a forked child so that crashes are outcomes too.
static Outcome forked(const Prop& p, const Tape* t, uint64_t seed, bool want_trace) {
	int fd[2];
	int er = memfd_create("stderr", 0);
	if (pipe(fd) || er < 0) _exit(3);
	fflush(stdout); fflush(stderr);
	pid_t c = fork();
	if (c == 0) {
		close(fd[0]);
		dup2(er, 2);
		in_own_process = true;
		Outcome o;
		// A crash still has to leave its tape behind: the tape is streamed when it is generated.
		if (t) { Run r(*t); o = execute(p, r); }
		else { Run r(seed); o = execute(p, r); }
		std::string m = o.viol ? "V" : "O";
		char b[64]; snprintf(b, sizeof b, " %llu %zu %zu %zu\n", (unsigned long long)o.hash, o.cls.size(), o.msg.size(), want_trace ? o.trace.size() : 0);
		m += b; m += o.cls; m += o.msg; if (want_trace) m += o.trace;
		m += tape_json(o.tape);
		size_t off = 0; while (off < m.size()) { ssize_t n = write(fd[1], m.data() + off, m.size() - off); if (n <= 0) break; off += n; }
		_exit(0);
	}
	close(fd[1]);
	std::string m, e; char b[65536]; ssize_t n;
	while ((n = read(fd[0], b, sizeof b)) > 0) { m.append(b, n); }
	int st = 0; waitpid(c, &st, 0);
	lseek(er, 0, SEEK_SET);
	while (e.size() < (1u << 20) && (n = read(er, b, sizeof b)) > 0) e.append(b, n);
	close(fd[0]); close(er);
	Outcome o;
	if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
		o.viol = true; o.msg = crash_text(st, e, o.cls);
		o.hash = 0; for (char ch : o.cls) o.hash = mix64(o.hash ^ (unsigned char)ch);
		if (t) o.tape = *t;
		return o;
	}
	o.viol = m[0] == 'V';
	unsigned long long h; size_t a, b2, c2;
	sscanf(m.c_str() + 1, "%llu %zu %zu %zu", &h, &a, &b2, &c2);
	size_t q = m.find('\n') + 1;
	o.hash = h; o.cls = m.substr(q, a); o.msg = m.substr(q + a, b2); o.trace = m.substr(q + a + b2, c2);
	parse_tape("\"tape\":" + m.substr(q + a + b2 + c2), o.tape);
	return o;
}

// A crashing run cannot report its tape: regenerate the draws by running with a shared-memory recorder.
static Tape record_crash_tape(const Prop& p, Run& r) {
	const size_t SZ = 64 << 20;
	char* sh = (char*)mmap(nullptr, SZ, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	pid_t c = fork();
	if (c == 0) {
		int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
		struct Rec { static void put(Run* r, char* sh, size_t SZ) { std::string s = "\"tape\":" + tape_json(r->out); if (s.size() + 1 < SZ) memcpy(sh, s.c_str(), s.size() + 1); } };
		static Run* rr; static char* ss; static size_t zz;
		in_own_process = true; rr = &r; ss = sh; zz = SZ;
		struct sigaction sa; memset(&sa, 0, sizeof sa);
		sa.sa_handler = [](int) { Rec::put(rr, ss, zz); _exit(0); };
		for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGPROF}) sigaction(s, &sa, nullptr);
		execute(p, *rr);
		Rec::put(rr, sh, SZ);
		_exit(0);
	}
	int st; waitpid(c, &st, 0);
	Tape t; parse_tape(sh, t);
	munmap(sh, SZ);
	return t;
}

static void write_replay(const char* path, const Prop& p, uint64_t seed, const Outcome& o, const Tape& t, const char* extra) {
	std::ofstream f(path);
	f << "{\"property\":\"" << p.id << "\",\"seed\":" << seed << ",\"class\":\"" << esc(o.cls) << "\",\"message\":\"" << esc(o.msg)
	  << "\",\"hash\":\"" << o.hash << "\"," << extra << "\n\"tape\":" << tape_json(t) << ",\n\"trace\":[";
	std::istringstream is(o.trace); std::string l; bool first = true;
	while (std::getline(is, l)) { f << (first ? "\n " : ",\n ") << '"' << esc(l) << '"'; first = false; }
	f << "\n]}\n";
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static int minimise(const Prop& p, const char* in, const char* outp, double budget) {
	std::ifstream f(in); std::stringstream ss; ss << f.rdbuf();
	Tape t; if (!parse_tape(ss.str(), t)) { fprintf(stderr, "bad replay file\n"); return 2; }
	std::string s = ss.str(); uint64_t seed = 0; { size_t k = s.find("\"seed\":"); if (k != std::string::npos) seed = strtoull(s.c_str() + k + 7, nullptr, 10); }
	Outcome base = forked(p, &t, 0, true);
	if (!base.viol) { fprintf(stderr, "does not reproduce\n"); return 2; }
	double end = now() + budget; uint64_t tried = 0, kept = 0;
	bool hang = base.cls == "hang";
	auto ok = [&](const Tape& c) {
		if (now() > end) return false;
		tried++;
		Outcome o = forked(p, &c, 0, false);
		if (o.viol && o.cls == base.cls) { kept++; return true; }
		return false;
	};
	size_t len0 = 0; for (auto& x : t.s) len0 += x.size();
	size_t ops0 = t.s.size() > FIRST_OP ? t.s.size() - FIRST_OP : 0;
	bool progress = !hang;
	while (progress && now() < end) {
		progress = false;
		// drop operations
		for (size_t chunk = std::max<size_t>(1, (t.s.size() - std::min<size_t>(t.s.size(), FIRST_OP)) / 2); chunk >= 1; chunk /= 2) {
			for (size_t i = FIRST_OP; i < t.s.size() && now() < end;) {
				Tape c = t; size_t e = std::min(t.s.size(), i + chunk);
				c.s.erase(c.s.begin() + i, c.s.begin() + e);
				if (ok(c)) { t = c; progress = true; } else i += chunk;
			}
			if (chunk == 1) break;
		}
		// cut and zero parts of each stream
		for (size_t st = 0; st < t.s.size() && now() < end; st++) {
			for (size_t chunk = std::max<size_t>(1, t.s[st].size()); chunk >= 1; chunk /= 2) {
				for (size_t i = 0; i < t.s[st].size() && now() < end;) {
					size_t e = std::min(t.s[st].size(), i + chunk);
					Tape c = t;
					c.s[st].erase(c.s[st].begin() + i, c.s[st].begin() + e);
					if (ok(c)) { t = c; progress = true; continue; }
					bool nz = false; for (size_t k = i; k < e; k++) nz |= t.s[st][k] != 0;
					if (nz) { c = t; for (size_t k = i; k < e; k++) c.s[st][k] = 0; if (ok(c)) { t = c; progress = true; } }
					i += chunk;
				}
				if (chunk == 1) break;
			}
			for (size_t i = 0; i < t.s[st].size() && now() < end; i++) {
				while (t.s[st][i] > 0 && now() < end) {
					Tape c = t; c.s[st][i] /= 2;
					if (c.s[st][i] != t.s[st][i] && ok(c)) { t = c; progress = true; continue; }
					c = t; c.s[st][i] -= 1;
					if (t.s[st][i] <= 64 && ok(c)) { t = c; progress = true; continue; }
					break;
				}
			}
		}
	}
	Outcome fin = forked(p, &t, 0, true);
	if (!fin.viol || fin.cls != base.cls) { fprintf(stderr, "minimised tape lost the violation\n"); return 2; }
	size_t len1 = 0; for (auto& x : t.s) len1 += x.size();
	size_t ops1 = t.s.size() > FIRST_OP ? t.s.size() - FIRST_OP : 0;
	char ex[256]; snprintf(ex, sizeof ex, "\"minimised\":{\"candidates\":%llu,\"kept\":%llu,\"choices\":[%zu,%zu],\"operations\":[%zu,%zu]},",
		(unsigned long long)tried, (unsigned long long)kept, len0, len1, ops0, ops1);
	write_replay(outp, p, seed, fin, t, ex);
	printf("{\"class\":\"%s\",\"message\":\"%s\",\"hash\":\"%llu\",\"candidates\":%llu}\n", esc(fin.cls).c_str(), esc(fin.msg).c_str(), (unsigned long long)fin.hash, (unsigned long long)tried);
	return 0;
}

static void map_json(std::ofstream& f, const std::map<std::string, uint64_t>& m) {
	f << "{"; bool first = true;
	for (auto& k : m) { f << (first ? "" : ",") << "\"" << esc(k.first) << "\":" << k.second; first = false; }
	f << "}";
}

// One worker: a supervisor that restarts the simulating child after a crash.
static int work(const Prop& p, uint64_t seed, uint64_t worker, uint64_t nworkers, uint64_t max_runs, double max_s, const std::string& dir, const std::set<std::string>& known) {
	struct Shared { volatile uint64_t idx; volatile int found; };
	Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	double end = now() + max_s;
	std::string base = dir + "/w" + std::to_string(worker);
	uint64_t start = worker; int part = 0;
	for (;;) {
		fflush(stdout);
		pid_t c = fork();
		if (c == 0) {
			std::vector<std::string> samples;
			std::unordered_set<uint64_t> nt;
			std::map<std::string, uint64_t> knownhits;
			std::ofstream hashes;
			int rc = 0;
			uint64_t idx = start;
			uint64_t selfchecks = 0, selfbad = 0;
			for (; idx < max_runs && now() < end; idx += nworkers) {
				sh->idx = idx;
				uint64_t s = mix64(seed * 0x9e3779b97f4a7c15ull + idx);
				Run r(s);
				Outcome o = execute(p, r);
				// determinism self-check: the same seed again, in the same process
				if (!o.viol && idx / nworkers < 6) {
					Stats keep = stats; Run r2(s); Outcome o2 = execute(p, r2); stats = keep;
					Run r3(o.tape); keep = stats; Outcome o3 = execute(p, r3); stats = keep;
					selfchecks += 2;
					if (o2.hash != o.hash || o3.hash != o.hash) {
						selfbad++;
						std::ofstream f(base + ".nondet"); f << "run " << idx << "\n" << o.trace << "\n---- again\n" << o2.trace << "\n---- tape\n" << o3.trace;
					}
				}
				if (o.nontriv && nt.size() < 400000) nt.insert(o.hash);
				if (o.viol && known.count(o.cls)) { knownhits[o.cls]++; continue; }
				if (o.viol) {
					write_replay((base + ".viol").c_str(), p, s, o, o.tape, ("\"index\":" + std::to_string(idx) + ",").c_str());
					sh->found = 1; rc = 1; break;
				}
				if (worker == 0 && samples.size() < 3 && o.nontriv && o.trace.size() < 3000) samples.push_back(o.trace);
			}
			struct itimerval off = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &off, nullptr);
			std::ofstream f(base + "." + std::to_string(part) + ".stats");
			f << "{\"runs\":" << stats.runs << ",\"nontrivial\":" << stats.nontrivial << ",\"steps\":" << stats.steps << ",\"ops\":" << stats.ops
			  << ",\"draws\":" << stats.draws << ",\"switches\":" << stats.switches << ",\"allocs\":" << stats.allocs << ",\"ticks\":" << stats.ticks
			  << ",\"selfchecks\":" << selfchecks << ",\"selfbad\":" << selfbad << ",\"faults\":";
			map_json(f, stats.faults); f << ",\"probes\":"; map_json(f, stats.probes); f << ",\"known\":"; map_json(f, knownhits);
			f << ",\"samples\":[";
			for (size_t i = 0; i < samples.size(); i++) f << (i ? "," : "") << "\"" << esc(samples[i]) << "\"";
			f << "]}\n"; f.close();
			FILE* b = fopen((base + "." + std::to_string(part) + ".cov").c_str(), "wb");
			for (uint64_t h : coverage()) fwrite(&h, 8, 1, b);
			fclose(b);
			b = fopen((base + "." + std::to_string(part) + ".nt").c_str(), "wb");
			for (uint64_t h : nt) fwrite(&h, 8, 1, b);
			fclose(b);
			_exit(rc);
		}
		int st; waitpid(c, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && sh->found) return 1;
		// crash: confirm it on its own, from the seed
		uint64_t idx = sh->idx, s = mix64(seed * 0x9e3779b97f4a7c15ull + idx);
		Outcome o = forked(p, nullptr, s, true);
		if (!o.viol) {
			std::ofstream f(base + ".error"); f << "run " << idx << " ended the worker (status " << st << ") but is clean on its own\n";
			return 2;
		}
		if (known.count(o.cls)) { start = idx + nworkers; part++; continue; }
		Run cr(s); Tape t = record_crash_tape(p, cr);
		write_replay((base + ".viol").c_str(), p, s, o, t, ("\"index\":" + std::to_string(idx) + ",").c_str());
		return 1;
	}
}

} // namespace sim

int main(int argc, char** argv) {
	using namespace sim;
	setvbuf(stdout, nullptr, _IOLBF, 0); atexit(left_run);
	std::vector<std::string> a(argv + 1, argv + argc);
	auto find = [&](const std::string& id) -> const Prop* { for (auto& p : props()) if (p.id == id) return &p; return nullptr; };
	if (a.size() >= 2 && a[0] == "info") {
		const Prop* p = find(a[1]); if (!p) return 2;
		printf("{\"real\":\"%s\",\"stubs\":\"%s\",\"rule\":\"%s\"}\n", esc(p->real).c_str(), esc(p->stubs).c_str(), esc(p->rule).c_str());
		return 0;
	}
	if (a.size() >= 8 && a[0] == "work") {
		const Prop* p = find(a[1]); if (!p) return 2;
		std::set<std::string> known(a.begin() + 8, a.end());
		return work(*p, strtoull(a[2].c_str(), 0, 10), strtoull(a[3].c_str(), 0, 10), strtoull(a[4].c_str(), 0, 10), strtoull(a[5].c_str(), 0, 10), atof(a[6].c_str()), a[7], known);
	}
	if (a.size() >= 3 && a[0] == "replay") {
		const Prop* p = find(a[1]); if (!p) return 2;
		std::ifstream f(a[2]); std::stringstream ss; ss << f.rdbuf();
		Tape t; if (!parse_tape(ss.str(), t)) return 2;
		Outcome o = forked(*p, &t, 0, true);
		if (a.size() > 3 && a[3] == "-v") fprintf(stderr, "%s", o.trace.c_str());
		printf("{\"violation\":%s,\"class\":\"%s\",\"message\":\"%s\",\"hash\":\"%llu\"}\n", o.viol ? "true" : "false", esc(o.cls).c_str(), esc(o.msg).c_str(), (unsigned long long)o.hash);
		return 0;
	}
	if (a.size() >= 3 && a[0] == "seed") {     // run one generated run, print its log
		const Prop* p = find(a[1]); if (!p) return 2;
		uint64_t idx = strtoull(a[2].c_str(), 0, 10), base = a.size() > 3 ? strtoull(a[3].c_str(), 0, 10) : 1;
		Run r(mix64(base * 0x9e3779b97f4a7c15ull + idx)); r.verbose = true;
		Outcome o = execute(*p, r);
		printf("%s %s %s hash %llu\n", o.viol ? "VIOL" : "ok", o.cls.c_str(), o.msg.c_str(), (unsigned long long)o.hash);
		return 0;
	}
	if (a.size() >= 5 && a[0] == "hashes") {   // idx range -> hashes, for determinism diffs
		const Prop* p = find(a[1]); if (!p) return 2;
		uint64_t base = strtoull(a[2].c_str(), 0, 10), lo = strtoull(a[3].c_str(), 0, 10), hi = strtoull(a[4].c_str(), 0, 10);
		for (uint64_t i = lo; i < hi; i++) { Run r(mix64(base * 0x9e3779b97f4a7c15ull + i)); Outcome o = execute(*p, r); printf("%llu %llu %s\n", (unsigned long long)i, (unsigned long long)o.hash, o.cls.c_str()); }
		return 0;
	}
	if (a.size() >= 4 && a[0] == "minimise") {
		const Prop* p = find(a[1]); if (!p) return 2;
		return minimise(*p, a[2].c_str(), a[3].c_str(), a.size() > 4 ? atof(a[4].c_str()) : 30);
	}
	fprintf(stderr, "usage: info|work|replay|seed|hashes|minimise\n");
	return 2;
}
