// Deterministic simulator core: one tape of choices decides a whole run.
//
//  * Run      - the decisions, the event log, the statistics of one simulated run
//  * heap     - replacement global allocator: seeded failures, seeded garbage, leak accounting
//  * Sched    - caller threads parked and released one at a time by seeded decisions
//  * abort    - std::abort() reached by the code under test is turned into an observable event
//
// Every choice is drawn from Run::pick(); a run is a pure function of (code, tape).
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <stdexcept>

namespace sim {

static inline uint64_t mix64(uint64_t z) {
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 0) : s(seed) {}
	uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

// Streams of the tape. Ops are streams FIRST_OP, FIRST_OP+1, ...
enum { S_CONFIG = 0, S_SCHED = 1, S_FAULT = 2, FIRST_OP = 3 };

struct Tape { std::vector<std::vector<uint64_t>> s; };

// Thrown by Run::fail. Not derived from std::exception on purpose.
struct Violation { std::string cls, msg; };

class Run {
public:
	Run(uint64_t seed);                 // generate
	Run(const Tape& t);                 // replay
	// ---- choices ---------------------------------------------------------------
	uint64_t pick(uint64_t n);                       // current op stream, in [0,n)
	uint64_t pick_from(int stream, uint64_t n);
	bool chance(unsigned num, unsigned den) { return pick(den) >= den - num; } // 0 means "no"
	int range(int lo, int hi) { return lo + (int)pick((uint64_t)(hi - lo + 1)); }
	int extent(int lo, int hi, int big) { return pick(40) == 39 ? range(hi + 1, big) : range(lo, hi); }   // a size: now and then a large one
	double number();                                 // a finite double, small values first
	double unit();                                   // multiple of 2^-20 in [-1,1]
	int small_int(int m) { uint64_t p = pick(2 * m + 1); return (p & 1) ? -(int)((p + 1) / 2) : (int)(p / 2); }
	bool next_op();                                  // true: a new operation stream is current
	void set_ops(int n) { gen_ops = n; }             // generation only
	int op_index() const { return (int)cur - FIRST_OP; }
	// ---- log and verdict -----------------------------------------------------------
	void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	void hash_bytes(const void* p, size_t n);
	void hash_double(double d);
	[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
	// ---- statistics -----------------------------------------------------------------
	void fault(const char* kind);                    // a fault actually fired
	void probe(const char* name);                    // a rare condition was reached
	void cover(uint64_t h);                          // a distinct state / interleaving
	void nontrivial() { is_nontrivial = true; }
	void steps(uint64_t n) { sim_steps += n; }       // simulated time, in events
	// -----------------------------------------------------------------------------------
	Tape tape;
	bool replay;
	bool verbose = false;
	bool is_nontrivial = false;
	uint64_t hash = 1469598103934665603ull;
	uint64_t sim_steps = 0;
	std::string trace;
	Tape out;                                        // what was actually drawn
private:
	std::vector<size_t> pos;
	size_t cur = 0;
	int gen_ops = 0;
	Rng rng;
	std::vector<Rng> srng;
	uint64_t seed_;
	void need(size_t stream);
};

extern Run* current;          // the run in progress
struct Stats {
	std::map<std::string, uint64_t> faults, probes;
	uint64_t runs = 0, nontrivial = 0, steps = 0, ops = 0, draws = 0, switches = 0, allocs = 0, ticks = 0;
};
extern Stats stats;

// A scenario is registered under a property id.
typedef void (*Scenario)(Run&);
// isolate: every run executes in a process of its own, forked from one that has never run a scenario.
struct Register { Register(const char* prop, Scenario s, const char* real, const char* stubs, const char* rule, bool isolate = false); };

// ---------------------------------------------------------------------------------- heap
namespace heap {
	// Tracking is on only inside an Armed scope of the calling thread.
	struct Armed  { bool old; Armed(); ~Armed(); };
	struct Paused { bool old; Paused(); ~Paused(); };
	void begin_epoch();                 // forget all earlier blocks
	long live_blocks();                 // blocks of this epoch still allocated
	uint64_t count();                   // armed allocations since begin_epoch / reset_count
	void reset_count();
	void fail_at(uint64_t k, bool sticky = false);   // k-th armed allocation from now throws (1-based); 0: never
	bool fired();                       // the planned failure happened
	void garbage(uint64_t seed);        // 0: leave contents; else pattern for fresh blocks
	void allocator_yields(bool on);     // allocation is a yield point
	extern const char* misuse;          // new/delete[] mismatch, double free, corrupted guard: sticky
	void live_ranges(std::vector<std::pair<const char*, const char*>>&);
	bool check_guards();                // all live blocks of this epoch intact
}

// --------------------------------------------------------------------------------- sched
// Caller threads, released one at a time; preemption happens only at yield points.
class Sched {
public:
	Sched(Run& r) : run(r) {}
	void spawn(std::function<void()> f) { body.push_back(f); }
	void go(int max_stint, int hot_rate = 0);   // runs all to completion under seeded preemption
	uint64_t schedule_hash = 0;
	uint64_t switch_count = 0;
	uint64_t targeted = 0;              // preemptions at accesses to shared memory
	struct Impl;
private:
	Run& run;
	std::vector<std::function<void()>> body;
};
void yield_point();                     // no-op unless called from a Sched thread
extern thread_local int no_preempt;     // > 0: never switch away here
struct NoPreempt { NoPreempt() { ++no_preempt; } ~NoPreempt() { --no_preempt; } };

// --------------------------------------------------------------------------------- abort
// Runs f; returns true if f reached std::abort() or a failed assert(). Objects on f's stack are abandoned.
bool catch_abort(const std::function<void()>& f);

// paints the stack below the caller with a seeded pattern
void paint_stack(uint64_t seed);

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string dbl(double d);
bool same_bits(double a, double b);     // equal bits, or both NaN
}
#endif
