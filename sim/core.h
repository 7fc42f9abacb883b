// Deterministic simulator for libo: plans, simulated allocator/clock/threads, child execution.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- randomness
uint64_t mix64(uint64_t x);
uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
struct Rng {
	uint64_t s0, s1;
	explicit Rng(uint64_t seed);
	uint64_t next();
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
	bool chance(int num, int den) { return (int)below(den) < num; }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- plans
struct Op {
	std::string k;               // kind
	std::vector<int64_t> a;      // integer arguments
	std::string s;               // byte-string argument
	int64_t A(size_t i, int64_t def = 0) const { return i < a.size() ? a[i] : def; }
};
struct Plan {
	std::string prop;
	uint64_t seed = 0;
	std::map<std::string, int64_t> cfg;
	std::vector<Op> ops;
	int64_t C(const char *k, int64_t def = 0) const { auto i = cfg.find(k); return i == cfg.end() ? def : i->second; }
	void op(const char *k, std::vector<int64_t> a = {}, std::string s = "") { ops.push_back(Op{k, std::move(a), std::move(s)}); }
	std::string text() const;
	static bool parse(const std::string &t, Plan &out);
	uint64_t hash() const;
};

// ---------------------------------------------------------------- scenarios
struct Ctx;
struct Scenario {
	const char *prop;
	void (*gen)(Rng &, Plan &, int tier);   // tier 0 quick, 1 thorough
	void (*run)(const Plan &, Ctx &);
	uint64_t quick_runs, thorough_runs;
	const char *rule;                       // what makes a run non-trivial
	const char *real_parts, *stub_parts;
	const char *assumptions;
};
void registerScenario(const Scenario &);
const Scenario *findScenario(const std::string &prop);
std::vector<const Scenario *> allScenarios();
struct Reg { Reg(const Scenario &s) { registerScenario(s); } };
bool avoid(const char *tag);   // a listed known finding: generators leave out its exact trigger

// ---------------------------------------------------------------- run context (child process)
[[noreturn]] void failv(const char *sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void fault(const char *name, uint64_t n = 1);    // a fault really fired
void probe(const char *name, uint64_t n = 1);    // a rare condition was reached
void stateHash(uint64_t h);                      // a distinct abstract state
void simTime(uint64_t us);                       // simulated time covered
void stepBudget(uint64_t edges);                 // progress bound for what follows (0: none)
uint64_t edgesNow();
extern int g_debug;
extern bool g_quiet;                             // functional failures end the run quietly; memory errors still count
extern int g_stackFill;                          // byte the unused stack is filled with before each operation, -1: left alone
struct Ctx {
	uint64_t h = 1469598103934665603ull;         // rolling trace hash
	bool nontriv = false;
	size_t opi = 0;
	std::vector<std::string> *rec = nullptr;     // optional full trace
	void log(const std::string &s);
	void logf(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	void at(size_t i, const Op &o);              // entering operation i
	void nontrivial() { nontriv = true; }
};

// ---------------------------------------------------------------- simulated allocator
namespace arena {
enum Fill { F_ZERO, F_FF, F_A5, F_RANDOM, F_STALE };
struct Policy { int fill = F_A5; bool reuse = false; bool inplace = false; uint64_t seed = 1; int64_t offset = 0; };
void init();                         // map (parent, once)
void setPolicy(const Policy &p);
Policy policyFrom(const Plan &p);
void genPolicy(Rng &r, Plan &p);     // choose personality into plan cfg
void install();                      // osc_set_mem
void *alloc(size_t n);
void *resize(void *p, size_t n);
void release(void *p);
// caller memory inside the arena (not counted as the library's)
char *callerBuf(size_t n);           // exact size, guard zones on both sides
char *callerBytes(const void *src, size_t n);
void callerFree(void *p);
uint64_t live();                     // blocks live (library + raw)
uint64_t count();                    // allocations so far
enum { NZONE = 6 };                  // outside the simulated threads, and one per thread
int zoneNow();
int zoneOf(const void *p);           // -1: not simulated memory
struct SharedScope { int k; SharedScope(); ~SharedScope(); };   // what the library allocates meanwhile belongs to no thread
struct Mark { uint64_t id; };
Mark mark();
void checkNoLeaks(Mark m, const char *what);   // no block allocated since m is still live
uint64_t liveSince(Mark m);
bool owns(const void *p);
bool liveBlock(const void *p);
size_t sizeOf(const void *p);
void failNth(int64_t n, bool sticky = false);   // the n-th library allocation from now fails (0: next), and with sticky all after it; -1: off
bool failFired();
void failAlways(bool);
void *allocSurely(size_t n);          // like alloc, but no injected failure
std::string describe(const void *addr);
}

// ---------------------------------------------------------------- simulated clock
namespace simclock {
void set(int64_t sec, int64_t usec);
}

// ---------------------------------------------------------------- fibers (simulated threads)
namespace fiber {
// what ends a slice of the running thread: so many steps (library edges and memory accesses), its n-th store to the
// library's static data from here (it stops after the store), its n-th load from static data that is known to
// change (it stops before the load)
enum { STEPS = 0, STATIC_STORE = 1, STATIC_LOAD = 2 };
struct Switch { int kind; uint64_t n; int to; };
void run(std::vector<std::function<void()>> bodies, const std::vector<Switch> &sched);
int current();                                   // index or -1
uint64_t switches();
uint64_t steps(int thread);                      // steps taken by a thread in the last run
uint64_t staticStores(int thread);               // and its stores to the library's static data
void watchBegin();                               // learn which static data changes until
std::string watchEnd();                          // here, and
void watch(const std::string &s);                // watch it
std::string storeSites();                        // where stores to static data went meanwhile: "granule,ordinal,.. .."
bool watching();
uint64_t interleaving();                         // hash of where the switches happened
void noSwitch(bool on);                          // harness code inside a fiber: do not preempt
struct NoSwitch { bool was; NoSwitch(); ~NoSwitch(); };
}

// ---------------------------------------------------------------- child helper: run f in a forked copy, get bytes back
// returns false if the child crashed or failed; sig/detail then describe why.
bool forkRun(const std::function<std::string()> &f, std::string &out, std::string &sig, std::string &detail);

extern "C" {
int sim_error_handler(void *context, const char *const str);
}
std::vector<std::string> &errorsNow();
#define g_errors (sim::errorsNow())              // error strings reported by the library in this run, per simulated thread
template <class T> struct PerThread { T v[arena::NZONE]; T &operator()() { return v[fiber::current() + 1]; } };
std::string esc(const std::string &s);           // printable form of bytes
std::string sprintf_(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
}
