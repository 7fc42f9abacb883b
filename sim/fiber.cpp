#include "core.h"
#include "shared.h"
#include <set>
#include <map>
#include <ucontext.h>
#include <sys/mman.h>
#include <sanitizer/common_interface_defs.h>
extern "C" char sim_lib_data_begin[], sim_lib_data_end[], sim_lib_bss_begin[], sim_lib_bss_end[];
namespace sim { namespace fiber {
__attribute__((no_sanitize("address"))) static void copyStatic(std::vector<std::pair<uintptr_t, uint64_t>> &v)
{
	// red zones are read too: only in this function, so through copies
	for(char *p = sim_lib_data_begin; p < sim_lib_data_end; p += 8){ uint64_t x = *(volatile uint64_t *)p; v.push_back({(uintptr_t)p >> 3, x}); }
	for(char *p = sim_lib_bss_begin; p < sim_lib_bss_end; p += 8){ uint64_t x = *(volatile uint64_t *)p; v.push_back({(uintptr_t)p >> 3, x}); }
}
struct F { ucontext_t uc; std::function<void()> body; char *stack; bool done; void *fake; Ctx *ctx; };
static std::vector<F *> fs;
static ucontext_t mainUc;
static void *mainFake;
static const void *mainBottom;
static size_t mainSize;
int cur = -1;
static Switch now;
static uint64_t left;                 // 0: until the thread ends
static bool atNext;
static uint64_t nsw, nsteps[arena::NZONE], nstores[arena::NZONE], place;
static bool blocked;
int current() { return cur; }
uint64_t switches() { return nsw; }
uint64_t steps(int t) { return nsteps[t]; }
uint64_t staticStores(int t) { return nstores[t]; }
uint64_t interleaving() { return place; }
void noSwitch(bool on) { blocked = on; }
NoSwitch::NoSwitch() : was(blocked) { blocked = true; }
NoSwitch::~NoSwitch() { blocked = was; }
static const size_t STK = 1 << 20;

static void entry()
{
	__sanitizer_finish_switch_fiber(nullptr, &mainBottom, &mainSize);
	F *f = fs[cur];
	f->body();
	f->done = true;
	__sanitizer_start_switch_fiber(nullptr, mainBottom, mainSize);
	swapcontext(&f->uc, &mainUc);
}
static void toMain()
{
	F *f = fs[cur];
	int e = errno;                       // every thread has its own
	nsw++;
	place = mix64(place ^ (nsteps[cur] * arena::NZONE + cur));
	fault(now.kind == STEPS ? "thread_preempted" : now.kind == STATIC_STORE ? "thread_preempted_after_writing_static_data" : "thread_preempted_before_reading_static_data");
	__sanitizer_start_switch_fiber(&f->fake, mainBottom, mainSize);
	swapcontext(&f->uc, &mainUc);
	__sanitizer_finish_switch_fiber(f->fake, &mainBottom, &mainSize);
	errno = e;
}
static inline void step()
{
	nsteps[cur]++;
	if(atNext && !blocked){ atNext = false; toMain(); return; }
	if(now.kind == STEPS && left && !blocked && --left == 0) toMain();
}
static std::set<uintptr_t> watched;          // static data that changes: granules of 8 bytes
static inline uintptr_t granule(const void *p) { return (uintptr_t)p >> 3; }
static std::vector<std::pair<uintptr_t, uint64_t>> *before;
static void record(uintptr_t g, uint64_t ordinal);
static bool recordSites;
void watchBegin() { recordSites = true; before = new std::vector<std::pair<uintptr_t, uint64_t>>(); copyStatic(*before); watched.clear(); }
std::string watchEnd()
{
	std::vector<std::pair<uintptr_t, uint64_t>> after;
	copyStatic(after);
	for(size_t i = 0; i < after.size(); i++) if(after[i].second != (*before)[i].second) watched.insert(after[i].first);
	std::string r;
	for(auto g : watched) r += sprintf_("%lx ", g);
	return r;
}
void watch(const std::string &s)
{
	const char *p = s.c_str();
	char *e;
	for(;;){
		uintptr_t g = strtoul(p, &e, 16);
		if(e == p) break;
		watched.insert(g);
		p = e;
	}
}
bool watching() { return !watched.empty(); }
// where one thread's stores to static data went: granule -> some of their ordinals
static std::map<uintptr_t, std::vector<uint64_t>> sites;
static std::map<uintptr_t, uint64_t> siteCount;
static void record(uintptr_t g, uint64_t ordinal)
{
	uint64_t n = ++siteCount[g];
	auto &v = sites[g];
	if(v.size() < 6) v.push_back(ordinal);
	else{
		uint64_t k = mix64(g * 31 + n) % n;          // a sample of all of them
		if(k < v.size()) v[k] = ordinal;
	}
}
std::string storeSites()
{
	std::string r;
	for(auto &x : sites){ r += sprintf_("%lx", x.first); for(auto o : x.second) r += sprintf_(",%llu", (unsigned long long)o); r += " "; }
	return r;
}
static inline bool isStatic(const void *q)
{
	const char *p = (const char *)q;
	return (p >= sim_lib_data_begin && p < sim_lib_data_end) || (p >= sim_lib_bss_begin && p < sim_lib_bss_end);
}
static void foreign(const void *p, const char *what)
{
	failv("memory:another thread's memory accessed", "thread %d %s memory allocated by thread %d", cur, what, arena::zoneOf(p) - 1);
}
void onEdge() { step(); }
void onLoad(const void *p)
{
	int z = arena::zoneOf(p);
	bool st = isStatic(p);
	if(z < 0 && !st) return;             // its own stack
	if(z > 0 && z != cur + 1) foreign(p, "reads");
	step();
	if(now.kind == STATIC_LOAD && left && !blocked && st && watched.count(granule(p)) && --left == 0) toMain();
}
void onStore(const void *p)
{
	int z = arena::zoneOf(p);
	bool st = isStatic(p);
	if(z < 0 && !st) return;
	if(z > 0 && z != cur + 1) foreign(p, "writes");
	step();
	if(!st) return;
	nstores[cur]++;
	if(recordSites) record(granule(p) - granule(sim_lib_data_begin), nstores[cur]);   // wherever the program is loaded
	watched.insert(granule(p));
	if(now.kind == STATIC_STORE && left && --left == 0) atNext = true;
}
void run(std::vector<std::function<void()>> bodies, const std::vector<Switch> &s)
{
	size_t pos = 0;
	nsw = place = 0;
	for(auto &b : bodies){
		F *f = new F;
		f->body = b;
		f->done = false;
		f->fake = nullptr;
		f->ctx = nullptr;
		f->stack = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		getcontext(&f->uc);
		f->uc.uc_stack.ss_sp = f->stack;
		f->uc.uc_stack.ss_size = STK;
		f->uc.uc_link = nullptr;
		makecontext(&f->uc, entry, 0);
		nsteps[fs.size()] = nstores[fs.size()] = 0;
		fs.push_back(f);
	}
	size_t rr = 0;
	for(;;){
		std::vector<int> runnable;
		for(size_t i = 0; i < fs.size(); i++) if(!fs[i]->done) runnable.push_back((int)i);
		if(runnable.empty()) break;
		int next;
		if(pos < s.size()){
			now = s[pos++];
			next = runnable[(uint64_t)now.to % runnable.size()];
			left = now.n ? now.n : 1;
		}else{
			now = Switch{STEPS, 0, 0};
			next = runnable[rr++ % runnable.size()];
			left = 0;
		}
		atNext = false;
		cur = next;
		F *f = fs[next];
		Ctx *c = g_ctx;
		if(f->ctx) g_ctx = f->ctx;
		__sanitizer_start_switch_fiber(&mainFake, f->stack, STK);
		swapcontext(&mainUc, &f->uc);
		__sanitizer_finish_switch_fiber(mainFake, nullptr, nullptr);
		f->ctx = g_ctx;
		g_ctx = c;
		cur = -1;
	}
	for(auto f : fs){ munmap(f->stack, STK); delete f; }
	fs.clear();
}
}}
