#include "core.h"
#include <math.h>
#include "shared.h"
#include <cstdarg>
#include <cinttypes>
#include <algorithm>
#include <unordered_map>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
extern "C" {
#include "osc_mem.h"
#include "osc_error.h"
}

namespace sim {

// ASan's fork interceptor costs 2 ms; these processes are single-threaded, so the system call is enough.
static pid_t rawFork() { return (pid_t)syscall(SYS_fork); }
[[noreturn]] static void rawExit(int c) { syscall(SYS_exit_group, c); __builtin_trap(); }

int g_debug = 0;
Shared *g_sh = nullptr;
Slot *g_slot = nullptr;
Ctx *g_ctx = nullptr;
std::vector<std::string> &errorsNow() { static std::vector<std::string> e[arena::NZONE]; return e[fiber::current() + 1]; }
bool g_symbolize = false;
extern "C" char __executable_start;
// program counters in messages, resolved by the parent when it prints them
static std::string pcRef(void *p) { return sprintf_("@@%zx@@", (size_t)((char *)p - &__executable_start)); }
std::string resolvePcs(const std::string &s)
{
	std::string o, exe;
	char e[4096];
	ssize_t n = readlink("/proc/self/exe", e, sizeof e - 1);
	exe.assign(e, n > 0 ? n : 0);
	std::map<std::string, std::string> memo;
	for(size_t i = 0; i < s.size();){
		size_t b = s.find("@@", i);
		size_t z = b == std::string::npos ? b : s.find("@@", b + 2);
		if(z == std::string::npos){ o += s.substr(i); break; }
		o += s.substr(i, b - i);
		std::string h = s.substr(b + 2, z - b - 2);
		auto it = memo.find(h);
		if(it == memo.end()){
			std::string r = "?";
			if(h.find_first_not_of("0123456789abcdef") == std::string::npos){
				// the call lies before the return address
				FILE *f = popen(("addr2line -s -f -e '" + exe + "' " + sprintf_("%llx", strtoull(h.c_str(), 0, 16) - 1) + " 2>/dev/null").c_str(), "r");
				char fn[256] = "", ln[256] = "";
				if(f){ if(fgets(fn, sizeof fn, f)) fn[strcspn(fn, "\n")] = 0; if(fgets(ln, sizeof ln, f)) ln[strcspn(ln, " \n")] = 0; pclose(f); }
				r = std::string(fn) + " " + ln;
			}
			it = memo.emplace(h, r).first;
		}
		o += it->second;
		i = z + 2;
	}
	return o;
}

// ---------------------------------------------------------------- randomness
uint64_t mix64(uint64_t x)
{
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}
uint64_t fnv(const void *p, size_t n, uint64_t h)
{
	const unsigned char *b = (const unsigned char *)p;
	for(size_t i = 0; i < n; i++){ h ^= b[i]; h *= 1099511628211ull; }
	return h;
}
Rng::Rng(uint64_t seed) { s0 = mix64(seed); s1 = mix64(seed ^ 0xdeadbeefcafef00dull); if(!s0 && !s1) s1 = 1; }
uint64_t Rng::next()
{
	uint64_t a = s0, b = s1, r = a + b;
	b ^= a;
	s0 = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
	s1 = (b << 37) | (b >> 27);
	return r;
}
std::string sprintf_(const char *fmt, ...)
{
	char buf[4096];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if(n < 0) n = 0;
	if(n >= (int)sizeof buf) n = sizeof buf - 1;
	return std::string(buf, n);
}
std::string esc(const std::string &s)
{
	std::string o;
	for(unsigned char c : s){
		if(c == '\\' || c == '"'){ o += '\\'; o += c; }
		else if(c < 32 || c > 126) o += sprintf_("\\x%02x", c);
		else o += c;
	}
	return o;
}
static std::string unesc(const std::string &s)
{
	std::string o;
	for(size_t i = 0; i < s.size(); i++){
		if(s[i] == '\\' && i + 1 < s.size()){
			if(s[i + 1] == 'x' && i + 3 < s.size()){ o += (char)strtol(s.substr(i + 2, 2).c_str(), 0, 16); i += 3; }
			else { o += s[i + 1]; i++; }
		}else o += s[i];
	}
	return o;
}

// ---------------------------------------------------------------- plans
std::string Plan::text() const
{
	std::string o = "prop " + prop + "\nseed " + sprintf_("%" PRIu64, seed) + "\n";
	for(auto &c : cfg) o += "cfg " + c.first + " " + sprintf_("%" PRId64, c.second) + "\n";
	for(auto &p : ops){
		o += "op " + p.k;
		for(auto v : p.a) o += sprintf_(" %" PRId64, v);
		if(!p.s.empty()) o += " \"" + esc(p.s) + "\"";
		o += "\n";
	}
	return o;
}
bool Plan::parse(const std::string &t, Plan &out)
{
	out = Plan();
	size_t i = 0;
	while(i < t.size()){
		size_t e = t.find('\n', i);
		if(e == std::string::npos) e = t.size();
		std::string l = t.substr(i, e - i);
		i = e + 1;
		if(l.empty() || l[0] == '#') continue;
		size_t sp = l.find(' ');
		if(sp == std::string::npos) continue;
		std::string w = l.substr(0, sp), rest = l.substr(sp + 1);
		if(w == "prop") out.prop = rest;
		else if(w == "seed") out.seed = strtoull(rest.c_str(), 0, 10);
		else if(w == "cfg"){
			size_t q = rest.find(' ');
			if(q == std::string::npos) return false;
			out.cfg[rest.substr(0, q)] = strtoll(rest.c_str() + q + 1, 0, 10);
		}else if(w == "op"){
			Op o;
			size_t q = rest.find('"');
			std::string head = q == std::string::npos ? rest : rest.substr(0, q);
			if(q != std::string::npos){
				size_t last = rest.rfind('"');
				if(last > q) o.s = unesc(rest.substr(q + 1, last - q - 1));
			}
			size_t p = 0;
			bool first = true;
			while(p < head.size()){
				while(p < head.size() && head[p] == ' ') p++;
				size_t n = p;
				while(n < head.size() && head[n] != ' ') n++;
				if(n > p){
					if(first){ o.k = head.substr(p, n - p); first = false; }
					else o.a.push_back(strtoll(head.substr(p, n - p).c_str(), 0, 10));
				}
				p = n;
			}
			out.ops.push_back(o);
		}
	}
	return !out.prop.empty();
}
uint64_t Plan::hash() const
{
	uint64_t h = fnv(prop.data(), prop.size());
	for(auto &c : cfg){ h = fnv(c.first.data(), c.first.size(), h); h = fnv(&c.second, 8, h); }
	for(auto &o : ops){
		h = fnv(o.k.data(), o.k.size(), h);
		if(!o.a.empty()) h = fnv(o.a.data(), 8 * o.a.size(), h);
		h = fnv(o.s.data(), o.s.size(), h);
	}
	return h;
}

static std::vector<const Scenario *> &scen() { static std::vector<const Scenario *> v; return v; }
void registerScenario(const Scenario &s) { scen().push_back(new Scenario(s)); }
const Scenario *findScenario(const std::string &p) { for(auto s : scen()) if(p == s->prop) return s; return nullptr; }
std::vector<const Scenario *> allScenarios() { return scen(); }

// ---------------------------------------------------------------- counters
static void bump(Counter *tab, const char *name, uint64_t n)
{
	if(!g_sh) return;
	for(int i = 0; i < MAXCOUNTERS; i++){
		Counter &c = tab[i];
		int st = __atomic_load_n(&c.state, __ATOMIC_ACQUIRE);
		if(st == 0){
			int exp = 0;
			if(__atomic_compare_exchange_n(&c.state, &exp, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)){
				strncpy(c.name, name, sizeof c.name - 1);
				__atomic_store_n(&c.state, 2, __ATOMIC_RELEASE);
			}
		}
		while(__atomic_load_n(&c.state, __ATOMIC_ACQUIRE) == 1) usleep(1);
		if(!strncmp(c.name, name, sizeof c.name - 1)){
			__atomic_fetch_add(&c.n, n, __ATOMIC_RELAXED);
			return;
		}
	}
}
// accumulated per run and flushed at its end, so that names stay cheap
static std::map<const char *, uint64_t> l_faults, l_probes;
void fault(const char *name, uint64_t n) { if(n) l_faults[name] += n; }
void probe(const char *name, uint64_t n) { if(n) l_probes[name] += n; }
static void flushCounters()
{
	for(auto &f : l_faults) bump(g_sh->faults, f.first, f.second);
	for(auto &p : l_probes) bump(g_sh->probes, p.first, p.second);
	l_faults.clear();
	l_probes.clear();
}
bool bitsetInsert(unsigned char *bits, uint64_t h)
{
	uint64_t b = h & (SETBITS - 1);
	unsigned char m = 1u << (b & 7);
	unsigned char old = __atomic_fetch_or(&bits[b >> 3], m, __ATOMIC_RELAXED);
	return !(old & m);
}
void stateHash(uint64_t h)
{
	if(g_sh && bitsetInsert(g_sh->states, mix64(h))) __atomic_fetch_add(&g_sh->nstates, 1, __ATOMIC_RELAXED);
}
void simTime(uint64_t us) { if(g_slot) g_slot->simtime += us; }

// ---------------------------------------------------------------- failing
bool g_quiet;
int g_stackFill = -1;
static void finishSlot(int state, const char *sig, const char *detail)
{
	if(!g_slot) return;
	strncpy(g_slot->sig, sig, sizeof g_slot->sig - 1);
	strncpy(g_slot->detail, detail, sizeof g_slot->detail - 1);
	if(g_ctx){ g_slot->trace = g_ctx->h; g_slot->nontriv = g_ctx->nontriv; g_slot->opi = g_ctx->opi; }
	g_slot->edges = edgesNow();
	__atomic_store_n(&g_slot->state, state, __ATOMIC_RELEASE);
}
void failv(const char *sig, const char *fmt, ...)
{
	char buf[4000];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if(g_quiet && strncmp(sig, "memory:", 7) && strncmp(sig, "leak", 4) && strcmp(sig, "no progress")){
		// another property's business: this run ends here
		probe("functional failure left to its own property");
		flushCounters();
		finishSlot(ST_OK, "", "");
		rawExit(0);
	}
	finishSlot(ST_VIOLATION, sig, buf);
	rawExit(1);
}
// what the stack below holds when the library is called
__attribute__((noinline, no_sanitize("address"))) static void dirtyStack(int b)
{
	volatile char buf[24576];
	for(size_t i = 0; i < sizeof buf; i += 8) *(volatile uint64_t *)(buf + i) = 0x0101010101010101ull * (unsigned char)b;
}
void Ctx::log(const std::string &s)
{
	h = fnv(s.data(), s.size(), h);
	h = mix64(h);
	if(rec) rec->push_back(s);
	if(g_debug > 1) fprintf(stderr, "  %s\n", esc(s).c_str());
	if(g_stackFill >= 0) dirtyStack(g_stackFill);
}
void Ctx::logf(const char *fmt, ...)
{
	char buf[4096];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	log(std::string(buf, std::min<size_t>(n < 0 ? 0 : n, sizeof buf - 1)));
}
void Ctx::at(size_t i, const Op &o)
{
	opi = i;
	if(g_stackFill >= 0) dirtyStack(g_stackFill);
	if(g_slot) g_slot->ops++;
	if(g_debug) {
		std::string l = sprintf_("[%zu] %s", i, o.k.c_str());
		for(auto v : o.a) l += sprintf_(" %" PRId64, v);
		if(!o.s.empty()) l += " \"" + esc(o.s) + "\"";
		fprintf(stderr, "%s\n", l.c_str());
	}
}

// ---------------------------------------------------------------- arena
namespace arena {
static const uintptr_t BASE = 0x200000000000ull;
static const size_t SIZE = 1ull << 30;
static const size_t RZ = 48;
static const uint32_t MAGIC_LIVE = 0x11feb10c, MAGIC_FREE = 0xdeadb10c;
struct Hdr { uint32_t magic; uint32_t kind; uint64_t id; uint64_t size; uint64_t cap; };   // lives in the left guard zone
// one zone per simulated thread, so that nothing in one depends on what another allocates
static const uintptr_t ZSTRIDE = 1ull << 32;
struct Zone {
	uintptr_t base = 0, top = 0;
	uintptr_t &top_() { return top; }
	Policy pol;
	Rng frng{1};
	uint64_t nalloc = 0, nlive = 0;
	std::unordered_map<uint64_t, std::vector<uintptr_t>> freelist;
	std::vector<uintptr_t> blocks;       // user pointers in allocation order (ids 1..)
};
static Zone *zones;                          // 0: outside the threads, and what they share
static bool shared_[NZONE];
int zoneNow() { int k = fiber::current() + 1; return shared_[k] ? 0 : k; }
static Zone &Z() { return zones[zoneNow()]; }
#define top (Z().top)
#define pol (Z().pol)
#define frng (Z().frng)
#define nalloc (Z().nalloc)
#define nlive (Z().nlive)
#define freelist (&Z().freelist)
#define blocks (&Z().blocks)
SharedScope::SharedScope() : k(fiber::current() + 1) { shared_[k] = true; }
SharedScope::~SharedScope() { shared_[k] = false; }
static int64_t failcount = -1;
static bool failfired, failall, failsticky;
struct Trace { void *pc[10]; };
static std::vector<Trace> *traces;
enum { K_LIB = 0, K_CALLER = 1 };

#define NOASAN __attribute__((no_sanitize("address")))
NOASAN static Hdr *hdr(uintptr_t p) { return (Hdr *)(p - sizeof(Hdr)); }
NOASAN static uint32_t magicOf(uintptr_t p) { return hdr(p)->magic; }
NOASAN static uint64_t sizeOf_(uintptr_t p) { return hdr(p)->size; }
NOASAN static uint64_t idOf(uintptr_t p) { return hdr(p)->id; }
NOASAN static uint32_t kindOf(uintptr_t p) { return hdr(p)->kind; }
NOASAN static uint64_t capOf(uintptr_t p) { return hdr(p)->cap; }
NOASAN static void setHdr(uintptr_t p, uint32_t m, uint32_t k, uint64_t id, uint64_t s, uint64_t cap) { Hdr *h = hdr(p); h->magic = m; h->kind = k; h->id = id; h->size = s; h->cap = cap; }
NOASAN static void setMagic(uintptr_t p, uint32_t m) { hdr(p)->magic = m; }
NOASAN static void setSize(uintptr_t p, uint64_t s) { hdr(p)->size = s; }

void init()
{
	zones = new Zone[NZONE];
	for(int i = 0; i < NZONE; i++){
		zones[i].base = BASE + i * ZSTRIDE;
		void *m = mmap((void *)zones[i].base, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if(m != (void *)zones[i].base){ fprintf(stderr, "cannot map arena\n"); rawExit(2); }
		(&zones[i])->top_() = zones[i].base + 4096;
	}
	traces = new std::vector<Trace>;
}
void setPolicy(const Policy &p)
{
	pol = p;
	frng = Rng(p.seed);
	top += (p.offset & 0xffff) * 16;
}
Policy policyFrom(const Plan &p)
{
	Policy q;
	q.fill = (int)p.C("mem_fill", F_A5);
	q.reuse = p.C("mem_reuse");
	q.inplace = p.C("mem_inplace");
	q.seed = (uint64_t)p.C("mem_seed", 1);
	return q;
}
void genPolicy(Rng &r, Plan &p)
{
	p.cfg["mem_fill"] = (int64_t)r.below(5);
	p.cfg["mem_reuse"] = r.chance(1, 3);
	p.cfg["mem_inplace"] = r.chance(1, 4);
	p.cfg["mem_seed"] = (int64_t)(r.next() & 0xffff);
}
static void fillFresh(uintptr_t p, size_t n, bool recycled)
{
	unsigned char *b = (unsigned char *)p;
	if(recycled && pol.fill == F_STALE){ fault("memory_recycled_stale"); return; }
	switch(pol.fill){
	case F_ZERO: memset(b, 0, n); break;
	case F_FF: memset(b, 0xff, n); fault("memory_garbage_fill"); break;
	case F_A5: memset(b, 0xa5, n); fault("memory_garbage_fill"); break;
	case F_STALE: memset(b, 0x2f, n); fault("memory_garbage_fill"); break;   // '/': looks like an address
	default: for(size_t i = 0; i < n; i++) b[i] = (unsigned char)frng.next(); fault("memory_garbage_fill"); break;
	}
}
static uintptr_t rawAlloc(size_t n, uint32_t kind)
{
	size_t cap = (n + 15) & ~(size_t)15;
	if(cap == 0) cap = 16;
	uintptr_t p = 0;
	bool recycled = false;
	if(pol.reuse && kind == K_LIB){
		auto it = freelist->find(cap);
		if(it != freelist->end() && !it->second.empty()){
			p = it->second.back();
			it->second.pop_back();
			recycled = true;
			fault("memory_block_reused");
		}
	}
	if(!p){
		if(n > (64u << 20) || top + cap + 2 * RZ > Z().base + SIZE) return 0;
		p = top + RZ;
		p = (p + 15) & ~(uintptr_t)15;
		top = p + cap;
		__asan_poison_memory_region((void *)(p - RZ), RZ);
		__asan_poison_memory_region((void *)(p + cap), RZ + 64);
	}
	__asan_unpoison_memory_region((void *)p, cap);
	if(kind == K_LIB) fillFresh(p, n, recycled);
	else memset((void *)p, 0x5c, n);
	if(cap > n) __asan_poison_memory_region((void *)(p + n), cap - n);
	blocks->push_back(p);
	setHdr(p, MAGIC_LIVE, kind, blocks->size(), n, cap);
	if(g_debug || g_symbolize){
		Trace t;
		memset(&t, 0, sizeof t);
		uintptr_t *fp = (uintptr_t *)__builtin_frame_address(0);
		for(int i = 0; i < 10 && fp; i++){
			t.pc[i] = (void *)fp[1];
			uintptr_t *nx = (uintptr_t *)fp[0];
			if(nx <= fp || (uintptr_t)nx - (uintptr_t)fp > 65536) break;
			fp = nx;
		}
		traces->resize(blocks->size());
		traces->back() = t;
	}
	return p;
}
void *alloc(size_t n)
{
	if(failall || (failcount >= 0 && failcount-- == 0)){
		failfired = true;
		if(failsticky) failall = true;
		fault("allocation_failure");
		return nullptr;
	}
	uintptr_t p = rawAlloc(n, K_LIB);
	if(!p) return nullptr;
	nalloc++;
	nlive++;
	return (void *)p;
}
int zoneOf(const void *p)
{
	uintptr_t u = (uintptr_t)p;
	if(u < BASE || u >= BASE + NZONE * ZSTRIDE) return -1;
	uintptr_t o = (u - BASE) % ZSTRIDE;
	return o > 4096 && o < SIZE ? (int)((u - BASE) / ZSTRIDE) : -1;
}
static bool inArena(const void *p) { return zoneOf(p) >= 0; }
bool owns(const void *p) { return inArena(p); }
bool liveBlock(const void *p) { return inArena(p) && !((uintptr_t)p & 15) && magicOf((uintptr_t)p) == MAGIC_LIVE && kindOf((uintptr_t)p) == K_LIB; }
size_t sizeOf(const void *p) { return sizeOf_((uintptr_t)p); }
static std::string frames(const Trace &t)
{
	std::string o;
	for(int i = 1; i < 9 && t.pc[i]; i++){
		o += (i > 1 ? " < " : "") + pcRef(t.pc[i]);
	}
	return o;
}
std::string describe(const void *addr)
{
	if(!inArena(addr)) return "not a simulated-allocator address";
	uintptr_t a = (uintptr_t)addr;
	if(zoneOf(addr) > 0 && zoneOf(addr) != zoneNow()) return sprintf_("memory of thread %d", zoneOf(addr) - 1);
	// nearest block at or below, else above
	std::string best;
	uint64_t bd = ~0ull;
	for(auto p : *blocks){
		uint64_t n = sizeOf_(p), d;
		if(a >= p && a < p + (n ? n : 1)) d = 0;
		else if(a >= p) d = a - (p + n) + 1;
		else d = p - a;
		if(d < bd){
			bd = d;
			best = sprintf_("%s %s block #%" PRIu64 " of %" PRIu64 " bytes, offset %" PRId64, magicOf(p) == MAGIC_LIVE ? "live" : "freed",
				kindOf(p) == K_LIB ? "library" : "caller", idOf(p), n, (int64_t)(a - p));
			if((g_debug || g_symbolize) && idOf(p) <= traces->size()) best += " allocated at " + frames((*traces)[idOf(p) - 1]);
		}
	}
	return best;
}
static void checkFree(void *p, const char *fn)
{
	if(fiber::current() >= 0 && zoneOf(p) > 0 && zoneOf(p) != fiber::current() + 1) failv("memory:another thread's block released", "%s(%p): thread %d releases memory of thread %d", fn, p, fiber::current(), zoneOf(p) - 1);
	if(!inArena(p) || ((uintptr_t)p & 15) || (magicOf((uintptr_t)p) != MAGIC_LIVE && magicOf((uintptr_t)p) != MAGIC_FREE)){
		failv("memory:release of a pointer that is not a block", "%s(%p): %s", fn, p, describe(p).c_str());
	}
	if(magicOf((uintptr_t)p) == MAGIC_FREE) failv("memory:block released twice", "%s(%p): %s", fn, p, describe(p).c_str());
	if(kindOf((uintptr_t)p) != K_LIB) failv("memory:release of the caller's memory", "%s(%p): %s", fn, p, describe(p).c_str());
}
static void drop(uintptr_t p)
{
	uint64_t cap = capOf(p);
	setMagic(p, MAGIC_FREE);
	if(!(pol.reuse && pol.fill == F_STALE)){
		__asan_unpoison_memory_region((void *)p, cap);
		memset((void *)p, 0xdd, cap);
	}
	__asan_poison_memory_region((void *)p, cap);
	if(pol.reuse) (*freelist)[cap].push_back(p);
	nlive--;
}
void release(void *p)
{
	if(!p) return;
	checkFree(p, "free");
	drop((uintptr_t)p);
}
void *resize(void *p, size_t n)
{
	if(!p) return alloc(n);
	checkFree(p, "realloc");
	uintptr_t u = (uintptr_t)p;
	if(failall || (failcount >= 0 && failcount-- == 0)){
		failfired = true;
		if(failsticky) failall = true;
		fault("allocation_failure");
		return nullptr;
	}
	nalloc++;
	if(!n && pol.inplace){                          // what glibc does; elsewhere a block is returned
		drop(u);
		fault("realloc_to_nothing_releases");
		return nullptr;
	}
	if(pol.inplace && n && n <= capOf(u)){
		uint64_t old = sizeOf_(u);
		__asan_unpoison_memory_region(p, capOf(u));
		if(n > old) fillFresh(u + old, n - old, true);
		if(capOf(u) > n) __asan_poison_memory_region((char *)p + n, capOf(u) - n);
		setSize(u, n);
		fault("realloc_in_place");
		return p;
	}
	uintptr_t q = rawAlloc(n, K_LIB);
	if(!q) return nullptr;
	nlive++;
	uint64_t old = sizeOf_(u);
	memcpy((void *)q, p, std::min<uint64_t>(old, n));
	drop(u);
	fault("realloc_moved");
	return (void *)q;
}
static uint64_t ncaller;
char *callerBuf(size_t n) { ncaller++; return (char *)rawAlloc(n, K_CALLER); }
char *callerBytes(const void *src, size_t n)
{
	char *b = callerBuf(n);
	memcpy(b, src, n);
	return b;
}
void callerFree(void *p)
{
	if(!p) return;
	setMagic((uintptr_t)p, MAGIC_FREE);
	__asan_poison_memory_region(p, capOf((uintptr_t)p));
}
void install() { osc_set_mem(alloc, release, resize); }
uint64_t live() { return nlive; }
uint64_t count() { return nalloc; }
Mark mark() { return Mark{blocks->size()}; }
uint64_t liveSince(Mark m)
{
	uint64_t n = 0;
	for(uint64_t i = m.id; i < blocks->size(); i++){
		uintptr_t p = (*blocks)[i];
		if(kindOf(p) == K_LIB && magicOf(p) == MAGIC_LIVE && idOf(p) == i + 1) n++;
	}
	return n;
}
void checkNoLeaks(Mark m, const char *what)
{
	std::string d;
	uint64_t n = 0;
	for(uint64_t i = m.id; i < blocks->size(); i++){
		uintptr_t p = (*blocks)[i];
		if(kindOf(p) != K_LIB || magicOf(p) != MAGIC_LIVE || idOf(p) != i + 1) continue;
		if(n++ < 8){
			d += sprintf_(" #%" PRIu64 "(%" PRIu64 " bytes)", i + 1, sizeOf_(p));
			if(g_debug || g_symbolize) d += " allocated at " + (i < traces->size() ? frames((*traces)[i]) : std::string("?")) + ";";
		}
	}
	if(n) failv("leak", "%s: %" PRIu64 " block(s) never released:%s", what, n, d.c_str());
}
void *allocSurely(size_t n)
{
	int64_t c = failcount;
	bool a = failall;
	failcount = -1;
	failall = false;
	void *p = alloc(n);
	failcount = c;
	failall = a;
	return p;
}
void failNth(int64_t n, bool sticky) { failcount = n; failfired = false; failsticky = sticky; if(n < 0) failall = false; }
bool failFired() { return failfired; }
void failAlways(bool b) { failall = b; failfired = false; }
#undef top
#undef pol
#undef frng
#undef nalloc
#undef nlive
#undef freelist
#undef blocks
}

// ---------------------------------------------------------------- clock
namespace simclock {
struct Clock { int64_t sec = 1700000000, usec = 0; };
static PerThread<Clock> clk;         // simulated threads are nodes of their own: each has its clock
void set(int64_t s, int64_t u) { clk().sec = s; clk().usec = u; }
}

// ---------------------------------------------------------------- coverage, step budget, fibers
static uint64_t g_edges, g_budget;
uint64_t edgesNow() { return g_edges; }
void stepBudget(uint64_t n) { if(fiber::current() < 0) g_budget = n ? g_edges + n : 0; }
namespace fiber { void onEdge(); void onLoad(const void *); void onStore(const void *); extern int cur; }
}

using namespace sim;
extern "C" {
// library (objcopy-redirected) raw allocation and clock entry points
void *sim_raw_malloc(size_t n) { return arena::alloc(n); }
void *sim_raw_calloc(size_t a, size_t b)
{
	void *p = arena::alloc(a * b);
	if(p) memset(p, 0, a * b);
	return p;
}
void *sim_raw_realloc(void *p, size_t n) { return arena::resize(p, n); }
void sim_raw_free(void *p) { arena::release(p); }
char *sim_raw_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p = (char *)arena::alloc(n);
	if(p) memcpy(p, s, n);
	return p;
}
char *sim_raw_strndup(const char *s, size_t m)
{
	size_t n = strnlen(s, m);
	char *p = (char *)arena::alloc(n + 1);
	if(p){ memcpy(p, s, n); p[n] = 0; }
	return p;
}
int sim_gettimeofday(struct timeval *tv, void *tz)
{
	if(tv){ tv->tv_sec = simclock::clk().sec; tv->tv_usec = simclock::clk().usec; }
	return 0;
}
time_t sim_time(time_t *t)
{
	if(t) *t = simclock::clk().sec;
	return simclock::clk().sec;
}
// the C library's Bessel functions take time proportional to the order, which an expression chooses: a run must end
double sim_jn(int n, double x) { return jn(n < -100000 ? -100000 : n > 100000 ? 100000 : n, x); }
double sim_yn(int n, double x) { return yn(n < -100000 ? -100000 : n > 100000 ? 100000 : n, x); }
int sim_clock_gettime(clockid_t, struct timespec *ts)
{
	ts->tv_sec = simclock::clk().sec;
	ts->tv_nsec = simclock::clk().usec * 1000;
	return 0;
}
clock_t sim_clock(void) { return (clock_t)(simclock::clk().sec * 1000000 + simclock::clk().usec); }
struct RandState { uint64_t v = 12345; };
static PerThread<RandState> simrand_;
#define simrand simrand_().v
long sim_random(void) { simrand = mix64(simrand); return (long)(simrand & 0x7fffffff); }
void sim_srandom(unsigned s) { simrand = s; }
void sim_srand(unsigned s) { simrand = s; }
char *sim_raw_strdup2(const char *s) { return sim_raw_strdup(s); }
int sim_rand(void) { return (int)sim_random(); }

extern char __executable_start;
__attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop)
{
	static uint32_t n = 0;
	if(start == stop || *start) return;
	for(uint32_t *x = start; x < stop; x++) *x = ++n;
}
__attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc_guard(uint32_t *guard)
{
	g_edges++;
	if(g_sh){ uint32_t g = *guard & (EDGEMAX - 1); if(!g_sh->edges[g]){ g_sh->edges[g] = 1; g_sh->edgepc[g] = (uint32_t)((char *)__builtin_return_address(0) - &__executable_start); } }
	if(g_budget && g_edges > g_budget){
		g_budget = 0;
		failv("no progress", "the call did not finish within its step budget");
	}
	if(fiber::cur >= 0) fiber::onEdge();
}
#define MEMCB(n, t) \
	__attribute__((no_sanitize("address"))) void __sanitizer_cov_load##n(t *p) { if(fiber::cur >= 0) fiber::onLoad(p); } \
	__attribute__((no_sanitize("address"))) void __sanitizer_cov_store##n(t *p) { if(fiber::cur >= 0) fiber::onStore(p); }
MEMCB(1, uint8_t)
MEMCB(2, uint16_t)
MEMCB(4, uint32_t)
MEMCB(8, uint64_t)
MEMCB(16, __int128)

static std::string *g_report;
static void onReport(const char *r)
{
	if(!g_slot || !r) return;
	const char *e = strstr(r, "AddressSanitizer: ");
	std::string kind = "crash";
	if(e){
		e += strlen("AddressSanitizer: ");
		size_t n = strcspn(e, " \n:");
		kind.assign(e, n);
		if(kind == "attempting") kind = "bad-free";
	}
	void *addr = __asan_get_report_address();
	std::string det, cls = kind;
	if(arena::owns(addr)){
		det = arena::describe(addr);
		if(kind == "use-after-poison" || kind == "unknown-crash"){
			if(det.find("freed") == 0) cls = "access to a released block";
			else if(det.find("caller") != std::string::npos) cls = "access outside the caller's buffer";
			else cls = "access outside a block";
		}
	}
	std::string st = strstr(r, "WRITE of size") ? "write" : strstr(r, "READ of size") ? "read" : "";
	std::string sym;
	if(g_symbolize || g_debug) sym = " in " + pcRef((void *)__asan_get_report_pc());
	std::string d = kind + " " + st + sym + " address: " + det;
	g_slot->pc = (uint64_t)__asan_get_report_pc();
	finishSlot(ST_VIOLATION, ("memory:" + cls).c_str(), d.c_str());
}
const char *__asan_default_options()
{
	return "detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:exitcode=77:handle_abort=1:"
	       "handle_sigfpe=1:abort_on_error=0:print_summary=0:max_redzone=64:quarantine_size_mb=0:thread_local_quarantine_size_kb=0:malloc_context_size=0:symbolize=0:print_legend=0:"
	       "detect_odr_violation=0:check_initialization_order=0:intercept_strlen=1:strict_string_checks=0";
}
}

namespace sim {
extern "C" int sim_error_handler(void *, const char *const str)
{
	g_errors.push_back(str ? str : "");
	return 0;
}

// ---------------------------------------------------------------- child execution
static void onAlarm(int)
{
	finishSlot(ST_VIOLATION, "no progress", "the run did not finish in the time limit");
	rawExit(1);
}
// what a worker can do once for all the runs it forks
static bool prepared;
void prepareRuns()
{
	if(prepared) return;
	prepared = true;
	__asan_set_error_report_callback(onReport);
	if(!g_debug){
		int n = open("/dev/null", O_WRONLY);
		if(n >= 0){ dup2(n, 1); dup2(n, 2); }
	}else{
		// keep library chatter away from the protocol lines
		dup2(2, 1);
	}
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	setenv("TZ", "UTC", 1);
	tzset();
}
static void childSetup()
{
	prepareRuns();
	// backstop for loops the step budget cannot see; processor time, so a stalled machine cannot trip it
	signal(SIGPROF, onAlarm);
	struct itimerval it;
	memset(&it, 0, sizeof it);
	it.it_value.tv_sec = 15;
	setitimer(ITIMER_PROF, &it, nullptr);
	stepBudget(400000000);
}
void childMain(const Plan &p, const Scenario &s)
{
	childSetup();
	arena::setPolicy(arena::policyFrom(p));
	arena::install();
	osc_error_setHandler(sim_error_handler);
	Ctx ctx;
	g_ctx = &ctx;
	s.run(p, ctx);
	for(auto &f : l_faults) ctx.logf("fault %s %" PRIu64, f.first, f.second);
	g_slot->trace = ctx.h;
	g_slot->nontriv = ctx.nontriv;
	g_slot->opi = ctx.opi;
	g_slot->edges = g_edges;
	flushCounters();
	__atomic_store_n(&g_slot->state, ST_OK, __ATOMIC_RELEASE);
	rawExit(0);
}
void runPlan(const Plan &p, const Scenario &s, Slot *slot)
{
	memset(slot, 0, sizeof *slot);
	pid_t pid = rawFork();
	if(pid == 0){
		g_slot = slot;
		childMain(p, s);
		rawExit(0);
	}
	if(pid < 0){ slot->state = ST_ERROR; strcpy(slot->sig, "fork failed"); return; }
	int st;
	while(waitpid(pid, &st, 0) < 0 && errno == EINTR);
	if(slot->state == ST_NONE){
		if(WIFSIGNALED(st)){
			slot->state = WTERMSIG(st) == SIGKILL ? ST_ERROR : ST_VIOLATION;
			snprintf(slot->sig, sizeof slot->sig, "crash:signal %d", WTERMSIG(st));
		}else{
			slot->state = ST_VIOLATION;
			snprintf(slot->sig, sizeof slot->sig, "crash:exit %d", WEXITSTATUS(st));
		}
	}
}
bool forkRun(const std::function<std::string()> &f, std::string &out, std::string &sig, std::string &detail)
{
	Slot *slot = (Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	int fd[2];
	if(pipe(fd)) rawExit(2);
	fflush(nullptr);
	pid_t pid = rawFork();
	if(pid == 0){
		close(fd[0]);
		g_slot = slot;
		l_faults.clear();
		l_probes.clear();
		struct itimerval it;
		memset(&it, 0, sizeof it);
		it.it_value.tv_sec = 15;
		setitimer(ITIMER_PROF, &it, nullptr);
		std::string r = f();
		size_t o = 0;
		while(o < r.size()){
			ssize_t w = write(fd[1], r.data() + o, r.size() - o);
			if(w <= 0) rawExit(3);
			o += w;
		}
		flushCounters();
		slot->edges = g_edges;
		__atomic_store_n(&slot->state, ST_OK, __ATOMIC_RELEASE);
		rawExit(0);
	}
	close(fd[1]);
	out.clear();
	char buf[65536];
	ssize_t n;
	while((n = read(fd[0], buf, sizeof buf)) > 0 || (n < 0 && errno == EINTR)) if(n > 0) out.append(buf, n);
	close(fd[0]);
	int st;
	while(waitpid(pid, &st, 0) < 0 && errno == EINTR);
	bool ok = slot->state == ST_OK;
	if(!ok){
		sig = slot->state == ST_VIOLATION ? slot->sig : sprintf_("crash:status %d", st);
		detail = slot->detail;
	}
	if(g_slot) g_slot->ops += slot->ops;
	munmap(slot, sizeof(Slot));
	return ok;
}
}
