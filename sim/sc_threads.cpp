// L14: threads that use separate objects. Each history first runs alone; then all run as simulated threads
// that can be preempted at every edge and memory access of the library, and each must log what it logged alone.
#include "om.h"
#include "world.h"
#include "shared.h"
#include <algorithm>
#include <map>
using namespace sim;
namespace {
const std::vector<int> workloads = {0, 0, 0, 1, 2, 3, 4, 4, 5, 6, 7, 8, 8, 8, 9, 9, 9, 11, 11, 12, 12, 12, 12, 13, 13, 13, 13, 14, 15, 15};
std::string key(int t, const std::string &k) { return (k.compare(0, 4, "mode") ? "t" : "mode_t") + std::to_string(t) + "_" + k; }
void gen(Rng &r, Plan &p, int tier)
{
	int n = r.chance(1, 4) ? 3 + (int)r.below(arena::NZONE - 3) : 2;
	p.cfg["mode_threads"] = n;
	std::vector<int> which = workloads;
	// threads that do the same kind of thing meet in the same code
	if(r.chance(1, 3)) which = {r.pick(workloads)};
	else if(r.chance(1, 2)) which = {(int)r.below(16)};
	if(which.size() == 1 && which[0] == 10) which = {0};
	Plan first;
	size_t cap = tier ? 40 : 14;
	for(int t = 0; t < n; t++){
		Plan q;
		q.prop = p.prop;
		q.seed = p.seed;
		if(t && r.chance(1, 4)) q = first;               // the very same history on objects of its own
		else{
			om::g_noBulk = true;
			world::genSub(r, q, 0, which);
			om::g_noBulk = false;
		}
		if(t == 0) first = q;
		if(q.ops.size() > cap) q.ops.resize(cap);
		for(auto &x : q.cfg) p.cfg[key(t, x.first)] = x.second;
		for(auto &o : q.ops){ Op x = o; x.k = std::to_string(t) + "/" + o.k; p.ops.push_back(x); }
	}
	// the schedule
	int style = (int)r.below(5);
	int m = style == 0 ? (int)r.range(1, 4) : style == 1 ? (int)r.range(10, 60) : (int)r.range(20, tier ? 600 : 250);
	for(int i = 0; i < m; i++){
		int k = fiber::STEPS;
		if((style == 3 && r.chance(1, 2)) || (style == 4 && r.chance(9, 10))) k = r.chance(1, 2) ? fiber::STATIC_STORE : fiber::STATIC_LOAD;
		int64_t e;
		if(k != fiber::STEPS) e = r.range(1, r.chance(1, 3) ? 30 : 3);
		else switch(style){
		case 0: e = r.range(1, 10000); break;             // a share of what the thread takes alone
		case 1: e = r.range(1, 20000); break;
		default: e = (int64_t)1 << r.below(13); e += r.below(e); break;
		}
		p.op("sw", {k, e, (int64_t)r.below(8), style == 0});
	}
}
struct Thread { Plan p; std::string alone; uint64_t steps = 0, stores = 0; std::map<uint64_t, std::vector<uint64_t>> sites; };
std::string joined(const std::vector<std::string> &rec)
{
	std::string t;
	for(auto &l : rec) t += l + "\n";
	for(auto &l : g_errors) t += "error: " + l + "\n";
	return t;
}
void body(const Plan &p, std::string &out)
{
	arena::setPolicy(arena::policyFrom(p));
	Ctx *outer = g_ctx;
	Ctx c;
	std::vector<std::string> rec;
	c.rec = &rec;
	g_ctx = &c;
	g_errors.clear();
	arena::Mark m = arena::mark();
	world::runSub(p, c);
	arena::checkNoLeaks(m, "after the thread released everything it owned");
	out = joined(rec);
	g_ctx = outer;
}
void compare(const Thread &h, const std::string &b, int t, int n, const char *with)
{
	const std::string &a = h.alone;
	if(a == b) return;
	size_t i = 0, ln = 0, st = 0;
	while(i < a.size() && i < b.size() && a[i] == b[i]){ if(a[i] == '\n'){ ln++; st = i + 1; } i++; }
	failv("interference", "thread %d of %d (%s), line %zu of its outcome: alone '%.300s', %s '%.300s'", t, n, world::subName(h.p.C("mode_sub")), ln,
		a.substr(st, a.find('\n', st) - st).c_str(), with, b.substr(st, b.find('\n', st) - st).c_str());
}
// A history that writes to the library's static data: it is stopped right after one such write, another thread
// runs from beginning to end, and it goes on. What is kept there for good reason does not show.
void hunt(const std::vector<Thread> &T, const Plan &p)
{
	int n = (int)T.size();
	for(int t = 0; t < n; t++){
		if(!T[t].stores) continue;
		// every place that is written in turn, with a thread that writes there as well (if only itself)
		std::vector<std::pair<uint64_t, int>> stops;
		for(size_t round = 0; round < 6 && stops.size() < 16; round++){
			size_t was = stops.size(), skip = T[t].sites.size() > 16 ? mix64(p.seed + t) % T[t].sites.size() : 0;
			std::vector<std::pair<uint64_t, int>> more;
			for(auto &s : T[t].sites){
				if(round >= s.second.size()) continue;
				std::vector<int> with;
				for(int k = 1; k < n; k++) if(T[(t + k) % n].sites.count(s.first)) with.push_back((t + k) % n);
				with.push_back(t);
				uint64_t h = mix64(p.seed ^ (s.first * 8 + round) ^ ((uint64_t)t << 50));
				more.push_back({s.second[(round + h) % s.second.size()], with[(h >> 20) % with.size()]});
			}
			if(!more.empty()) std::rotate(more.begin(), more.begin() + skip % more.size(), more.end());
			for(auto &x : more) if(stops.size() < 16 && std::find(stops.begin(), stops.end(), x) == stops.end()) stops.push_back(x);
			if(stops.size() == was) break;
		}
		for(auto &stop : stops){
			uint64_t at = stop.first;
			const Thread &o = T[stop.second];
			std::string out, sig, det;
			bool ok = forkRun([&] {
				std::string a, b;
				stepBudget(20 * (T[t].steps + o.steps) + 10000000);
				fiber::run({[&] { body(T[t].p, a); }, [&] { body(o.p, b); }}, {{fiber::STATIC_STORE, at, 0}, {fiber::STEPS, 1ull << 60, 1}});
				stepBudget(0);
				compare(T[t], a, 0, 2, "stopped after it wrote to static data while another ran");
				compare(o, b, 1, 2, "while another was stopped after it wrote to static data");
				return std::string();
			}, out, sig, det);
			fault("thread_stopped_after_writing_static_data");
			if(!ok) failv(sig.c_str(), "%s", det.c_str());
		}
	}
}
void run(const Plan &p, Ctx &c)
{
	int n = (int)((uint64_t)p.C("mode_threads", 2) % arena::NZONE);
	if(n < 1) return;
	std::vector<Thread> T(n);
	std::vector<fiber::Switch> sched;
	for(int t = 0; t < n; t++){
		T[t].p.prop = p.prop;
		T[t].p.seed = p.seed;
		for(auto &x : p.cfg){
			std::string a = "t" + std::to_string(t) + "_", b = "mode_" + a;
			if(!x.first.compare(0, a.size(), a)) T[t].p.cfg[x.first.substr(a.size())] = x.second;
			if(!x.first.compare(0, b.size(), b)) T[t].p.cfg[x.first.substr(b.size())] = x.second;
		}
	}
	for(auto &o : p.ops){
		if(o.k == "sw") continue;
		size_t s = o.k.find('/');
		int t = s == std::string::npos ? -1 : atoi(o.k.c_str());
		if(t < 0 || t >= n) continue;
		Op x = o;
		x.k = o.k.substr(s + 1);
		T[t].p.ops.push_back(x);
	}
	bool docs = false;
	for(int t = 0; t < n; t++){
		int64_t k = T[t].p.C("mode_sub", 0);
		docs |= world::isDocs(k);
		std::string out, sig, det;
		bool ok = forkRun([&] {
			std::string r;
			fiber::watchBegin();
			fiber::run({[&] { body(T[t].p, r); }}, {});
			std::string w = fiber::watchEnd();
			return sprintf_("%" PRIu64 " %" PRIu64 " ", fiber::steps(0), fiber::staticStores(0)) + w + "\n" + fiber::storeSites() + "\n" + r;
		}, out, sig, det);
		if(!ok){ probe("a history that fails alone"); return; }   // its own property's business
		size_t e = out.find('\n');
		char *q;
		T[t].steps = strtoull(out.c_str(), &q, 10);
		T[t].stores = strtoull(q, &q, 10);
		fiber::watch(std::string(q, out.c_str() + e - q));
		size_t e2 = out.find('\n', e + 1);
		for(char *x = &out[e + 1]; x < &out[e2];){
			uint64_t g = strtoull(x, &x, 16);
			while(*x == ',') T[t].sites[g].push_back(strtoull(x + 1, &x, 10));
			if(*x == ' ') x++;
			else break;
		}
		T[t].alone = out.substr(e2 + 1);
		probe(world::subName(k));
	}
	uint64_t total = 0;
	for(auto &t : T) total += t.steps;
	for(auto &o : p.ops) if(o.k == "sw"){
		fiber::Switch s{(int)((uint64_t)o.A(0) % 3), (uint64_t)o.A(1) & 0xffffff, (int)((uint64_t)o.A(2) % 64)};
		if(o.A(3) && s.kind == fiber::STEPS) s.n = s.n * (total / n) / 10000;
		if(s.kind != fiber::STEPS && !fiber::watching()) s = {fiber::STEPS, s.n * 37, s.to};
		sched.push_back(s);
	}
	uint64_t docsBlocks = 0;
	if(docs){
		std::string out, sig, det;
		if(!forkRun([&] { arena::Mark m = arena::mark(); world::warm(); return std::to_string(arena::liveSince(m)); }, out, sig, det)) return;
		docsBlocks = strtoull(out.c_str(), nullptr, 10);
	}
	arena::Mark m0 = arena::mark();
	std::vector<std::string> got(n);
	std::vector<std::function<void()>> bodies;
	for(int t = 0; t < n; t++) bodies.push_back([&, t] { body(T[t].p, got[t]); });
	stepBudget(20 * total + 10000000);
	fiber::run(bodies, sched);
	stepBudget(0);
	for(int t = 0; t < n; t++){
		c.log(got[t]);
		compare(T[t], got[t], t, n, "with the others");
	}
	if(docs){
		world::warm();
		uint64_t k = arena::liveSince(m0);
		if(k != docsBlocks) failv("leak", "the tables the library keeps take %" PRIu64 " blocks after the threads used them, %" PRIu64 " otherwise", k, docsBlocks);
	}
	hunt(T, p);
	c.logf("%" PRIu64 " switches, interleaving %" PRIx64, fiber::switches(), fiber::interleaving());
	stateHash(fiber::interleaving());
	if(fiber::switches() > 0) c.nontrivial();
}
Reg reg(Scenario{"L14", gen, run, 4000, 200000,
	"at least one thread was preempted inside the library and every thread's outcome was compared with what it gets alone; a state is a distinct sequence of preemption points",
	"every source file of the library, compiled from /repo with a preemption point at every basic block and memory access",
	"threads are simulated: one runs at a time and a seeded schedule decides where each is preempted; the allocator gives each thread memory of its own",
	"memory is sequentially consistent and single accesses are indivisible; compiled expression objects (compile()) and the handlers installed with osc_set_mem and osc_error_setHandler are process-wide by design and left out"});
}
