// Search, confirmation, minimisation, replay and evidence.
#include "shared.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <cinttypes>
#include <algorithm>
#include <set>
#include <fstream>
#include <sstream>
#include <dirent.h>
#include <time.h>
using namespace sim;

static std::string g_root = ".";
static double wall()
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}
template <class T> static T *shm(size_t n = 1)
{
	void *p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(p == MAP_FAILED){ fprintf(stderr, "mmap failed\n"); exit(2); }
	return (T *)p;
}
static std::string slurp(const std::string &p)
{
	std::ifstream f(p, std::ios::binary);
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}

// ---------------------------------------------------------------- known findings
struct Known { std::string prop, tag, replay, sig, text; };
static std::vector<Known> g_known;
namespace sim {
bool avoid(const char *tag)
{
	for(auto &k : g_known) if(k.tag == tag) return true;
	return false;
}
}
// line: KNOWN-FINDING: property=<id> tag=<tag> replay=<file> sig=<text with _ for space> | <what fails>
static void loadKnown()
{
	std::ifstream f(g_root + "/known_findings.txt");
	std::string l;
	while(std::getline(f, l)){
		if(l.compare(0, 14, "KNOWN-FINDING:")) continue;
		Known k;
		size_t bar = l.find(" | ");
		k.text = bar == std::string::npos ? "" : l.substr(bar + 3);
		std::istringstream is(l.substr(14, bar == std::string::npos ? bar : bar - 14));
		std::string w;
		while(is >> w){
			size_t e = w.find('=');
			if(e == std::string::npos) continue;
			std::string key = w.substr(0, e), v = w.substr(e + 1);
			if(key == "property") k.prop = v;
			if(key == "tag") k.tag = v;
			if(key == "replay") k.replay = v;
			if(key == "sig"){ for(auto &c : v) if(c == '_') c = ' '; k.sig = v; }
		}
		g_known.push_back(k);
	}
}

static Plan makePlan(const Scenario &s, uint64_t seed, int tier)
{
	Plan p;
	p.prop = s.prop;
	p.seed = seed;
	Rng r(seed ^ fnv(s.prop, strlen(s.prop)));
	s.gen(r, p, tier);
	return p;
}
static std::string cls(const char *sig) { return sig; }

static bool fails(const Plan &p, const Scenario &s, Slot *slot, const std::string &sig)
{
	runPlan(p, s, slot);
	return slot->state == ST_VIOLATION && cls(slot->sig) == sig;
}
static Plan minimise(Plan p, const Scenario &s, const std::string &sig, double deadline, int &trials)
{
	Slot *slot = shm<Slot>();
	auto T = [&](const Plan &q) { trials++; return fails(q, s, slot, sig); };
	bool changed = true;
	int rounds = 0;
	while(changed && rounds++ < 6 && wall() < deadline){
		changed = false;
		// operations: ddmin
		size_t n = 2;
		while(p.ops.size() >= 1 && wall() < deadline){
			size_t len = p.ops.size(), chunk = std::max<size_t>(1, (len + n - 1) / n);
			bool red = false;
			for(size_t st = 0; st < len && wall() < deadline; st += chunk){
				Plan q = p;
				q.ops.erase(q.ops.begin() + st, q.ops.begin() + std::min(len, st + chunk));
				if(T(q)){ p = q; red = true; changed = true; break; }
			}
			if(red){ n = std::max<size_t>(2, n - 1); continue; }
			if(chunk == 1) break;
			n = std::min(n * 2, len);
		}
		// configuration
		for(auto &c : std::map<std::string, int64_t>(p.cfg)){
			if(wall() > deadline) break;
			if(c.first.compare(0, 4, "mode") == 0) continue;
			for(int64_t v : {(int64_t)0, c.second / 2}){
				if(v == p.cfg[c.first]) continue;
				Plan q = p;
				q.cfg[c.first] = v;
				if(T(q)){ p = q; changed = true; break; }
			}
		}
		// arguments and strings
		for(size_t i = 0; i < p.ops.size() && wall() < deadline; i++){
			for(size_t j = 0; j < p.ops[i].a.size(); j++){
				int64_t v = p.ops[i].a[j];
				for(int64_t w : {(int64_t)0, (int64_t)1, v / 2, v > 0 ? v - 1 : v + 1}){
					if(wall() > deadline) break;
					if(w == v || (w > v && v > 0) || (v == 0)) continue;
					if(v == 1 && w == 1) continue;
					Plan q = p;
					q.ops[i].a[j] = w;
					if(T(q)){ p = q; changed = true; break; }
				}
			}
			std::string &str = p.ops[i].s;
			for(size_t step = str.size() / 2; step >= 1 && wall() < deadline; step /= 2){
				for(size_t o = 0; o + step <= p.ops[i].s.size() && wall() < deadline;){
					Plan q = p;
					q.ops[i].s.erase(o, step);
					if(T(q)){ p = q; changed = true; } else o += step;
				}
			}
		}
	}
	munmap(slot, sizeof(Slot));
	return p;
}

struct WorkerOut {
	uint64_t runs, nontrivial, ops, simtime, edges, recheck, mismatch, errors;
	volatile uint64_t failIndex;   // ~0 none
	char failsig[160];
};

static std::string jesc(const std::string &s)
{
	std::string o;
	for(unsigned char c : s){
		if(c == '"' || c == '\\'){ o += '\\'; o += c; }
		else if(c == '\n') o += "\\n";
		else if(c < 32 || c > 126) o += sprintf_("\\u%04x", c);
		else o += c;
	}
	return o;
}

static int cmdCheck(const std::string &prop, int tier, uint64_t seed)
{
	const Scenario *s = findScenario(prop);
	if(!s){ fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
	double t0 = wall();
	uint64_t total = tier ? s->thorough_runs : s->quick_runs;
	double cap = tier ? 3000 : 240;
	if(getenv("SIM_RUNS")) total = strtoull(getenv("SIM_RUNS"), 0, 10);
	if(getenv("SIM_WALL")) cap = atof(getenv("SIM_WALL"));
	g_sh = shm<Shared>();
	Slot *slot = shm<Slot>();
	uint64_t base = mix64(seed * 0x9e3779b97f4a7c15ull + fnv(prop.data(), prop.size()));
	int known = 0;
	uint64_t corpusRuns = 0;
	std::string vSig, vDetail;
	Plan vPlan;
	bool violation = false;
	uint64_t vRunNo = 0;
	bool errored = false;

	// known findings: print those that still fail
	for(auto &k : g_known){
		if(k.prop != prop) continue;
		Plan p;
		if(!Plan::parse(slurp(g_root + "/" + k.replay), p)){ fprintf(stderr, "bad replay %s\n", k.replay.c_str()); return 2; }
		runPlan(p, *s, slot);
		if(slot->state == ST_VIOLATION){
			if(cls(slot->sig) == k.sig){
				printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.text.c_str());
				known++;
			}else if(!violation){
				violation = true;
				vSig = slot->sig;
				vPlan = p;
			}
		}
	}
	// regression corpus: plans that once exposed a defect
	{
		std::string dir = g_root + "/corpus/" + prop;
		std::vector<std::string> files;
		if(DIR *d = opendir(dir.c_str())){
			while(struct dirent *e = readdir(d)) if(e->d_name[0] != '.') files.push_back(e->d_name);
			closedir(d);
		}
		std::sort(files.begin(), files.end());
		for(auto &f : files){
			Plan p;
			if(!Plan::parse(slurp(dir + "/" + f), p)) continue;
			runPlan(p, *s, slot);
			corpusRuns++;
			if(slot->state == ST_VIOLATION && !violation){
				violation = true;
				vSig = slot->sig;
				vPlan = p;
			}
		}
	}
	int W = 8;
	if(getenv("SIM_WORKERS")) W = atoi(getenv("SIM_WORKERS"));
	WorkerOut *wo = shm<WorkerOut>(W);
	uint64_t searchRuns = 0;
	if(!violation){
		std::vector<pid_t> pids;
		for(int w = 0; w < W; w++){
			wo[w].failIndex = ~0ull;
			fflush(nullptr);
			pid_t pid = fork();
			if(pid == 0){
				Slot *sl = shm<Slot>();
				prepareRuns();
				for(uint64_t i = w; i < total; i += W){
					if(g_sh->stop || wall() - t0 > cap) break;
					Plan p = makePlan(*s, base + i, tier);
					double t1 = wall();
					runPlan(p, *s, sl);
					if(getenv("SIM_VERBOSE") && wall() - t1 > 3) fprintf(stderr, "run %" PRIu64 " took %.1f s\n", i, wall() - t1);
					if(sl->state == ST_ERROR){ wo[w].errors++; continue; }
					wo[w].runs++;
					wo[w].ops += sl->ops;
					wo[w].simtime += sl->simtime;
					wo[w].edges += sl->edges;
					if(bitsetInsert(g_sh->traces, mix64(sl->trace)) && sl->nontriv){
						if(bitsetInsert(g_sh->plans, mix64(p.hash()))) __atomic_fetch_add(&g_sh->nplans, 1, __ATOMIC_RELAXED);
					}
					if(sl->nontriv) wo[w].nontrivial++;
					if(sl->state == ST_VIOLATION){
						snprintf(wo[w].failsig, sizeof wo[w].failsig, "%s", sl->sig);
						wo[w].failIndex = i;
						g_sh->stop = 1;
						break;
					}
					if(i % 64 == (uint64_t)(w % 64)){
						uint64_t tr = sl->trace;
						runPlan(p, *s, sl);
						wo[w].recheck++;
						if(sl->state != ST_OK || sl->trace != tr){ wo[w].mismatch++; if(getenv("SIM_VERBOSE")) fprintf(stderr, "nondeterministic seed index %" PRIu64 " state %d %s\n", i, (int)sl->state, sl->sig); }
					}
				}
				_exit(0);
			}
			pids.push_back(pid);
		}
		for(auto p : pids){ int st; while(waitpid(p, &st, 0) < 0 && errno == EINTR); }
	}
	WorkerOut tot;
	memset(&tot, 0, sizeof tot);
	uint64_t best = ~0ull;
	for(int w = 0; w < W; w++){
		tot.runs += wo[w].runs; tot.nontrivial += wo[w].nontrivial; tot.ops += wo[w].ops; tot.simtime += wo[w].simtime;
		tot.edges += wo[w].edges; tot.recheck += wo[w].recheck; tot.mismatch += wo[w].mismatch; tot.errors += wo[w].errors;
		if(wo[w].failIndex < best) best = wo[w].failIndex;
	}
	searchRuns = tot.runs;
	if(!violation && best != ~0ull){
		Plan p = makePlan(*s, base + best, tier);
		runPlan(p, *s, slot);
		if(slot->state == ST_VIOLATION){ violation = true; vSig = slot->sig; vPlan = p; vRunNo = best; }
		else {
			errored = true;
			for(int w = 0; w < W; w++) if(wo[w].failIndex == best) fprintf(stderr, "run %" PRIu64 " failed once (%s) and passed on replay: nondeterminism in the simulator\n", best, wo[w].failsig);
		}
	}
	std::string replayPath;
	int trials = 0;
	if(violation){
		// confirm twice in fresh processes
		bool c1 = fails(vPlan, *s, slot, vSig), c2 = fails(vPlan, *s, slot, vSig);
		if(!c1 || !c2){ errored = true; violation = false; fprintf(stderr, "violation '%s' does not replay\n", vSig.c_str()); }
		else{
			size_t before = vPlan.ops.size();
			Plan m = minimise(vPlan, *s, vSig, wall() + (getenv("SIM_MIN") ? atof(getenv("SIM_MIN")) : tier ? 120 : 40), trials);
			g_symbolize = true;
			runPlan(m, *s, slot);
			std::string det = resolvePcs(slot->detail);
			g_symbolize = false;
			mkdir((g_root + "/replays").c_str(), 0755);
			replayPath = "replays/" + prop + "-" + sprintf_("%016" PRIx64, m.hash()) + ".replay";
			std::ofstream f(g_root + "/" + replayPath);
			f << "# violation of " << prop << "\n# class: " << vSig << "\n# detail: " << esc(det) << "\n# found at run " << vRunNo << " of VERIF_SEED " << seed
			  << "; minimised from " << before << " to " << m.ops.size() << " operations in " << trials << " trials\n# replay: ./check " << prop << " replay <this file>\n"
			  << m.text();
			f.close();
			printf("violation class: %s\n", vSig.c_str());
			printf("detail: %s\n", esc(det).c_str());
			printf("minimised schedule (%zu operations, from %zu):\n%s", m.ops.size(), before, m.text().c_str());
			printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replayPath.c_str());
		}
	}
	if(tot.mismatch){ errored = true; fprintf(stderr, "%" PRIu64 " of %" PRIu64 " re-executed runs diverged\n", tot.mismatch, tot.recheck); }
	double dt = wall() - t0;
	uint64_t nedges = 0;
	for(int i = 0; i < EDGEMAX; i++) nedges += g_sh->edges[i];
	if(const char *f = getenv("SIM_EDGEPCS")){
		std::ofstream e(f);
		for(int i = 0; i < EDGEMAX; i++) if(g_sh->edges[i]) e << sprintf_("0x%x\n", g_sh->edgepc[i] - 1);
	}
	// evidence
	mkdir((g_root + "/evidence").c_str(), 0755);
	{
		std::ofstream e(g_root + "/evidence/" + prop + ".json");
		e << "{\n \"property\": \"" << prop << "\",\n \"tier\": \"" << (tier ? "thorough" : "quick") << "\",\n \"seed\": " << (seed & 0x7fffffff) << ",\n \"level\": \"exploration\",\n";
		e << " \"coverage\": {\n  \"evaluations\": " << searchRuns + corpusRuns << ",\n  \"distinct_nontrivial\": " << g_sh->nplans << ",\n  \"rule\": \"" << jesc(std::string("each run is one plan drawn from one seed; counted when its plan and its event-log hash are new and ") + s->rule) << "\",\n";
		e << "  \"samples\": [";
		uint64_t nsamp = 3;
		for(uint64_t i = 0; i < nsamp; i++){
			Plan p = makePlan(*s, base + i * 7, tier);
			std::string t = p.text();
			if(t.size() > 1500) t = t.substr(0, 1500) + "...";
			e << (i ? ",\n   \"" : "\n   \"") << jesc(t) << "\"";
		}
		e << "],\n";
		e << "  \"runs_per_hour\": " << (uint64_t)(searchRuns / std::max(dt, 0.001) * 3600) << ",\n  \"seeds_per_hour\": " << (uint64_t)(searchRuns / std::max(dt, 0.001) * 3600) << ",\n";
		e << "  \"operations\": " << tot.ops << ",\n  \"library_basic_blocks_executed\": " << tot.edges << ",\n  \"simulated_time_s\": " << sprintf_("%.6f", tot.simtime / 1e6) << ",\n";
		e << "  \"faults_injected\": {";
		bool first = true;
		for(int i = 0; i < MAXCOUNTERS; i++) if(g_sh->faults[i].state == 2){ e << (first ? "" : ", ") << "\"" << jesc(g_sh->faults[i].name) << "\": " << g_sh->faults[i].n; first = false; }
		e << "},\n  \"probes\": {";
		first = true;
		for(int i = 0; i < MAXCOUNTERS; i++) if(g_sh->probes[i].state == 2){ e << (first ? "" : ", ") << "\"" << jesc(g_sh->probes[i].name) << "\": " << g_sh->probes[i].n; first = false; }
		e << "},\n";
		e << "  \"distinct_states\": " << g_sh->nstates << ",\n  \"distinct_states_measure\": \"hashes of the abstract state after each operation, in a 2^27-bit set\",\n";
		e << "  \"library_edges_reached\": " << nedges << ",\n  \"determinism_rechecks\": " << tot.recheck << ",\n  \"determinism_mismatches\": " << tot.mismatch << ",\n";
		e << "  \"regression_plans_replayed\": " << corpusRuns << ",\n  \"known_findings_replayed\": " << known << ",\n";
		e << "  \"components_real\": \"" << jesc(s->real_parts) << "\",\n  \"components_simulated\": \"" << jesc(s->stub_parts) << "\"\n },\n";
		e << " \"assumptions\": [\"" << jesc(s->assumptions) << "\"],\n \"wall_s\": " << sprintf_("%.2f", dt) << ",\n \"violations\": " << (violation ? 1 : 0) << "\n}\n";
	}
	printf("%s %s: %" PRIu64 " runs (%" PRIu64 " distinct non-trivial), %" PRIu64 " operations, %" PRIu64 " states, %" PRIu64 " library edges, %.1f s%s\n", prop.c_str(), tier ? "thorough" : "quick",
		searchRuns, g_sh->nplans, tot.ops, g_sh->nstates, nedges, dt, tot.errors ? " (some runs could not start)" : "");
	if(violation) return 1;
	if(errored || (searchRuns == 0 && !violation)) return 2;
	return 0;
}

// survey P n: run n seeds to the end and tally every distinct violation
static int cmdSurvey(const std::string &prop, uint64_t total, uint64_t seed)
{
	const Scenario *s = findScenario(prop);
	if(!s) return 2;
	g_sh = shm<Shared>();
	uint64_t base = mix64(seed * 0x9e3779b97f4a7c15ull + fnv(prop.data(), prop.size()));
	struct Ent { char key[200]; uint64_t n, first; };
	const int W = 8, M = 64;
	Ent *tab = shm<Ent>(W * M);
	double t0 = wall();
	for(int w = 0; w < W; w++){
		fflush(nullptr);
		if(fork()) continue;
		Slot *sl = shm<Slot>();
		for(uint64_t i = w; i < total; i += W){
			Plan p = makePlan(*s, base + i, 0);
			runPlan(p, *s, sl);
			if(sl->state == ST_OK) continue;
			std::string key = sl->pc ? sprintf_("%s @%" PRIx64, sl->sig, sl->pc) : sl->sig;
			for(int k = 0; k < M; k++){
				Ent &e = tab[w * M + k];
				if(!e.n){ snprintf(e.key, sizeof e.key, "%s", key.c_str()); e.first = i; }
				if(key == e.key){ e.n++; break; }
			}
		}
		_exit(0);
	}
	while(wait(nullptr) > 0);
	std::map<std::string, Ent> all;
	for(int i = 0; i < W * M; i++) if(tab[i].n){
		auto it = all.find(tab[i].key);
		if(it == all.end()) all[tab[i].key] = tab[i];
		else { it->second.n += tab[i].n; it->second.first = std::min(it->second.first, tab[i].first); }
	}
	printf("%" PRIu64 " runs in %.1f s, %zu distinct violations, %" PRIu64 " states\n", total, wall() - t0, all.size(), g_sh->nstates);
	Slot *slot = shm<Slot>();
	std::vector<std::pair<uint64_t, Ent>> v;
	for(auto &a : all) v.push_back({a.second.n, a.second});
	std::sort(v.begin(), v.end(), [](auto &a, auto &b){ return a.first > b.first; });
	for(auto &e : v){
		Plan p = makePlan(*s, base + e.second.first, 0);
		runPlan(p, *s, slot);
		int trials = 0;
		if(slot->state == ST_VIOLATION) p = minimise(p, *s, slot->sig, wall() + 6, trials);
		g_symbolize = true;
		runPlan(p, *s, slot);
		g_symbolize = false;
		printf("\n%" PRIu64 " x %s (first run %" PRIu64 ")\n  %s\n%s", e.first, e.second.key, e.second.first, resolvePcs(slot->detail).c_str(), p.text().c_str());
	}
	for(int i = 0; i < MAXCOUNTERS; i++) if(g_sh->faults[i].state == 2) printf("fault %s %" PRIu64 "\n", g_sh->faults[i].name, g_sh->faults[i].n);
	for(int i = 0; i < MAXCOUNTERS; i++) if(g_sh->probes[i].state == 2) printf("probe %s %" PRIu64 "\n", g_sh->probes[i].name, g_sh->probes[i].n);
	return 0;
}

static int cmdReplay(const std::string &file, bool verbose)
{
	Plan p;
	if(!Plan::parse(slurp(file), p)){ fprintf(stderr, "cannot parse %s\n", file.c_str()); return 2; }
	const Scenario *s = findScenario(p.prop);
	if(!s) return 2;
	g_sh = shm<Shared>();
	Slot *slot = shm<Slot>();
	g_symbolize = true;
	if(verbose) g_debug = 2;
	runPlan(p, *s, slot);
	if(slot->state == ST_VIOLATION){
		printf("violation class: %s\ndetail: %s\nat operation %" PRIu64 "\nVIOLATION property=%s replay=%s\n", slot->sig, esc(resolvePcs(slot->detail)).c_str(), slot->opi, p.prop.c_str(), file.c_str());
		return 1;
	}
	printf("replay of %s: property %s held (trace %016" PRIx64 ")\n", file.c_str(), p.prop.c_str(), slot->trace);
	return slot->state == ST_OK ? 0 : 2;
}

int main(int argc, char **argv)
{
	// Same addresses every time, where the sandbox allows it; nothing depends on it (the arena is at a fixed address).
	if(!getenv("SIM_NOASLR")){
		int pers = personality(0xffffffff);
		if(pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1){
			setenv("SIM_NOASLR", "1", 1);
			execv("/proc/self/exe", argv);
		}
	}
	setenv("TZ", "UTC", 1);
	if(getenv("SIM_ROOT")) g_root = getenv("SIM_ROOT");
	arena::init();
	loadKnown();
	std::string cmd = argc > 1 ? argv[1] : "";
	const char *es = getenv("VERIF_SEED");
	uint64_t seed = es ? strtoull(es, 0, 10) : 1;
	if(cmd == "check" && argc > 3) return cmdCheck(argv[2], !strcmp(argv[3], "thorough"), seed);
	if(cmd == "survey" && argc > 3) return cmdSurvey(argv[2], strtoull(argv[3], 0, 10), seed);
	if(cmd == "replay" && argc > 2) return cmdReplay(argv[2], argc > 3);
	if(cmd == "plan" && argc > 3){   // print the plan of run N
		const Scenario *s = findScenario(argv[2]);
		if(!s) return 2;
		uint64_t base = mix64(seed * 0x9e3779b97f4a7c15ull + fnv(argv[2], strlen(argv[2])));
		printf("%s", makePlan(*s, base + strtoull(argv[3], 0, 10), 0).text().c_str());
		return 0;
	}
	if(cmd == "list"){ for(auto s : allScenarios()) printf("%s\n", s->prop); return 0; }
	fprintf(stderr, "usage: sim check <property> quick|thorough | replay <file> [v] | plan <property> <n> | list\n");
	return 2;
}
