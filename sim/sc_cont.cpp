// L11: hash tables, linked lists and arrays against a map, a sequence and a vector.
#include "om.h"
#include <set>
#include <algorithm>
extern "C" {
#include "osc_hashtab.h"
#include "osc_linkedlist.h"
}
using namespace sim;
using namespace om;
namespace {
struct Rec { int id; int live; };
struct Globals {
	std::map<void *, std::string> keys;      // live key blocks
	std::map<void *, int> vals;              // live value blocks
	std::vector<std::pair<std::string, int>> dtor;
	int next = 0;
};
PerThread<Globals> globals;
#define g_keys (globals().keys)
#define g_vals (globals().vals)
#define g_dtor (globals().dtor)
#define g_next (globals().next)

char *mkKey(const std::string &k) { char *p = arena::callerBytes(k.c_str(), k.size() + 1); g_keys[p] = k; return p; }
void *mkVal() { char *p = arena::callerBuf(8); g_vals[p] = ++g_next; return p; }
void dropKey(void *k)
{
	if(!g_keys.erase(k)) failv("dtor:twice", "destructor given a key that is not stored");
	arena::callerFree(k);
}
int dropVal(void *v)
{
	auto it = g_vals.find(v);
	if(it == g_vals.end()) failv("dtor:twice", "destructor given a value that was already discarded");
	int id = it->second;
	g_vals.erase(it);
	arena::callerFree(v);
	return id;
}
void htDtor(char *key, void *val)
{
	auto k = g_keys.find(key);
	if(k == g_keys.end()) failv("dtor:twice", "destructor given a key that is not stored");
	std::string ks = k->second;
	dropKey(key);
	int id = dropVal(val);
	g_dtor.push_back({ks, id});
}
void llDtor(void *v) { g_dtor.push_back({"", dropVal(v)}); }
void llCopy(void **out, void *v) { auto it = g_vals.find(v); if(it == g_vals.end()) failv("clone", "clone handed over something not in the list"); int id = it->second; *out = mkVal(); g_vals[*out] = id; }

struct Entry { char *key; void *val; int id; };
struct HT { t_osc_hashtab *h = nullptr; bool dtor = false; std::map<std::string, Entry> m; };
struct LL { t_osc_linkedlist *l = nullptr; bool dtor = false; std::vector<void *> v; };
struct AR { t_osc_array *a = nullptr; size_t sz = 4; std::vector<std::string> v; };

void each(char *key, void *val, void *ctx) { ((std::vector<std::pair<std::string, int>> *)ctx)->push_back({key, g_vals.count(val) ? g_vals[val] : -1}); }
struct It { std::vector<void *> v; int ends = 0; int next = 0; };
void iter(void *ctx, int i, void *d)
{
	It *t = (It *)ctx;
	if(i < 0){ t->ends++; return; }
	if(i != t->next || t->ends) failv("iterate", "iteration index %d, expected %d", i, t->next);
	t->next++;
	t->v.push_back(d);
}
void expectDtor(std::vector<std::pair<std::string, int>> want)
{
	std::sort(want.begin(), want.end());
	std::sort(g_dtor.begin(), g_dtor.end());
	if(want != g_dtor) failv("dtor", "destructor ran for %zu elements, expected %zu", g_dtor.size(), want.size());
	g_dtor.clear();
}
void check(HT &t, const std::string &probeKey)
{
	std::vector<std::pair<std::string, int>> got, want;
	osc_hashtab_foreach(t.h, each, &got);
	for(auto &e : t.m) want.push_back({e.first, e.second.id});
	std::sort(got.begin(), got.end());
	std::sort(want.begin(), want.end());
	if(got != want) failv("foreach", "table holds %zu entries, expected %zu", got.size(), want.size());
	for(auto &e : t.m){
		size_t off = e.first.size() * 7 % 5;   // the caller's key may stand anywhere
		std::string padded = std::string(off, 'p') + e.first;
		char *k = arena::callerBytes(padded.c_str(), padded.size() + 1);
		void *v = osc_hashtab_lookup(t.h, (int)e.first.size(), k + off);
		arena::callerFree(k);
		if(v != e.second.val) failv("lookup", "lookup of %s finds %s", esc(e.first).c_str(), v ? "another value" : "nothing");
	}
	if(!t.m.count(probeKey)){
		char *k = arena::callerBytes(probeKey.c_str(), probeKey.size() + 1);
		if(osc_hashtab_lookup(t.h, (int)probeKey.size(), k)) failv("lookup", "lookup of the absent key %s finds something", esc(probeKey).c_str());
		arena::callerFree(k);
	}
}
// takes every element out of the list from inside the iteration over it
struct Drain { t_osc_linkedlist *l; std::vector<void *> v; int ends = 0; };
void drain(void *ctx, int i, void *v)
{
	Drain &d = *(Drain *)ctx;
	if(i < 0){ d.ends++; return; }
	if(i != (int)d.v.size()) failv("iterate", "element %d visited after %zu", i, d.v.size());
	d.v.push_back(v);
	if(osc_linkedlist_popHead(d.l) != v) failv("pop", "the element that is visited is not the head");
}
void check(LL &t)
{
	if(osc_linkedlist_getCount(t.l) != t.v.size()) failv("count", "list count %lu, expected %zu", osc_linkedlist_getCount(t.l), t.v.size());
	It it;
	osc_linkedlist_iterate(t.l, iter, &it);
	if(it.ends != 1) failv("iterate", "%d end-of-list calls", it.ends);
	if(it.v != t.v) failv("iterate", "iteration visits %zu elements out of order or other than the %zu expected", it.v.size(), t.v.size());
	if(osc_linkedlist_peekHead(t.l) != (t.v.empty() ? nullptr : t.v.front())) failv("peek", "wrong head");
	if(osc_linkedlist_peekTail(t.l) != (t.v.empty() ? nullptr : t.v.back())) failv("peek", "wrong tail");
	int n = (int)t.v.size();
	for(int k = 0; k < n + 2; k++) if(osc_linkedlist_peekNth(t.l, k) != (k < n ? t.v[k] : nullptr)) failv("peek", "wrong element at position %d of %d", k, n);
	for(int k = -2; k > -5; k--) if(osc_linkedlist_peekNth(t.l, k)) failv("peek", "position %d of %d has an element", k, n);
	if(n && osc_linkedlist_peekNth(t.l, -1) != t.v.back()) failv("peek", "position -1 is not the tail");
}
void check(AR &t)
{
	if(osc_array_getLen(t.a) != (long)t.v.size()) failv("arraylen", "array length %ld, expected %zu", osc_array_getLen(t.a), t.v.size());
	for(size_t k = 0; k < t.v.size(); k++){
		void *p = osc_array_get(t.a, (long)k);
		if(!p || memcmp(p, t.v[k].data(), t.sz)) failv("array", "array element %zu is wrong", k);
	}
	if(osc_array_get(t.a, (long)t.v.size()) || osc_array_get(t.a, -1)) failv("array", "element found outside the array");
}
std::string key(Rng &r)
{
	// pairs such as "b0" and "a@" have the same hash
	std::string s;
	int n = (int)r.range(1, 4);
	for(int i = 0; i < n; i++){
		char c = (char)r.range('a', 'd'), d = (char)r.range('0', '3');
		int k = (int)r.below(3);
		s += (char)(c - k);
		s += (char)(d + 16 * k);
	}
	if(r.chance(1, 8)) s += (char)r.range(128, 255);
	if(r.chance(1, 20)) s = "";
	if(r.chance(1, 30)) s = std::string(r.below(r.chance(1, 3) ? 2000 : 300), 'k') + s;    // keys that differ late
	return s;
}
const int NH = 2, NL = 3, NA = 3;
void gen(Rng &r, Plan &p, int tier)
{
	arena::genPolicy(r, p);
	for(int i = 0; i < NH; i++){ p.cfg["slots" + std::to_string(i)] = r.pick(std::vector<int64_t>{0, 1, 17, 5, 300}); p.cfg["dtor" + std::to_string(i)] = r.below(2); }
	for(int i = 0; i < NL; i++) p.cfg["ldtor" + std::to_string(i)] = r.below(2);
	std::vector<std::string> ks;
	int nk = (int)r.range(3, 40);
	bool many = r.chance(1, 60);
	if(many) nk = 900;
	for(int i = 0; i < nk; i++) ks.push_back(key(r));
	if(r.chance(1, 500)) p.cfg["slots0"] = r.range(150000, 160000);
	int n = (int)r.range(10, tier ? 150 : 70);
	if(many) for(int k = (int)r.range(60, 700); k > 0; k--) p.op("store", {0}, r.pick(ks));
	for(int i = 0; i < n; i++){
		switch(r.below(13)){
		case 0: case 1: case 2: p.op("store", {(int64_t)r.below(NH)}, r.pick(ks)); break;
		case 3: p.op("safe", {(int64_t)r.below(NH)}, r.pick(ks)); break;
		case 4: p.op("remove", {(int64_t)r.below(NH), r.range(0, 1), r.range(0, 3)}, r.pick(ks)); break;
		case 5: if(r.chance(1, 8)) p.op("hclear", {(int64_t)r.below(NH)}); else p.op("absent", {(int64_t)r.below(NH)}, key(r)); break;
		case 6: case 7: p.op("push", {(int64_t)r.below(NL), r.range(0, 1)}); break;
		case 8: case 9: p.op("pop", {(int64_t)r.below(NL), r.range(0, 2), r.range(-2, 12)}); break;
		case 10: if(r.chance(1, 3)) p.op(r.chance(1, 2) ? "clone" : r.chance(1, 2) ? "drain" : "lclear", {(int64_t)r.below(NL), (int64_t)r.below(NL)}); else p.op("push", {(int64_t)r.below(NL), 1}); break;
		case 11: p.op("resize", {(int64_t)r.below(NA), r.range(0, 20), r.range(0, 9), r.range(0, 255)}); break;
		default: p.op("acopy", {(int64_t)r.below(NA), (int64_t)r.below(NA), r.range(0, 2), r.range(0, 12)}); break;
		}
	}
}
void run(const Plan &p, Ctx &c)
{
	g_keys.clear(); g_vals.clear(); g_dtor.clear(); g_next = 0;
	HT ht[NH];
	LL ll[NL];
	AR ar[NA];
	for(int i = 0; i < NH; i++){
		ht[i].dtor = p.C(("dtor" + std::to_string(i)).c_str());
		int64_t s = p.C(("slots" + std::to_string(i)).c_str());
		ht[i].h = osc_hashtab_new((int)s, ht[i].dtor ? htDtor : nullptr);
		if(!ht[i].h) failv("new", "no table");
		if(s > 152286) probe("table larger than the largest prime");
	}
	for(int i = 0; i < NL; i++){ ll[i].dtor = p.C(("ldtor" + std::to_string(i)).c_str()); ll[i].l = osc_linkedlist_new(ll[i].dtor ? llDtor : nullptr); }
	for(int i = 0; i < NA; i++){ ar[i].sz = i == 2 ? 12 : 4; ar[i].a = osc_array_allocWithSize(i, ar[i].sz); ar[i].v.assign(i, std::string(ar[i].sz, '\0')); }
	auto W = [](int64_t v, int n) { return (int)(((v % n) + n) % n); };
	auto drop = [](const Entry &e) { dropKey(e.key); dropVal(e.val); };
	size_t most = 0;
	for(size_t i = 0; i < p.ops.size(); i++){
		const Op &o = p.ops[i];
		c.at(i, o);
		std::string k = std::string(o.s.c_str());
		if(o.k == "store" || o.k == "safe"){
			HT &t = ht[W(o.A(0), NH)];
			char *kp = mkKey(k);
			void *vp = mkVal();
			int id = g_next;
			auto it = t.m.find(k);
			if(o.k == "store"){
				osc_hashtab_store(t.h, (int)k.size(), kp, vp);
				if(it != t.m.end()){
					probe("entry overwritten");
					if(t.dtor) expectDtor({{k, it->second.id}});
					else{ expectDtor({}); drop(it->second); }
				}else expectDtor({});
				t.m[k] = Entry{kp, vp, id};
			}else{
				osc_hashtab_storeSafe(t.h, (int)k.size(), kp, vp);
				expectDtor({});
				if(it != t.m.end()){ dropKey(kp); dropVal(vp); probe("safe store refused"); }
				else t.m[k] = Entry{kp, vp, id};
			}
			check(t, k);
			most = std::max(most, t.m.size());
			if(t.m.size() > 17) probe("more entries than slots");
		}else if(o.k == "remove"){
			HT &t = ht[W(o.A(0), NH)];
			auto it = t.m.find(k);
			Entry e{nullptr, nullptr, 0};
			if(it != t.m.end()) e = it->second;
			bool own = o.A(2) == 0 && e.key;       // the stored key itself is passed
			char *kp = own ? e.key : arena::callerBytes(k.c_str(), k.size() + 1);
			osc_hashtab_remove(t.h, (int)k.size(), kp, o.A(1) ? htDtor : nullptr);
			if(!own) arena::callerFree(kp);
			if(e.key){
				if(o.A(1)) expectDtor({{k, e.id}});
				else{ expectDtor({}); drop(e); }
				t.m.erase(k);
				probe("entry removed");
			}else expectDtor({});
			check(t, k);
		}else if(o.k == "hclear"){
			HT &t = ht[W(o.A(0), NH)];
			std::vector<std::pair<std::string, int>> w;
			for(auto &e : t.m) w.push_back({e.first, e.second.id});
			osc_hashtab_clear(t.h);
			if(t.dtor) expectDtor(w);
			else{ expectDtor({}); for(auto &e : t.m) drop(e.second); }
			t.m.clear();
			check(t, k);
		}else if(o.k == "absent"){
			check(ht[W(o.A(0), NH)], k);
		}else if(o.k == "push"){
			LL &t = ll[W(o.A(0), NL)];
			void *v = mkVal();
			if(o.A(1)){ osc_linkedlist_append(t.l, v); t.v.push_back(v); }
			else{ osc_linkedlist_prepend(t.l, v); t.v.insert(t.v.begin(), v); }
			check(t);
		}else if(o.k == "pop"){
			LL &t = ll[W(o.A(0), NL)];
			void *v;
			int n = (int)t.v.size(), at;
			switch(W(o.A(1), 3)){
			case 0: v = osc_linkedlist_popHead(t.l); at = n ? 0 : -1; break;
			case 1: v = osc_linkedlist_popTail(t.l); at = n - 1; break;
			default: {
				int64_t k2 = o.A(2);
				if(k2 < -5 || k2 > 1000) continue;
				v = osc_linkedlist_popNth(t.l, (int)k2);
				at = k2 == -1 ? n - 1 : k2 >= 0 && k2 < n ? (int)k2 : -1;
				if(at > 0 && at < n - 1) probe("popped from the middle");
			}
			}
			if(v != (at < 0 ? nullptr : t.v[at])) failv("pop", "popped the wrong element");
			expectDtor({});
			if(at >= 0){ t.v.erase(t.v.begin() + at); dropVal(v); }
			check(t);
		}else if(o.k == "lclear"){
			LL &t = ll[W(o.A(0), NL)];
			std::vector<std::pair<std::string, int>> w;
			for(void *v : t.v) w.push_back({"", g_vals[v]});
			osc_linkedlist_clear(t.l);
			if(t.dtor) expectDtor(w);
			else{ expectDtor({}); for(void *v : t.v) dropVal(v); }
			t.v.clear();
			check(t);
		}else if(o.k == "drain"){
			LL &t = ll[W(o.A(0), NL)];
			Drain d{t.l};
			osc_linkedlist_iterate(t.l, drain, &d);
			if(d.v != t.v || d.ends != 1) failv("iterate", "an iteration that empties the list visits %zu of %zu elements", d.v.size(), t.v.size());
			expectDtor({});
			for(void *v : t.v) dropVal(v);
			t.v.clear();
			check(t);
		}else if(o.k == "clone"){
			LL &t = ll[W(o.A(0), NL)], &d = ll[W(o.A(1), NL)];
			if(&t == &d || t.v.size() > 40) continue;
			t_osc_linkedlist *q = osc_linkedlist_clone(t.l, llCopy);
			if(!d.dtor) for(void *v : d.v) dropVal(v);
			osc_linkedlist_destroy(d.l);
			g_dtor.clear();
			d.l = q;
			d.dtor = t.dtor;
			d.v.clear();
			It it;
			osc_linkedlist_iterate(q, iter, &it);
			if(it.v.size() != t.v.size()) failv("clone", "clone holds %zu elements of %zu", it.v.size(), t.v.size());
			for(size_t j = 0; j < it.v.size(); j++){
				if(it.v[j] == t.v[j] || g_vals[it.v[j]] != g_vals[t.v[j]]) failv("clone", "clone shares or reorders element %zu", j);
				d.v.push_back(it.v[j]);
			}
			check(d);
			check(t);
		}else if(o.k == "resize"){
			AR &t = ar[W(o.A(0), NA)];
			int64_t n = o.A(1);
			if(n < 0 || n > 200) continue;
			if(osc_array_resize(t.a, (int)n)) failv("resize", "resize refused");
			t.v.resize(n, std::string(t.sz, '\0'));
			if(n && o.A(2) >= 0){
				size_t at = (size_t)o.A(2) % n;
				memset(osc_array_get(t.a, (long)at), (int)o.A(3), t.sz);
				t.v[at] = std::string(t.sz, (char)o.A(3));
			}
			check(t);
		}else if(o.k == "acopy"){
			AR &t = ar[W(o.A(0), NA)], &d = ar[W(o.A(1), NA)];
			int64_t off = o.A(3);
			if(off < 0 || off > 50 || t.v.size() > 300) continue;
			if(o.A(2) == 0){
				t_osc_array *q = osc_array_copy(t.a);
				if(!q) failv("acopy", "no copy");
				if(&t != &d){ osc_array_free(d.a); d.a = q; d.sz = t.sz; d.v = t.v; }
				else{ AR tmp; tmp.a = q; tmp.sz = t.sz; tmp.v = t.v; check(tmp); osc_array_free(q); }
			}else if(o.A(2) == 1){
				if(&t == &d || d.sz != t.sz) continue;
				if(osc_array_copyInto(&d.a, t.a, (long)off)) failv("acopy", "copyInto refused");
				if(d.v.size() < off + t.v.size()){ d.v.resize(off + t.v.size(), std::string(d.sz, '\0')); probe("array grown by copyInto"); }
				for(size_t j = 0; j < t.v.size(); j++) d.v[off + j] = t.v[j];
			}else{
				osc_array_clear(t.a);
				for(auto &e : t.v) e = std::string(t.sz, '\0');
			}
			check(t);
			check(d);
		}else continue;
		std::string st;
		for(auto &t : ht){ for(auto &e : t.m) st += e.first + "="; st += ";"; }
		for(auto &t : ll) st += std::to_string(t.v.size()) + ",";
		for(auto &t : ar) for(auto &e : t.v) st += e;
		c.log(st);
		stateHash(fnv(st.data(), st.size()));
	}
	for(auto &t : ht){
		std::vector<std::pair<std::string, int>> w;
		for(auto &e : t.m) w.push_back({e.first, e.second.id});
		osc_hashtab_destroy(t.h);
		if(t.dtor) expectDtor(w);
		else{ expectDtor({}); for(auto &e : t.m) drop(e.second); }
	}
	for(auto &t : ll){
		std::vector<std::pair<std::string, int>> w;
		for(void *v : t.v) w.push_back({"", g_vals[v]});
		osc_linkedlist_destroy(t.l);
		if(t.dtor) expectDtor(w);
		else{ expectDtor({}); for(void *v : t.v) dropVal(v); }
	}
	for(auto &t : ar) osc_array_free(t.a);
	if(!g_keys.empty() || !g_vals.empty()) failv("dtor:never", "%zu keys and %zu values were never discarded", g_keys.size(), g_vals.size());
	if(most >= 5) c.nontrivial();
}
Reg reg(Scenario{"L11", gen, run, 30000, 600000,
	"a hash table held at least five entries",
	"osc_hashtab.c osc_linkedlist.c osc_array.c, compiled from /repo",
	"the allocator is simulated; destructors and element copiers are the harness's, which account for every element",
	"keys are NUL-terminated and their stated length is their string length; callbacks do not edit the container they are called from"});
}
