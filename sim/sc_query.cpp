// L09, L10: queries and dispatch against the reference pattern matcher and a model of the handler table.
#include "om.h"
#include <set>
#include <deque>
extern "C" {
#include "osc_query.h"
#include "osc_rset.h"
#include "osc_vtable.h"
#include "osc_match.h"
#include "osc_dispatch.h"
}
using namespace sim;
using namespace om;
namespace {
struct Part { std::vector<Msg> full, part; };
// where each message of b goes for one selector
Part split(const Bndl &b, const std::string &sel, bool strip)
{
	Part p;
	for(auto &m : b.m){
		size_t po = 0;
		int r = match(m.addr, sel, &po);
		if(r == 3) p.full.push_back(m);
		else if(r == 1 && po > 0){
			Msg q = m;
			if(strip) q.addr = m.addr.substr(po);
			p.part.push_back(q);
		}
	}
	return p;
}
std::vector<Msg> unmatched(const Bndl &b, const std::vector<std::string> &sels)
{
	std::vector<Msg> v;
	for(auto &m : b.m){
		bool any = false;
		for(auto &s : sels){ size_t po; int r = match(m.addr, s, &po); if(r == 3 || (r == 1 && po > 0)) any = true; }
		if(!any) v.push_back(m);
	}
	return v;
}
std::string show(const std::vector<Msg> &v) { std::string s = "["; for(auto &m : v) s += text(m) + "; "; return s + "]"; }
std::vector<Msg> got(t_osc_bndl_s *b, const char *what)
{
	Bndl d;
	if(!b || (!osc_bundle_s_getPtr(b) && !osc_bundle_s_getLen(b))) return {};
	std::string why;
	if(!fromBytes(osc_bundle_s_getLen(b), osc_bundle_s_getPtr(b), d, why)) failv("wellformed", "%s is not a well-formed bundle: %s", what, why.c_str());
	return d.m;
}
void same(const std::vector<Msg> &g, const std::vector<Msg> &w, const char *sig, const std::string &what)
{
	if(!(g == w)) failv(sig, "%s: got %s, expected %s", what.c_str(), show(g).c_str(), show(w).c_str());
}
// addresses with shared prefixes so that full, partial and no matches all happen
std::string relAddr(Rng &r)
{
	static const std::vector<std::string> c = {"a", "b", "foo", "bar", "fo", "ab", "x1"};
	std::string s;
	int n = (int)r.range(1, 3);
	for(int i = 0; i < n; i++) s += "/" + r.pick(c);
	return s;
}
std::string selector(Rng &r)
{
	std::string s = relAddr(r);
	if(r.chance(1, 8)) s = "/*" + s;
	else if(r.chance(1, 8)) s += "/*";
	return s;
}
Bndl relBndl(Rng &r)
{
	GenOpt o;
	o.maxArgs = 3;
	Bndl b;
	int n = (int)r.below(r.chance(1, 8) ? 12 : 6);
	if(r.chance(1, 50)) n = (int)r.range(12, 120);
	for(int i = 0; i < n; i++){
		if(n > 12) o.maxArgs = 1, o.nested = false;
		Msg m = genMsg(r, o);
		std::string a = relAddr(r);
		m.addr = r.chance(1, 3) ? genPattern(r, a) : r.chance(1, 12) ? genBadPattern(r, a) : a;
		if(r.chance(1, 10)) m.addr += "/" + std::string(r.below(60), 'z');
		b.m.push_back(m);
	}
	if(r.chance(1, 2)) b.tt = r.next();
	return b;
}
std::string join(const std::vector<std::string> &v) { std::string s; for(auto &x : v) s += x + std::string(1, '\n'); return s; }
bool okPath(const std::string &s);
std::vector<std::string> splitLines(const std::string &s)
{
	std::vector<std::string> v;
	std::set<std::string> seen;
	size_t i = 0;
	while(i < s.size()){
		size_t e = s.find('\n', i);
		if(e == std::string::npos) e = s.size();
		std::string x = s.substr(i, e - i);
		if(okPath(x) && x.find('\0') == std::string::npos && seen.insert(x).second) v.push_back(x);
		i = e + 1;
	}
	return v;
}
bool okPath(const std::string &s) { return s.size() > 1 && s[0] == '/' && s.back() != '/' && s.find("//") == std::string::npos; }
bool okAddrs(const Bndl &b) { for(auto &m : b.m) if(!okPath(m.addr)) return false; return true; }

// one address against one selector: the verdict, and how far each was matched
void checkMatch(const std::string &pat, const std::string &sel)
{
	size_t wp, wa;
	int want = match(pat, sel, &wp, &wa), po = -77, ao = -77;
	char *p = arena::callerBytes(pat.c_str(), pat.size() + 1), *s = arena::callerBytes(sel.c_str(), sel.size() + 1);
	int r = osc_match(p, s, &po, &ao);
	if(pat != p || sel != s) failv("source", "matching %s against %s changes them", esc(pat).c_str(), esc(sel).c_str());
	arena::callerFree(p);
	arena::callerFree(s);
	bool lead = pat[0] == '/' && sel[0] == '/';
	if(want){
		if(r != want) failv("match", "matching %s against %s gives %#x, not %d", esc(pat).c_str(), esc(sel).c_str(), r, want);
		if(po != (int)wp || ao != (int)wa) failv("offset", "matching %s against %s stops at %d and %d, not at %zu and %zu", esc(pat).c_str(), esc(sel).c_str(), po, ao, wp, wa);
		if(want != 3) probe("offsets of a partial match");
	}else{
		if(r & 3) failv("match", "matching %s against %s gives %#x", esc(pat).c_str(), esc(sel).c_str(), r);
		if(!lead && r != (pat[0] != '/' ? OSC_MATCH_ERROR_PATTERN_NO_LEADING_SLASH : OSC_MATCH_ERROR_ADDRESS_NO_LEADING_SLASH)) failv("match", "matching %s against %s gives %#x", esc(pat).c_str(), esc(sel).c_str(), r);
		if(r){
			probe("a match was refused");
			const char *t = osc_match_errstr((unsigned long)r), *ok = osc_match_errstr(0);
			if(!t || !*t || !ok || !strcmp(t, ok)) failv("errstr", "the error %#x of matching %s against %s is described as '%s'", r, esc(pat).c_str(), esc(sel).c_str(), t ? t : "nothing");
		}
	}
}
// ---------------------------------------------------------------- L10
void genQ(Rng &r, Plan &p, int tier)
{
	arena::genPolicy(r, p);
	int n = (int)r.range(2, tier ? 16 : 8);
	for(int i = 0; i < n; i++){
		std::vector<std::string> sel;
		std::set<std::string> seen;
		int k = (int)r.below(r.chance(1, 6) ? 12 : 5);
		bool very = r.chance(1, 25);
		if(very) k = (int)r.range(12, 70);
		for(int j = 0; j < k; j++){ std::string s = selector(r); if(very && r.chance(2, 3)) s += "/" + std::to_string(r.below(100)); if(seen.insert(s).second) sel.push_back(s); }
		p.op("selectors", {r.chance(1, 4)}, join(sel));
		p.op("query", {r.chance(1, 2), r.chance(1, 3)}, enc(relBndl(r)));
		if(r.chance(1, 3)) p.op("query", {r.chance(1, 2), 1}, enc(relBndl(r)));
	}
}
void runQ(const Plan &p, Ctx &c)
{
	std::vector<std::string> sels;
	std::vector<char *> sp;
	t_osc_rset *rs = NULL;
	std::map<std::string, Part> acc;
	std::vector<Msg> un;
	bool holes = false;
	auto drop = [&] { if(rs) osc_rset_free(rs); rs = NULL; acc.clear(); un.clear(); };
	for(size_t i = 0; i < p.ops.size(); i++){
		const Op &o = p.ops[i];
		c.at(i, o);
		if(o.k == "selectors"){
			drop();
			for(char *q : sp) if(q) arena::callerFree(q);
			sp.clear();
			sels = splitLines(o.s);
			holes = o.A(0) & 1;
			for(auto &s : sels) sp.push_back(arena::callerBytes(s.c_str(), s.size() + 1));
			if(holes) sp.insert(sp.begin() + sp.size() / 2, nullptr);      // absent selectors are skipped
		}else if(o.k == "query"){
			Bndl b;
			if(!unpackBndl(o.s, b, true) || !okAddrs(b)) continue;
			bool strip = o.A(0) & 1;
			for(auto &m : b.m) for(auto &s : sels){
				checkMatch(m.addr, s);
				if(o.A(1) & 1) checkMatch(m.addr.substr(1), s), checkMatch(m.addr, s.substr(1));
			}
			if(!(o.A(1) & 1)) drop();
			std::string w = enc(b);
			char *buf = arena::callerBytes(w.data(), w.size());
			std::vector<char *> arr(sp);
			t_osc_err e = osc_query_select((int)arr.size(), arr.data(), (int32_t)w.size(), buf, strip, &rs);
			if(e) failv("error", "query of a well-formed bundle returns %ld", (long)e);
			if(!rs) failv("error", "query returned no result set");
			if(std::string(buf, w.size()) != w) failv("source", "the queried bundle was changed");
			arena::callerFree(buf);
			for(auto &s : sels){
				Part q = split(b, s, strip);
				if(q.full.empty() && q.part.empty()) continue;
				Part &a = acc[s];
				a.full.insert(a.full.end(), q.full.begin(), q.full.end());
				a.part.insert(a.part.end(), q.part.begin(), q.part.end());
				if(!q.part.empty() && strip) probe("matched prefix removed");
				if(!q.full.empty() && !q.part.empty()) probe("one selector with full and partial matches");
			}
			std::vector<Msg> u = unmatched(b, sels);
			un.insert(un.end(), u.begin(), u.end());
			if(b.m.empty()) probe("empty bundle queried");
			// the result set
			same(got(osc_rset_getUnmatched(rs), "the unmatched set"), un, "unmatched", "unmatched messages");
			for(auto &s : sels){
				char *q = arena::callerBytes(s.c_str(), s.size() + 1);
				t_osc_rset_result *res = osc_rset_select(rs, q);
				arena::callerFree(q);
				auto it = acc.find(s);
				Part none, &want = it == acc.end() ? none : it->second;
				same(got(res ? osc_rset_result_getCompleteMatches(res) : NULL, "a complete set"), want.full, "complete", "complete matches of " + s);
				same(got(res ? osc_rset_result_getPartialMatches(res) : NULL, "a partial set"), want.part, "partial", "partial matches of " + s);
				if(res && it != acc.end() && osc_rset_result_getSelectorLen(res) != (int)s.size()) failv("selector", "selector %s has length %d", s.c_str(), osc_rset_result_getSelectorLen(res));
			}
			std::set<std::string> seen;
			osc_rset_initIterator(rs);
			while(osc_rset_hasNext(rs)){
				t_osc_rset_result *res = osc_rset_next(rs);
				if(!res) failv("iterate", "iteration yields nothing though more was announced");
				std::string s = osc_rset_result_getSelector(res);
				if(!seen.insert(s).second) failv("iterate", "iteration visits %s twice", s.c_str());
				bool any = osc_rset_result_getCompleteMatches(res) || osc_rset_result_getPartialMatches(res);
				if(any != !!acc.count(s)) failv("iterate", "iteration visits %s, which matched %s", s.c_str(), any ? "nothing" : "something");
			}
			if(osc_rset_next(rs)) failv("iterate", "iteration continues past its end");
			for(auto &a : acc) if(!seen.count(a.first)) failv("iterate", "iteration does not visit %s", a.first.c_str());
			if(!acc.empty()) c.nontrivial();
			c.log(show(un));
			for(auto &a : acc) c.log(a.first + show(a.second.full) + show(a.second.part));
			stateHash(mix64(acc.size() * 1000 + un.size() * 10 + strip) ^ fnv(o.s.data(), std::min<size_t>(o.s.size(), 200)));
		}
	}
	drop();
	for(char *q : sp) if(q) arena::callerFree(q);
}
Reg regQ(Scenario{"L10", genQ, runQ, 20000, 500000,
	"at least one selector matched a message and every set was compared with the reference",
	"osc_query.c osc_rset.c osc_match.c osc_hashtab.c osc_bundle_s.c osc_message_s.c compiled from /repo",
	"the allocator is simulated",
	"selectors are distinct; a message's address acts as the pattern and the selector as the address, as in the code; a lone * component of a selector accepts any component"});

// ---------------------------------------------------------------- L09
struct Ent { std::string sel; int method; int ctx; };
struct Frame {
	std::string bytes;
	std::map<std::string, std::pair<Part, std::pair<int, int>>> want;   // by selector: messages, binding when dispatch began
	std::map<std::string, int> called;
	std::vector<Msg> un;
	int delegated = 0;
	bool selectors = false;
};
struct World {
	t_osc_vtable *v = nullptr;
	std::vector<Ent> ents;
	std::deque<Frame> frames;
	std::vector<Op> acts;
	int calls = 0;
	bool delegate = false;
	Ctx *c = nullptr;
	bool strip = false;
};
PerThread<World *> W_;
#define W (W_())
struct CtxObj { int id; };
CtxObj ctxs[8] = {{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}};
void doAct();
Ent *find(const std::string &s) { for(auto &e : W->ents) if(e.sel == s) return &e; return nullptr; }
void handler(int method, t_osc_vtable_entry *e, long len, char *bndl, t_osc_bndl_s *pm, t_osc_bndl_s *cm, void *ctx)
{
	size_t fi = W->frames.size() - 1;
	if(W->frames.empty()) failv("spurious", "a handler was called outside any dispatch");
	std::string sel = osc_vtable_entry_getSelector(e);
	Ent *me = find(sel);
	if(!me) failv("entry", "a handler was called for the selector %s, which is not in the table", esc(sel).c_str());
	Frame *f = &W->frames[fi];
	if(std::string(bndl, len) != f->bytes) failv("source", "the handler for %s was not given the dispatched bundle", sel.c_str());
	auto pmv = got(pm, "a partial set"), cmv = got(cm, "a complete set");
	auto it = f->want.find(sel);
	if(it == f->want.end()){
		if(!pmv.empty() || !cmv.empty()) failv("spurious", "the handler for %s got messages though it should get none", sel.c_str());
		return;
	}
	f->called[sel]++;
	if(f->called[sel] > 1) failv("twice", "the handler for %s was called twice", sel.c_str());
	int id = ctx ? ((CtxObj *)ctx)->id : -1;
	auto old = it->second.second;
	if(!(method == me->method && id == me->ctx) && !(method == old.first && id == old.second)) failv("binding", "%s is bound to method %d context %d but method %d was called with context %d", sel.c_str(), me->method, me->ctx, method, id);
	same(cmv, it->second.first.full, "complete", "complete matches handed to " + sel);
	same(pmv, it->second.first.part, "partial", "partial matches handed to " + sel);
	W->c->logf("%s %d %d %zu %zu", sel.c_str(), method, id, cmv.size(), pmv.size());
	if(!cmv.empty() || !pmv.empty()) W->c->nontrivial();
	std::string pb = pm ? std::string(osc_bundle_s_getPtr(pm), osc_bundle_s_getLen(pm)) : "", cb = cm ? std::string(osc_bundle_s_getPtr(cm), osc_bundle_s_getLen(cm)) : "";
	doAct();
	if((pm && std::string(osc_bundle_s_getPtr(pm), osc_bundle_s_getLen(pm)) != pb) || (cm && std::string(osc_bundle_s_getPtr(cm), osc_bundle_s_getLen(cm)) != cb)) failv("reentrant", "the messages handed to %s changed while it changed the table or dispatched again", sel.c_str());
}
#define H(n) void h##n(t_osc_vtable_entry *e, long len, char *b, t_osc_bndl_s *p, t_osc_bndl_s *c, void *x) { handler(n, e, len, b, p, c, x); }
H(0) H(1) H(2) H(3)
t_osc_vtable_method methods[4] = {h0, h1, h2, h3};
void delegate(long len, char *bndl, t_osc_bndl_s *um, void *ctx)
{
	if(W->frames.empty()) failv("spurious", "the delegate was called outside any dispatch");
	Frame *f = &W->frames.back();
	if(ctx != (void *)W) failv("binding", "the delegate was given another context");
	if(std::string(bndl, len) != f->bytes) failv("source", "the delegate was not given the dispatched bundle");
	auto v = got(um, "the unmatched set");
	if(f->un.empty() && v.empty()) return;
	f->delegated++;
	if(f->delegated > 1) failv("twice", "the delegate was called twice");
	same(v, f->un, "unmatched", "messages handed to the delegate");
	W->c->logf("delegate %zu", v.size());
	doAct();
}
void checkTable()
{
	if(osc_vtable_getNumEntries(W->v) != (int)W->ents.size()) failv("table", "%d entries, expected %zu", osc_vtable_getNumEntries(W->v), W->ents.size());
	if(osc_vtable_getNumSlots(W->v) < (int)W->ents.size()) failv("table", "%d slots for %zu entries", osc_vtable_getNumSlots(W->v), W->ents.size());
	for(size_t k = 0; k < W->ents.size(); k++){
		Ent &e = W->ents[k];
		char *q = arena::callerBytes(e.sel.c_str(), e.sel.size() + 1);
		t_osc_vtable_entry *x = osc_vtable_getEntryBySelector(W->v, q);
		int ix = osc_vtable_getIndexForSelector(W->v, q);
		arena::callerFree(q);
		if(!x) failv("table", "the entry for %s cannot be found", e.sel.c_str());
		if(e.sel != osc_vtable_entry_getSelector(x)) failv("table", "looking up %s finds %s", e.sel.c_str(), esc(osc_vtable_entry_getSelector(x)).c_str());
		if(ix < 0 || osc_vtable_getEntryByIndex(W->v, ix) != x || osc_vtable_getIndexForEntry(W->v, x) != ix) failv("table", "index %d of %s does not lead back to its entry", ix, e.sel.c_str());
	}
	char none[] = "/not/there";
	if(osc_vtable_getEntryBySelector(W->v, none) || osc_vtable_getIndexForSelector(W->v, none) != -1) failv("table", "an absent selector is found");
	if(osc_vtable_getEntryByIndex(W->v, (int)W->ents.size())) failv("table", "an entry is found past the end");
}
bool okSel(const std::string &s) { return okPath(s) && s.size() < 200 && s.find('\0') == std::string::npos && s.find('\n') == std::string::npos && s != "/not/there"; }
void edit(const Op &o, bool inside)
{
	if(o.k == "add" || o.k == "actadd"){
		size_t b = o.k == "add" ? 0 : 1;
		int m = (int)((uint64_t)o.A(b) % 4), x = (int)((uint64_t)o.A(b + 1) % 8);
		if(!okSel(o.s) || W->ents.size() > 160) return;
		char *q = arena::callerBytes(o.s.c_str(), o.s.size() + 1);
		int before = osc_vtable_getNumSlots(W->v);
		t_osc_err e = osc_vtable_addEntry(W->v, q, methods[m], &ctxs[x]);
		arena::callerFree(q);
		if(e) failv("add", "adding %s fails with %ld", o.s.c_str(), (long)e);
		if(osc_vtable_getNumSlots(W->v) > before){ probe("handler table grew"); if(inside) probe("handler table grew during dispatch"); }
		if(Ent *n = find(o.s)) n->method = m, n->ctx = x;
		else W->ents.push_back({o.s, m, x});
	}else if(o.k == "rebind" || o.k == "actrebind"){
		size_t b = o.k == "rebind" ? 0 : 1;
		int m = (int)((uint64_t)o.A(b) % 4), x = (int)((uint64_t)o.A(b + 1) % 8);
		std::string s = o.s;
		if(W->ents.size() && o.A(b + 2) >= 0) s = W->ents[(size_t)o.A(b + 2) % W->ents.size()].sel;
		if(!okSel(s)) return;
		char *q = arena::callerBytes(s.c_str(), s.size() + 1);
		Ent *n = find(s);
		bool withCtx = o.A(b + 3) & 1;
		t_osc_err e = withCtx ? osc_vtable_rebindSelectorWithContext(W->v, q, methods[m], &ctxs[x]) : osc_vtable_rebindSelector(W->v, q, methods[m]);
		arena::callerFree(q);
		if(!e != !!n) failv("rebind", "rebinding %s returns %ld", s.c_str(), (long)e);
		if(n){ n->method = m; if(withCtx) n->ctx = x; }
	}else if(o.k == "rename" || o.k == "actrename"){
		size_t b = o.k == "rename" ? 0 : 1;
		for(auto &f : W->frames) if(inside || f.selectors) return;
		std::string s = "/nosuch";
		if(W->ents.size() && o.A(b) >= 0) s = W->ents[(size_t)o.A(b) % W->ents.size()].sel;
		if(!okSel(o.s) || (find(o.s) && o.s != s)) return;
		bool own = o.A(b + 1) & 1;
		char *q = arena::callerBytes(s.c_str(), s.size() + 1), *n = arena::callerBytes(o.s.c_str(), o.s.size() + 1);
		Ent *me = find(s);
		char *oldp = q;
		if(own && me){ t_osc_vtable_entry *x = osc_vtable_getEntryBySelector(W->v, q); if(x) oldp = osc_vtable_entry_getSelector(x); }
		t_osc_err e = osc_vtable_renameEntry(W->v, oldp, n);
		memset(n, '!', o.s.size());                // the caller reuses its strings
		memset(q, '!', s.size());
		arena::callerFree(q);
		arena::callerFree(n);
		if(!e != !!me) failv("rename", "renaming %s returns %ld", s.c_str(), (long)e);
		if(me) me->sel = o.s;
		if(o.s.size() < s.size()) probe("handler renamed to a shorter selector");
		else if(o.s.size() > s.size()) probe("handler renamed to a longer selector");
	}
}
// one handler is called by its selector, with sets chosen by the caller
void callOne(const Bndl &b, int64_t k, int64_t cut)
{
	std::string s = k < 0 || W->ents.empty() ? "/nobody/there" : W->ents[(size_t)k % W->ents.size()].sel;
	Ent *me = find(s);
	Frame f;
	f.bytes = enc(b);
	f.selectors = true;
	Part q;
	for(size_t i = 0; i < b.m.size(); i++) ((cut >> (i % 60)) & 1 ? q.full : q.part).push_back(b.m[i]);
	if(me) f.want[s] = {q, {me->method, me->ctx}};
	W->frames.push_back(f);
	Bndl bf, bp;
	bf.m = q.full;
	bp.m = q.part;
	std::string w = f.bytes, wf = enc(bf), wp = enc(bp);
	char *buf = arena::callerBytes(w.data(), w.size()), *cf = arena::callerBytes(wf.data(), wf.size()), *cp = arena::callerBytes(wp.data(), wp.size()), *sel = arena::callerBytes(s.c_str(), s.size() + 1);
	t_osc_bndl_s *pf = osc_bundle_s_alloc((long)wf.size(), cf), *pp = osc_bundle_s_alloc((long)wp.size(), cp);
	int r = osc_vtable_call(W->v, sel, (long)w.size(), buf, pp, pf);
	if(!r != !!me) failv("call", "calling the handler for %s returns %d", esc(s).c_str(), r);
	if(me && W->frames.back().called[s] != 1) failv("missed", "the handler for %s was not called", esc(s).c_str());
	if(std::string(buf, w.size()) != w) failv("source", "the bundle handed on was changed");
	osc_bundle_s_free(pf);
	osc_bundle_s_free(pp);
	for(char *x : {buf, cf, cp, sel}) arena::callerFree(x);
	W->frames.pop_back();
	if(me) probe("handler called by selector");
}
void dispatch(const Bndl &b, bool strip, bool some, uint64_t mask)
{
	Frame f;
	f.bytes = enc(b);
	f.selectors = some;
	std::vector<std::string> all, listed;
	for(auto &e : W->ents) all.push_back(e.sel);
	for(size_t k = 0; k < all.size(); k++) if(!some || (mask >> (k % 60)) & 1) listed.push_back(all[k]);
	for(auto &s : listed){
		Part q = split(b, s, strip);
		Ent *e = find(s);
		f.want[s] = {q, {e->method, e->ctx}};
	}
	f.un = unmatched(b, all);
	W->frames.push_back(f);
	size_t fi = W->frames.size() - 1;
	std::string w = f.bytes;
	char *buf = arena::callerBytes(w.data(), w.size());
	t_osc_err e;
	if(some){
		std::vector<std::string> l2 = listed;
		if(mask & 1) l2.push_back("/nobody/there");
		std::vector<char *> p;
		for(auto &s : l2) p.push_back(arena::callerBytes(s.c_str(), s.size() + 1));
		e = osc_dispatch_selectors(W->v, (int)p.size(), p.data(), (int32_t)w.size(), buf, strip);
		for(char *q : p) arena::callerFree(q);
	}else e = osc_dispatch(W->v, (int32_t)w.size(), buf, strip);
	if(e) failv("error", "dispatch of a well-formed bundle returns %ld", (long)e);
	if(std::string(buf, w.size()) != w) failv("source", "the dispatched bundle was changed");
	arena::callerFree(buf);
	if(W->frames.size() != fi + 1) failv("harness", "frames");
	Frame &g = W->frames.back();
	for(auto &x : g.want){
		const Part &q = x.second.first;
		if((!q.full.empty() || !q.part.empty()) && g.called[x.first] != 1) failv("missed", "the handler for %s was not called for its %zu complete and %zu partial matches", x.first.c_str(), q.full.size(), q.part.size());
	}
	if(W->delegate && !g.un.empty() && g.delegated != 1) failv("missed", "the delegate was not called for %zu unmatched messages", g.un.size());
	W->frames.pop_back();
}
void doAct()
{
	int k = W->calls++;
	for(auto &o : std::vector<Op>(W->acts)) if((o.A(0) % 12) == k){
		if(o.k == "actdispatch"){
			Bndl b;
			if(W->frames.size() < 3 && unpackBndl(o.s, b, true) && okAddrs(b)){
				probe("dispatch from inside a handler");
				dispatch(b, o.A(1) & 1, false, 0);
			}
		}else{
			probe("table edited from inside a handler");
			edit(o, true);
		}
	}
}
void genD(Rng &r, Plan &p, int tier)
{
	arena::genPolicy(r, p);
	p.cfg["slots"] = r.chance(1, 3) ? 0 : r.range(1, 6);
	p.cfg["delegate"] = !r.chance(1, 6);
	int n = (int)r.range(4, tier ? 50 : 24);
	auto idx = [&] { return r.chance(1, 10) ? -1 : r.range(0, 30); };
	if(r.chance(1, 25)) for(int k = (int)r.range(12, 140); k > 0; k--) p.op("add", {r.range(0, 3), r.range(0, 7)}, selector(r) + "/" + std::to_string(r.below(200)));
	for(int i = 0; i < n; i++){
		switch(r.below(8)){
		case 0: case 1: case 2: p.op("add", {r.range(0, 3), r.range(0, 7)}, selector(r)); break;
		case 3: p.op("rebind", {r.range(0, 3), r.range(0, 7), idx(), r.range(0, 1)}, selector(r)); break;
		case 4: p.op("rename", {idx(), r.chance(1, 4)}, r.chance(1, 3) ? selector(r) + "/" + std::string(r.below(20), 'w') : selector(r)); break;
		default: {
			int k = (int)r.below(r.chance(1, 2) ? 1 : 5);
			for(int j = 0; j < k; j++) switch(r.below(4)){
			case 0: p.op("actadd", {r.range(0, 5), r.range(0, 3), r.range(0, 7)}, selector(r)); break;
			case 1: p.op("actrebind", {r.range(0, 5), r.range(0, 3), r.range(0, 7), idx(), r.range(0, 1)}, selector(r)); break;
			default: p.op("actdispatch", {r.range(0, 5), r.range(0, 1)}, enc(relBndl(r))); break;
			}
			if(r.chance(1, 8)) p.op("call", {idx(), (int64_t)r.next()}, enc(relBndl(r)));
			else p.op("dispatch", {r.chance(1, 2), r.chance(1, 4), (int64_t)r.next()}, enc(relBndl(r)));
			break; }
		}
	}
}
void runD(const Plan &p, Ctx &c)
{
	World w;
	W = &w;
	w.c = &c;
	w.v = osc_vtable_alloc((int)((uint64_t)p.C("slots") % 40));
	w.delegate = p.C("delegate", 1) & 1;
	if(w.delegate) osc_vtable_setDelegationMethod(w.v, delegate, &w);
	for(size_t i = 0; i < p.ops.size(); i++){
		const Op &o = p.ops[i];
		c.at(i, o);
		if(o.k == "dispatch"){
			Bndl b;
			w.calls = 0;
			if(unpackBndl(o.s, b, true) && okAddrs(b)) dispatch(b, o.A(0) & 1, o.A(1) & 1, (uint64_t)o.A(2));
			w.acts.clear();
		}else if(o.k == "call"){
			Bndl b;
			w.calls = 0;
			if(unpackBndl(o.s, b, true) && okAddrs(b)) callOne(b, o.A(0), o.A(1));
			w.acts.clear();
		}else if(o.k.compare(0, 3, "act") == 0) w.acts.push_back(o);
		else edit(o, false);
		checkTable();
		stateHash(mix64(w.ents.size() * 31 + (w.ents.empty() ? 0 : fnv(w.ents.back().sel.data(), w.ents.back().sel.size())) + w.calls * 77));
	}
	osc_vtable_free(w.v);
	W = nullptr;
}
Reg regD(Scenario{"L09", genD, runD, 20000, 500000,
	"a handler was called with at least one message and its complete and partial sets were compared with the reference",
	"osc_dispatch.c osc_vtable.c osc_match.c osc_hashtab.c osc_bundle_s.c osc_message_s.c compiled from /repo",
	"handlers, delegate and their re-entrant edits and dispatches are played by the simulator; the allocator is simulated",
	"selectors in a table are distinct; inside a dispatch handlers are added and rebound and bundles dispatched again, but handlers are not renamed"});
}
