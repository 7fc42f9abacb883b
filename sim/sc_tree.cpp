// L18: explode and flatten against an independent tree model, in both bundle forms.
#include "om.h"
#include <algorithm>
using namespace sim;
using namespace om;
namespace {
const int NB = 4;

// where the leading part of an address ends; npos: it has only one part
size_t splitAt(const std::string &a, char sep)
{
	size_t from = !a.empty() && a[0] == sep ? 2 : 1;
	return a.size() > from ? a.find(sep, from) : std::string::npos;
}
std::string restOf(const std::string &a, size_t at, char sep)
{
	if(sep == '/') return a.substr(at);
	if(at + 1 < a.size() && a[at + 1] == '/') return a.substr(at + 1);
	return "/" + a.substr(at + 1);
}
struct Node {
	std::vector<Msg> leaves;                                  // in source order
	std::vector<std::pair<std::string, Node>> kids;           // enclosing address -> contents
};
// false: an address repeats or is the leading part of another
bool place(Node &n, const Msg &m, int level, int maxlevel, char sep)
{
	size_t at = level >= maxlevel && maxlevel >= 0 ? std::string::npos : splitAt(m.addr, sep);
	std::string head = m.addr.substr(0, at);
	for(auto &l : n.leaves) if(l.addr == head) return false;
	Node *kid = nullptr;
	for(auto &k : n.kids) if(k.first == head) kid = &k.second;
	if(at == std::string::npos){
		if(kid) return false;
		n.leaves.push_back(m);
		return true;
	}
	if(!kid){ n.kids.push_back({head, Node()}); kid = &n.kids.back().second; }
	Msg r = m;
	r.addr = restOf(m.addr, at, sep);
	return place(*kid, r, level + 1, maxlevel, sep);
}
Bndl toBndl(const Node &n)
{
	Bndl b;
	b.m = n.leaves;
	for(auto &k : n.kids) b.m.push_back(Msg(k.first, {Val::B(toBndl(k.second))}));
	return b;
}
void cmpTree(const Bndl &got, const Node &want, const std::string &path)
{
	std::vector<Msg> leaves;
	size_t kids = 0;
	for(auto &m : got.m){
		const Node *k = nullptr;
		for(auto &x : want.kids) if(x.first == m.addr) k = &x.second;
		if(!k){ leaves.push_back(m); continue; }
		kids++;
		if(m.v.size() != 1 || m.v[0].t != '.') failv("nesting", "under '%s', %s should hold one bundle: %s", path.c_str(), m.addr.c_str(), text(m).c_str());
		cmpTree(*m.v[0].b, *k, path + m.addr);
	}
	if(kids != want.kids.size()) failv("nesting", "under '%s' there are %zu enclosing messages, expected %zu: %s", path.c_str(), kids, want.kids.size(), text(got).c_str());
	if(leaves != want.leaves) failv("leaves", "under '%s' the messages are %s, expected %s", path.c_str(), text(got).c_str(), text(toBndl(want)).c_str());
}
// false: two results share an address
bool flat(Bndl &d, const Bndl &b, int maxlevel, int level, const std::string &prefix, const std::string &sep, bool drop)
{
	for(auto &m : b.m){
		Msg r = m;
		r.addr = level ? prefix + sep + m.addr : m.addr;
		if(level < maxlevel || maxlevel <= 0){
			r.v.clear();
			for(auto &v : m.v){
				if(v.t != '.') r.v.push_back(v);
				else if(!flat(d, *v.b, maxlevel, level + 1, r.addr, sep, drop)) return false;
			}
		}
		if(drop && r.v.empty()) continue;
		for(auto &e : d.m) if(e.addr == r.addr) return false;
		d.m.push_back(r);
	}
	return true;
}
std::vector<Msg> sorted(const Bndl &b)
{
	std::vector<Msg> v = b.m;
	std::stable_sort(v.begin(), v.end(), [](const Msg &a, const Msg &b) { return a.addr < b.addr; });
	return v;
}
bool holdsBundle(const Bndl &b) { for(auto &m : b.m) for(auto &v : m.v) if(v.t == '.') return true; return false; }
size_t weight(const Bndl &b) { size_t n = 0; for(auto &m : b.m){ n++; for(auto &v : m.v) if(v.t == '.') n += weight(*v.b); } return n; }
int depthOf(const Bndl &b) { int d = 0; for(auto &m : b.m) for(auto &v : m.v) if(v.t == '.') d = std::max(d, 1 + depthOf(*v.b)); return d; }

const char SEPS[] = "/.:|~/";
std::string sepStr(int64_t k)
{
	k = ((k % 8) + 8) % 8;
	if(k < 6) return std::string(1, SEPS[k]);
	return k == 6 ? "" : "/x";
}
void gen(Rng &r, Plan &p, int tier)
{
	arena::genPolicy(r, p);
	GenOpt o;
	o.depth = r.chance(1, 3) ? 2 : 1;
	o.nested = r.chance(1, 3);
	o.maxArgs = 3;
	o.maxMsgs = 2;
	int64_t sk = r.chance(2, 3) ? 0 : r.range(1, 7);
	char sep = sepStr(sk).empty() ? '/' : sepStr(sk)[0];
	std::vector<std::string> words = {"a", "b", "ab", "c", "foo", "bar", "x1"};
	if(r.chance(1, 4)) words.insert(words.end(), {"a*", "?", "[a-c]", "{ab,c}", "*"});
	if(r.chance(1, 6)) words.push_back(std::string(r.range(1, 80), 'q'));
	int wide = (int)r.range(2, words.size());
	int dep = r.chance(1, 12) ? (int)r.range(6, 24) : (int)r.range(1, 5);
	auto addr = [&] {
		int n = (int)r.range(1, dep);
		std::string a = "/" + words[r.below(wide)];
		for(int i = 1; i < n; i++){
			if(sep == '/') a += "/";
			else{
				a += r.chance(1, 10) ? '/' : sep;
				if(r.chance(7, 8)) a += "/";
			}
			a += words[r.below(wide)];
		}
		if(r.chance(1, 40)) a += r.chance(1, 2) ? "/" : std::string(1, sep);
		return a;
	};
	int n = (int)r.range(4, tier ? 40 : 24);
	bool apart = r.chance(3, 4);                 // mostly addresses of which none leads another
	std::vector<std::string> have[NB];
	auto add = [&](int b) {
		Msg m = genMsg(r, o);
		for(int t = 0; t < 12; t++){
			m.addr = addr();
			bool ok = true;
			for(auto &a : have[b]) ok = ok && a.compare(0, m.addr.size(), m.addr) && m.addr.compare(0, a.size(), a);
			if(ok || !apart) break;
		}
		have[b].push_back(m.addr);
		if(m.v.empty() && r.chance(3, 4)) m.v.push_back(Val::I('i', genInt(r, 'i')));
		p.op("add", {b}, encMsg(m));
	};
	if(r.chance(4, 5)) for(int b = 0, k = (int)r.range(1, NB); b < k; b++) for(int q = (int)r.range(1, 7); q > 0; q--) add(b);
	for(int i = 0; i < n; i++){
		int b = (int)r.below(NB), c = (int)r.below(NB);
		switch(r.below(10)){
		case 0: case 1: case 2: case 3: add(b); break;
		case 4: case 5:
		case 6: p.op("explode", {b, c, r.chance(2, 3) ? -1 : r.range(0, 5), r.chance(9, 10) ? sk : r.range(0, 7), r.range(0, 1)}); break;
		case 7: case 8: p.op("flatten", {b, c, r.chance(2, 3) ? r.range(-1, 0) : r.range(1, 4), r.chance(9, 10) ? sk : r.range(0, 7), r.range(0, 1)}); break;
		case 9: if(r.chance(1, 3)) have[b].clear(), p.op("clear", {b}); break;
		}
	}
}
struct S { t_osc_bndl_u *u = nullptr; Bndl mod; };

void run(const Plan &p, Ctx &c)
{
	S sl[NB];
	for(auto &x : sl) x.u = osc_bundle_u_alloc();
	auto same = [&](S &x, const char *when) {
		Bndl g = fromBndlU(x.u);
		if(g != x.mod) failv("source", "the source bundle changed in %s: %s, was %s", when, text(g).c_str(), text(x.mod).c_str());
	};
	// the serialised form of a source: time tags at every level are dropped, so they are left out
	auto sform = [&](const Bndl &b, std::string &bytes) {
		bytes = enc(b);
		return osc_bundle_s_alloc((long)bytes.size(), arena::callerBytes(bytes.data(), bytes.size()));
	};
	auto sdone = [&](t_osc_bndl_s *s, const std::string &bytes, const char *when) {
		if(osc_bundle_s_getLen(s) != (long)bytes.size() || memcmp(osc_bundle_s_getPtr(s), bytes.data(), bytes.size())) failv("source", "the serialised source bundle changed in %s", when);
		arena::callerFree(osc_bundle_s_getPtr(s));
		osc_bundle_s_free(s);
	};
	auto sresult = [&](t_osc_bndl_s *d, t_osc_bndl_u *u, const char *when) {
		if(!d) failv("forms", "%s of the serialised form gave nothing", when);
		t_osc_bndl_s *e = osc_bundle_u_serialize(u);
		if(osc_bundle_s_getLen(d) != osc_bundle_s_getLen(e) || memcmp(osc_bundle_s_getPtr(d), osc_bundle_s_getPtr(e), osc_bundle_s_getLen(e))) failv("forms", "%s gives different results for the two forms", when);
		osc_bundle_s_deepFree(e);
		osc_bundle_s_deepFree(d);
	};
	int big = 0;
	for(size_t i = 0; i < p.ops.size(); i++){
		const Op &o = p.ops[i];
		c.at(i, o);
		auto K = [&](int64_t k) -> S & { return sl[((k % NB) + NB) % NB]; };
		S &x = K(o.A(0)), &d = K(o.A(1));
		if(o.k == "add"){
			Msg m;
			if(!unpackMsg(o.s, m) || m.addr.size() < 2 || x.mod.m.size() > 30) continue;
			osc_bundle_u_addMsg(x.u, toMsgU(m));
			x.mod.m.push_back(m);
		}else if(o.k == "clear"){
			osc_bundle_u_clear(x.u);
			x.mod.m.clear();
		}else if(o.k == "explode"){
			int64_t lv = o.A(2);
			if(lv < -1 || lv > 40 || weight(x.mod) > 80) continue;
			std::string sep = sepStr(o.A(3));
			char sc = sep.empty() ? '/' : sep[0];
			Node want;
			bool ok = true;
			for(auto &m : x.mod.m) ok = ok && place(want, m, 0, (int)lv, sc);
			char *cs = arena::callerBytes(sep.c_str(), sep.size() + 1);
			t_osc_bndl_u *r = o.A(4) ? osc_bundle_u_alloc() : nullptr;
			if(!ok){
				// an address repeats or leads another: which value survives is not specified, but the forms agree and the source stays
				probe("exploded with an address that repeats or leads another");
				stepBudget(400000000);
				osc_bundle_u_explode(&r, x.u, (int)lv, cs);
				stepBudget(0);
				if(!r) failv("result", "explode gave nothing");
				same(x, "explode");
				std::string bytes;
				t_osc_bndl_s *s = sform(x.mod, bytes), *ds = nullptr;
				osc_bundle_s_explode(&ds, s, (int)lv, cs);
				sresult(ds, r, "explode");
				sdone(s, bytes, "explode");
				osc_bundle_u_free(r);
				arena::callerFree(cs);
				continue;
			}
			stepBudget(400000000);
			osc_bundle_u_explode(&r, x.u, (int)lv, sep.empty() && o.A(4) ? nullptr : cs);
			stepBudget(0);
			if(!r) failv("result", "explode gave nothing");
			Bndl g = fromBndlU(r);
			cmpTree(g, want, "");
			same(x, "explode");
			std::string bytes;
			t_osc_bndl_s *s = sform(x.mod, bytes), *ds = nullptr;
			osc_bundle_s_explode(&ds, s, (int)lv, cs);
			sresult(ds, r, "explode");
			sdone(s, bytes, "explode");
			if(!want.kids.empty()) probe("exploded into nested bundles");
			if(depthOf(g) >= 3) probe("three levels deep");
			if(want.kids.size() >= 2) big++;
			// and back
			if(weight(g) < 120){
				std::string fs = sc == '/' ? "" : std::string(1, sc);
				char *cf = arena::callerBytes(fs.c_str(), fs.size() + 1);
				t_osc_bndl_u *f = nullptr;
				stepBudget(400000000);
				osc_bundle_u_flatten(&f, r, 0, cf, 1);
				stepBudget(0);
				bool inverse = !holdsBundle(x.mod);
				for(auto &m : x.mod.m){
					if(m.v.empty()) inverse = false;
					if(sc != '/') for(size_t k = 0; (k = m.addr.find(sc, k)) != std::string::npos; k++) if(k == 0 || k + 1 >= m.addr.size() || m.addr[k + 1] != '/' || (k == 1)) inverse = false;
				}
				Bndl fg = fromBndlU(f), src = x.mod;
				if(inverse){
					probe("flattening gave the original back");
					if(sorted(fg) != sorted(src)) failv("inverse", "flatten(explode(b)) is %s, b is %s", text(fg).c_str(), text(src).c_str());
				}else{
					Bndl fw;
					if(flat(fw, g, 0, 0, "", fs, true) && sorted(fw) != sorted(fg)) failv("flatten", "flatten gives %s, expected %s", text(fg).c_str(), text(fw).c_str());
				}
				Bndl g2 = fromBndlU(r);
				if(g2 != g) failv("source", "the source bundle changed in flatten");
				osc_bundle_u_free(f);
				arena::callerFree(cf);
			}
			arena::callerFree(cs);
			if(&d == &x || weight(g) > 60){ osc_bundle_u_free(r); continue; }
			osc_bundle_u_free(d.u);
			d.u = r;
			d.mod = g;
			c.log(text(g));
			stateHash(fnv(text(g).data(), text(g).size()));
		}else if(o.k == "flatten"){
			int64_t lv = o.A(2);
			if(lv < -1 || lv > 40 || weight(x.mod) > 80) continue;
			std::string sep = sepStr(o.A(3));
			if(sep == "/") sep = "";
			bool drop = o.A(4) & 1;
			Bndl want;
			bool known = flat(want, x.mod, (int)lv, 0, "", sep, drop);
			if(!known) probe("flattened addresses coincide");
			char *cs = arena::callerBytes(sep.c_str(), sep.size() + 1);
			t_osc_bndl_u *r = nullptr;
			stepBudget(400000000);
			osc_bundle_u_flatten(&r, x.u, (int)lv, sep.empty() && (o.A(4) & 2) ? nullptr : cs, drop);
			stepBudget(0);
			if(!r) failv("result", "flatten gave nothing");
			Bndl g = fromBndlU(r);
			if(known && sorted(g) != sorted(want)) failv("flatten", "flatten gives %s, expected %s", text(g).c_str(), text(want).c_str());
			same(x, "flatten");
			std::string bytes;
			t_osc_bndl_s *s = sform(x.mod, bytes), *ds = nullptr;
			osc_bundle_s_flatten(&ds, s, (int)lv, cs, drop);
			sresult(ds, r, "flatten");
			sdone(s, bytes, "flatten");
			arena::callerFree(cs);
			if(holdsBundle(x.mod)){ probe("flattened a nested bundle"); if(weight(x.mod) > 3) big++; }
			if(lv > 0 && holdsBundle(want)) probe("depth limit kept a nested bundle");
			if(&d == &x){ osc_bundle_u_free(r); continue; }
			osc_bundle_u_free(d.u);
			d.u = r;
			d.mod = g;
			c.log(text(g));
			stateHash(fnv(text(g).data(), text(g).size()));
		}
	}
	for(auto &x : sl){ same(x, "other operations"); osc_bundle_u_free(x.u); }
	if(big) c.nontrivial();
}
Reg reg(Scenario{"L18", gen, run, 15000, 400000,
	"a bundle was exploded into two or more nested bundles, or a nested bundle of more than three messages was flattened",
	"osc_bundle_u.c osc_bundle_s.c osc_message_u.c osc_message_s.c osc_atom_u.c osc_match.c osc_mem.c and the iterators, compiled from /repo",
	"the allocator (osc_set_mem) is simulated: guarded blocks, seeded contents and reuse",
	"bundles in which an address repeats or leads another are left out; flattening gives the original back for messages with arguments that are not bundles (a message without arguments is dropped by the flag that drops emptied enclosing messages); order among enclosing messages is not decided"});
}
