// L06: histories of editable bundles against an ordered list of messages.
#include "om.h"
using namespace sim;
using namespace om;
namespace {
const int NB = 4;
struct B6 { t_osc_bndl_u *b = nullptr; Bndl mod; };

void seen(t_osc_msg_u *m, void *ctx) { ((std::vector<Msg> *)ctx)->push_back(fromMsgU(m)); }
const char ANON[] = "(null)";           // a message whose address was never set
bool anon(const Bndl &b) { for(auto &m : b.m) if(m.addr == ANON) return true; return false; }
struct Look { std::string a; bool bad; };

void verify(B6 &x, const Look &lk)
{
	if(osc_bundle_u_getMsgCount(x.b) != (int)x.mod.m.size()) failv("count", "message count %d, expected %zu", osc_bundle_u_getMsgCount(x.b), x.mod.m.size());
	Bndl got = fromBndlU(x.b);
	if(got != x.mod) failv("order", "bundle holds %s, expected %s", text(got).c_str(), text(x.mod).c_str());
	std::vector<Msg> cb;
	osc_bundle_u_getMessagesWithCallback(x.b, seen, &cb);
	if(cb != x.mod.m) failv("callback", "callback saw %zu messages, expected %zu", cb.size(), x.mod.m.size());
	t_osc_msg_u *f = osc_bundle_u_getFirstMsg(x.b);
	if(!f != x.mod.m.empty() || (f && fromMsgU(f) != x.mod.m[0])) failv("first", "first message is wrong");
	// walk backwards from the end
	bool an = anon(x.mod);
	if(!an){
	std::string w = enc(x.mod);
	long n = osc_bundle_u_getSerializedSize(x.b);
	if(n != (long)w.size()) failv("wire", "serialised size %ld, expected %zu", n, w.size());
	t_osc_bndl_s *s = osc_bundle_u_serialize(x.b);
	if(!s || osc_bundle_s_getLen(s) != n || memcmp(osc_bundle_s_getPtr(s), w.data(), n)) failv("wire", "serialised bytes differ for %s", text(x.mod).c_str());
	osc_bundle_s_deepFree(s);
	}
	if(lk.a.empty()) return;
	if(an) probe("lookup among messages without an address");
	char *pat = arena::callerBytes(lk.a.c_str(), lk.a.size() + 1);
	std::vector<const Msg *> full, part;
	for(auto &m : x.mod.m){
		if(m.addr == ANON) continue;
		int r = lk.bad ? 0 : match(lk.a, m.addr);
		if(r == 3) full.push_back(&m);
		if(r) part.push_back(&m);
	}
	if(lk.bad) probe("lookup with a malformed pattern");
	else if(part.size() > full.size()) probe("partial address match");
	if(!full.empty()) probe("full address match");
	for(int fm = 0; fm < 2; fm++){
		auto &want = fm ? full : part;
		if(!fm && lk.bad) continue;
		int res = -1;
		osc_bundle_u_addressExists(x.b, pat, fm, &res);
		if((res != 0) != !want.empty()) failv("exists", "addressExists(%s, fullmatch %d) = %d in %s", lk.a.c_str(), fm, res, text(x.mod).c_str());
		bool any = false, all = true;
		for(auto m : want){ any |= !m->v.empty(); all &= !m->v.empty(); }
		res = -1;
		osc_bundle_u_addressIsBound(x.b, pat, fm, &res);
		if(any == (want.empty() ? any : all) && (res != 0) != any) failv("bound", "addressIsBound(%s, fullmatch %d) = %d in %s", lk.a.c_str(), fm, res, text(x.mod).c_str());
		t_osc_msg_ar_u *ar = osc_bundle_u_lookupAddress(x.b, pat, fm);
		if(!ar) failv("lookup", "no lookup result");
		if(osc_message_array_u_getLen(ar) != (long)want.size()) failv("lookup", "lookup(%s, fullmatch %d) finds %ld messages, expected %zu in %s", lk.a.c_str(), fm, osc_message_array_u_getLen(ar), want.size(), text(x.mod).c_str());
		for(size_t i = 0; i < want.size(); i++){
			Msg g = fromMsgU(osc_message_array_u_get(ar, i));
			if(g != *want[i]) failv("lookup", "lookup(%s) result %zu is %s, expected %s", lk.a.c_str(), i, text(g).c_str(), text(*want[i]).c_str());
		}
		// the results are the caller's: an array of them is copied, cut short, extended and released on its own
		std::vector<Msg> held;
		for(auto m : want) held.push_back(*m);
		t_osc_msg_ar_u *cp = osc_message_array_u_copy(ar);
		if(!cp) failv("lookup", "no copy of the results");
		osc_message_array_u_free((lk.a.size() + fm) & 1 ? ar : cp);
		ar = (lk.a.size() + fm) & 1 ? cp : ar;
		auto results = [&](const char *what) {
			if(osc_message_array_u_getLen(ar) != (long)held.size()) failv("results", "%s has %ld messages, expected %zu", what, osc_message_array_u_getLen(ar), held.size());
			for(size_t i = 0; i < held.size(); i++){
				t_osc_msg_u *q = osc_message_array_u_get(ar, i);
				if(held[i].addr == ANON ? osc_message_u_getAddress(q) || osc_message_u_getArgCount(q) : fromMsgU(q) != held[i]) failv("results", "%s: message %zu is %s, expected %s", what, i, text(fromMsgU(q)).c_str(), text(held[i]).c_str());
			}
		};
		results("a copy of lookup results");
		size_t to = held.empty() ? 1 : (pat[1] + 3 * held.size()) % (held.size() + 3);
		if(osc_message_array_u_resize(ar, (long)to)) failv("results", "resizing the results failed");
		held.resize(to, Msg(ANON, {}));
		results("a resized array of lookup results");
		if(lk.a.size() % 3 == 0){
			osc_message_array_u_clear(ar);
			for(auto &h : held) h = Msg(ANON, {});
			results("a cleared array of lookup results");
		}
		osc_message_array_u_free(ar);
	}
	t_osc_msg_u *m = osc_bundle_u_getFirstFullMatch(x.b, pat);
	if(!m != full.empty() || (m && fromMsgU(m) != *full[0])) failv("firstmatch", "first full match of %s is wrong in %s", lk.a.c_str(), text(x.mod).c_str());
	arena::callerFree(pat);
}
t_osc_msg_u *nth(t_osc_bndl_u *b, int n)
{
	t_osc_bndl_it_u *it = osc_bndl_it_u_get(b);
	t_osc_msg_u *m = nullptr;
	for(int i = 0; i <= n && osc_bndl_it_u_hasNext(it); i++) m = osc_bndl_it_u_next(it);
	osc_bndl_it_u_destroy(it);
	return m;
}
void gen(Rng &r, Plan &p, int tier)
{
	arena::genPolicy(r, p);
	GenOpt o;
	o.depth = 1; o.maxArgs = 3; o.maxMsgs = 2;
	int n = (int)r.range(8, tier ? 70 : 40);
	std::vector<std::string> used;
	auto addr = [&] { if(!used.empty() && r.chance(1, 2)) return r.pick(used); used.push_back(genAddr(r)); return used.back(); };
	auto msg = [&] { Msg m = genMsg(r, o); m.addr = addr(); return m; };
	for(int i = 0; i < n; i++){
		int b = (int)r.below(NB), c = (int)r.below(NB);
		switch(r.below(20)){
		case 0: case 1: case 2: case 3: p.op("add", {b, r.range(0, 3)}, encMsg(msg())); break;
		case 4: case 5: p.op("nodup", {b, r.range(0, 1)}, encMsg(msg())); break;
		case 6: case 7: p.op("repl", {b}, encMsg(msg())); break;
		case 8: case 9: p.op("rm", {b, r.range(0, 9)}); break;
		case 10: p.op("rmaddr", {b}, addr()); break;
		case 11: if(r.chance(1, 3)) p.op("clear", {b}); break;
		case 12: p.op("copy", {b, c}); break;
		case 13: p.op("union", {b, c, (int64_t)r.below(NB)}); break;
		case 14: p.op("inter", {b, c, (int64_t)r.below(NB)}); break;
		case 15: p.op("move", {b, r.range(0, 9), c, r.range(0, 2)}); break;
		case 16: p.op("edit", {b, r.range(0, 9), r.range(0, 3), r.range(-3, 9)}); break;
		case 17: if(r.chance(1, 3)){ p.op("anon", {b, r.range(0, 3)}, encMsg(msg())); p.op("look", {b, 0}, addr()); break; }
			p.op("list", {b, r.range(2, 3)}, encMsg(msg())); break;
		case 18: p.op("arr", {b, c, r.range(0, 1)}, r.chance(1, 2) ? addr() : genPattern(r, addr())); break;
		case 19: p.op("rename", {b, r.range(0, 9)}, addr()); break;
		}
		if(i > 2 && r.chance(1, 60)){
			std::string a = addr();
			p.op("many", {b, r.range(5, 45), r.range(1, 5)}, encMsg(Msg(a, {Val::I('i', 0)})));
			p.op("look", {b, 0}, r.chance(1, 2) ? a : genPattern(r, a));
		}
		if(r.chance(1, 2)){
			std::string a = addr();
			bool bad = r.chance(1, 10);
			p.op("look", {b, bad}, bad ? genBadPattern(r, a) : r.chance(1, 3) ? a : genPattern(r, a));
		}
	}
}
void run(const Plan &p, Ctx &c)
{
	B6 sl[NB];
	for(auto &x : sl) x.b = osc_bundle_u_alloc();
	int big = 0;
	for(size_t i = 0; i < p.ops.size(); i++){
		const Op &o = p.ops[i];
		c.at(i, o);
		auto S = [&](int64_t k) -> B6 & { return sl[((k % NB) + NB) % NB]; };
		B6 &x = S(o.A(0));
		Look lk{"", false};
		Msg m;
		int n = (int)x.mod.m.size();
		auto idx = [&](int64_t k) { return n ? (int)(((k % n) + n) % n) : -1; };
		auto nodup = [&](Bndl &b, const Msg &m) {
			if(m.addr != ANON) for(size_t k = 0; k < b.m.size();) if(b.m[k].addr == m.addr) b.m.erase(b.m.begin() + k); else k++;
			b.m.push_back(m);
		};
		if(o.k == "add"){
			if(!unpackMsg(o.s, m)) continue;
			t_osc_msg_u *u = toMsgU(m, (int)o.A(1));
			if(o.A(1) & 1) osc_bundle_u_addMsg(x.b, u);
			else{ osc_bundle_u_addMsgCopy(x.b, u); osc_message_u_free(u); }
			x.mod.m.push_back(m);
		}else if(o.k == "anon"){
			if(!unpackMsg(o.s, m)) continue;
			t_osc_msg_u *u = osc_message_u_alloc();
			for(auto &v : m.v) addVal(u, v, (int)o.A(1) & 1);
			m.addr = ANON;
			if(osc_message_u_getSerializedSize(u)) failv("anonymous", "a message without an address announces %ld serialised bytes", osc_message_u_getSerializedSize(u));
			if(osc_message_u_serialize(u)) failv("anonymous", "a serialised form of a message without an address");
			if(o.A(1) & 2) osc_bundle_u_addMsgWithoutDups(x.b, u);
			else osc_bundle_u_addMsg(x.b, u);
			x.mod.m.push_back(m);
		}else if(o.k == "many"){
			// a run of messages, some at the same address, some below it
			if(!unpackMsg(o.s, m)) continue;
			for(int64_t k = 0; k < o.A(1) && k < 50; k++){
				Msg q = m;
				q.v.assign((size_t)(k % 3), Val::I('i', k));
				if(o.A(2) > 2 && k % o.A(2) == 2) q.addr += "/" + std::to_string(k);
				osc_bundle_u_addMsg(x.b, toMsgU(q, (int)k));
				x.mod.m.push_back(q);
			}
			if(o.A(1) > 16) probe("many messages at once");
		}else if(o.k == "nodup"){
			if(!unpackMsg(o.s, m)) continue;
			t_osc_msg_u *u = toMsgU(m);
			if(o.A(1)) osc_bundle_u_addMsgWithoutDups(x.b, u);
			else{ osc_bundle_u_addMsgWithoutDupsCopy(x.b, u); osc_message_u_free(u); }
			for(auto &e : x.mod.m) if(e.addr == m.addr){ probe("duplicate replaced"); break; }
			nodup(x.mod, m);
		}else if(o.k == "repl"){
			if(!unpackMsg(o.s, m)) continue;
			osc_bundle_u_replaceMessage(x.b, toMsgU(m));
			bool done = false;
			for(auto &e : x.mod.m) if(e.addr == m.addr){ e = m; done = true; probe("replaced in place"); break; }
			if(!done) x.mod.m.push_back(m);
		}else if(o.k == "rm"){
			int k = idx(o.A(1));
			if(k < 0) continue;
			t_osc_msg_u *u = nth(x.b, k);
			osc_bundle_u_removeMsg(x.b, u);
			if(fromMsgU(u) != x.mod.m[k]) failv("removed", "the removed message changed");
			osc_message_u_free(u);
			if(k == n - 1) probe("removed the last message");
			x.mod.m.erase(x.mod.m.begin() + k);
		}else if(o.k == "rmaddr"){
			if(o.s.empty()) continue;
			char *a = arena::callerBytes(o.s.c_str(), o.s.size() + 1);
			osc_bundle_u_removeMessage(x.b, a);
			arena::callerFree(a);
			for(size_t k = 0; k < x.mod.m.size();) if(x.mod.m[k].addr == o.s) x.mod.m.erase(x.mod.m.begin() + k); else k++;
		}else if(o.k == "clear"){
			osc_bundle_u_clear(x.b);
			x.mod.m.clear();
		}else if(o.k == "copy"){
			B6 &d = S(o.A(1));
			if(&d == &x || anon(x.mod)) continue;    // copying goes through the serialised form
			osc_bundle_u_free(d.b);
			d.b = nullptr;
			osc_bundle_u_copy(&d.b, x.b);
			d.mod = x.mod;
			verify(d, lk);
		}else if(o.k == "union" || o.k == "inter"){
			B6 &y = S(o.A(1)), &d = S(o.A(2));
			if(&d == &x || &d == &y || anon(x.mod) || anon(y.mod)) continue;
			osc_bundle_u_clear(d.b);
			d.mod.m.clear();
			auto has = [](const Bndl &b, const std::string &a) { for(auto &e : b.m) if(e.addr == a) return true; return false; };
			if(o.k == "union"){
				osc_bundle_u_union(x.b, y.b, &d.b);
				for(auto bb : {&x.mod, &y.mod}) for(auto &e : bb->m) if(!has(d.mod, e.addr)) d.mod.m.push_back(e);
			}else{
				osc_bundle_u_intersection(x.b, y.b, &d.b);
				for(auto &e : x.mod.m) if(has(y.mod, e.addr) && !has(d.mod, e.addr)) d.mod.m.push_back(e);
				if(!d.mod.m.empty()) probe("intersection not empty");
			}
			verify(d, lk);
			verify(y, lk);
		}else if(o.k == "move"){
			B6 &d = S(o.A(2));
			int k = idx(o.A(1));
			if(k < 0) continue;
			t_osc_msg_u *u = nth(x.b, k);
			osc_bundle_u_removeMsg(x.b, u);
			m = x.mod.m[k];
			x.mod.m.erase(x.mod.m.begin() + k);
			if(o.A(3) == 1){ osc_bundle_u_addMsgWithoutDups(d.b, u); nodup(d.mod, m); }
			else{ osc_bundle_u_addMsg(d.b, u); d.mod.m.push_back(m); }
			verify(d, lk);
		}else if(o.k == "edit"){
			int k = idx(o.A(1));
			if(k < 0) continue;
			t_osc_msg_u *u = nth(x.b, k);
			Msg &mm = x.mod.m[k];
			switch(o.A(2)){
			case 0: osc_message_u_appendInt32(u, (int)o.A(3)); mm.v.push_back(Val::I('i', o.A(3))); break;
			case 1: osc_message_u_prependDouble(u, (double)o.A(3)); mm.v.insert(mm.v.begin(), Val::F('d', (double)o.A(3))); break;
			case 2: osc_message_u_clearArgs(u); mm.v.clear(); break;
			default:
				if(mm.v.empty()) continue;
				osc_atom_u_setInt32(osc_message_u_getArg(u, 0), (int)o.A(3));
				mm.v[0] = Val::I('i', o.A(3));
			}
		}else if(o.k == "rename"){
			int k = idx(o.A(1));
			if(k < 0 || o.s.empty() || o.s[0] != '/') continue;
			char *a = arena::callerBytes(o.s.c_str(), o.s.size() + 1);
			osc_message_u_setAddress(nth(x.b, k), a);
			arena::callerFree(a);
			x.mod.m[k].addr = o.s.c_str();
		}else if(o.k == "list"){
			if(!unpackMsg(o.s, m)) continue;
			t_osc_msg_u *head = toMsgU(m);
			x.mod.m.push_back(m);
			for(int64_t k = 1; k < o.A(1) && k < 6; k++){
				Msg q = m;
				q.addr += "/" + std::to_string(k);
				osc_message_u_append(head, toMsgU(q));
				x.mod.m.push_back(q);
			}
			osc_bundle_u_addMsgList(x.b, head);
		}else if(o.k == "arr"){
			B6 &d = S(o.A(1));
			if(o.s.empty() || o.s[0] != '/') continue;
			char *a = arena::callerBytes(o.s.c_str(), o.s.size() + 1);
			t_osc_msg_ar_u *ar = osc_bundle_u_lookupAddress(x.b, a, (int)(o.A(2) & 1));
			arena::callerFree(a);
			if(!ar) failv("lookup", "no lookup result");
			osc_bundle_u_addMsgArrayCopy(d.b, ar);
			osc_message_array_u_free(ar);
			Bndl src = x.mod;
			for(auto &e : src.m){
				int r = e.addr == ANON ? 0 : match(o.s, e.addr);
				if(o.A(2) & 1 ? r == 3 : r != 0) d.mod.m.push_back(e);
			}
			verify(d, lk);
		}else if(o.k == "look"){
			if(o.s.empty() || o.s[0] != '/' || o.s.find('\0') != std::string::npos) continue;
			lk = Look{o.s, o.A(1) != 0};
		}else continue;
		if(x.mod.m.size() > 110) { osc_bundle_u_clear(x.b); x.mod.m.clear(); }
		verify(x, lk);
		if(x.mod.m.size() >= 3) big++;
		c.log(text(x.mod));
		stateHash(fnv(text(x.mod).data(), text(x.mod).size()));
	}
	for(auto &x : sl) verify(x, Look{"", false});
	// freeing one bundle leaves the others alone
	for(int i = 0; i < NB; i++){
		osc_bundle_u_free(sl[i].b);
		for(int j = i + 1; j < NB; j++) verify(sl[j], Look{"", false});
	}
	if(big) c.nontrivial();
}
Reg reg(Scenario{"L06", gen, run, 20000, 400000,
	"some bundle held at least three messages while it was edited and compared",
	"osc_bundle_u.c osc_message_u.c osc_atom_u.c osc_array.c osc_match.c osc_mem.c and the iterators, compiled from /repo",
	"the allocator (osc_set_mem) is simulated: guarded blocks, seeded contents and reuse",
	"addresses stored in bundles carry no pattern characters; with several messages at one address, of which some have arguments and some none, 'bound' is not decided"});
}
