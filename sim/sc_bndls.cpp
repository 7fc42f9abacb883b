// L07: histories of serialised bundles, byte for byte, against an ordered list of messages.
#include "om.h"
using namespace sim;
using namespace om;
namespace {
const int NB = 4;
struct B7 { t_osc_bndl_s *b = nullptr; Bndl mod; };
void seen(t_osc_msg_s *m, void *ctx) { ((std::vector<Msg> *)ctx)->push_back(fromMsgS(m)); }
struct Look { std::string a; bool bad; };
// a message outside any bundle: exact-size caller memory
struct Loose {
	char *p;
	t_osc_msg_s *m;
	Loose(const Msg &x)
	{
		std::string e = encMsg(x);
		e = be32((uint32_t)e.size()) + e;
		p = arena::callerBytes(e.data(), e.size());
		m = osc_message_s_alloc();
		osc_message_s_wrap(m, p);
	}
	~Loose() { osc_message_s_free(m); arena::callerFree(p); }
};
void verify(B7 &x, const Look &lk)
{
	std::string w = enc(x.mod);
	long n = osc_bundle_s_getLen(x.b);
	char *p = osc_bundle_s_getPtr(x.b);
	if(n != (long)w.size() || memcmp(p, w.data(), n)){
		Bndl g;
		std::string why;
		bool ok = fromBytes(n, p, g, why);
		failv("bytes", "bundle is %s, expected %s", ok ? text(g).c_str() : why.c_str(), text(x.mod).c_str());
	}
	// read through an exact copy so that overruns are caught
	char *q = arena::callerBytes(p, n);
	int count = -1;
	t_osc_err e = osc_bundle_s_getMsgCount((int)n, q, &count);
	if(e || count != (int)x.mod.m.size()) failv("count", "message count %d (error %lx), expected %zu", count, (long)e, x.mod.m.size());
	if(fromTT(osc_bundle_s_getTimetag(n, q)) != x.mod.tt) failv("timetag", "time tag differs");
	std::vector<Msg> want = x.mod.m, cb;
	osc_bundle_s_getMessagesWithCallback((int)n, q, seen, &cb);
	if(cb != want) failv("callback", "callback saw other messages");
	std::vector<Msg> itv;
	t_osc_bndl_it_s *it = osc_bndl_it_s_get(n, q);
	while(osc_bndl_it_s_hasNext(it)) itv.push_back(fromMsgS(osc_bndl_it_s_next(it)));
	osc_bndl_it_s_destroy(it);
	if(itv != want) failv("iterate", "iteration saw other messages in %s", text(x.mod).c_str());
	for(size_t part = 0; part <= want.size() && part < 3; part++){
		it = osc_bndl_it_s_get(n, q);
		for(size_t k = part == 2 ? want.size() : part; k; k--) osc_bndl_it_s_next(it);
		osc_bndl_it_s_reset(it);
		itv.clear();
		while(osc_bndl_it_s_hasNext(it)) itv.push_back(fromMsgS(osc_bndl_it_s_next(it)));
		osc_bndl_it_s_destroy(it);
		if(itv != want) failv("iterate", "iteration started over after %zu messages saw other messages in %s", part, text(x.mod).c_str());
	}
	t_osc_bndl_s *view = osc_bundle_s_alloc(n, q);
	t_osc_msg_s *f = osc_bundle_s_getFirstMsg(view);
	if(!f != want.empty() || (f && fromMsgS(f) != want[0])) failv("first", "first message is wrong");
	osc_message_s_free(f);
	Bndl flat = x.mod;
	dropTime(flat);
	t_osc_bndl_u *u = osc_bundle_s_deserialize(n, q);
	Bndl gu = fromBndlU(u);
	if(gu != flat) failv("deserialise", "deserialised to %s, expected %s", text(gu).c_str(), text(flat).c_str());
	osc_bundle_u_free(u);
	if(!lk.a.empty()){
		char *pat = arena::callerBytes(lk.a.c_str(), lk.a.size() + 1);
		std::vector<const Msg *> full, part;
		const Msg *eq = nullptr;
		for(auto &m : want){
			int r = lk.bad ? 0 : match(lk.a, m.addr);
			if(r == 3) full.push_back(&m);
			if(r) part.push_back(&m);
			if(m.addr == lk.a && !eq) eq = &m;
		}
		if(lk.bad) probe("lookup with a malformed pattern");
		else if(part.size() > full.size()) probe("partial address match");
		if(!full.empty()) probe("full address match");
		auto at = [&](char *m) { t_osc_msg_s *s = osc_message_s_alloc(); osc_message_s_wrap(s, m); Msg r = fromMsgS(s); osc_message_s_free(s); return r; };
		for(int fm = 0; fm < 2; fm++){
			auto &wl = fm ? full : part;
			if(!fm && lk.bad) continue;
			int res = -1;
			osc_bundle_s_addressExists(n, q, pat, fm, &res);
			if((res != 0) != !wl.empty()) failv("exists", "addressExists(%s, fullmatch %d) = %d in %s", lk.a.c_str(), fm, res, text(x.mod).c_str());
			bool any = false;
			for(auto m : wl) any |= !m->v.empty();
			res = -1;
			osc_bundle_s_addressIsBound(n, q, pat, fm, &res);
			if((res != 0) != any) failv("bound", "addressIsBound(%s, fullmatch %d) = %d in %s", lk.a.c_str(), fm, res, text(x.mod).c_str());
			t_osc_msg_ar_s *ar = fm ? osc_bundle_s_lookupAddress_b(view, pat, fm) : osc_bundle_s_lookupAddress(n, q, pat, fm);
			long k = ar ? osc_message_array_s_getLen(ar) : 0;
			if(k != (long)wl.size()) failv("lookup", "lookup(%s, fullmatch %d) finds %ld messages, expected %zu in %s", lk.a.c_str(), fm, k, wl.size(), text(x.mod).c_str());
			for(long i = 0; i < k; i++){
				Msg g = fromMsgS(osc_message_array_s_get(ar, i));
				if(g != *wl[i]) failv("lookup", "lookup(%s) result %ld is %s, expected %s", lk.a.c_str(), i, text(g).c_str(), text(*wl[i]).c_str());
			}
			if(ar) osc_message_array_s_free(ar);
		}
		char *m = osc_bundle_s_getFirstFullMatch(n, q, pat);
		if(!m != full.empty() || (m && at(m) != *full[0])) failv("firstmatch", "first full match of %s is wrong in %s", lk.a.c_str(), text(x.mod).c_str());
		m = osc_bundle_s_getFirstEqualAddr(n, q, pat);
		if(!m != !eq || (m && at(m) != *eq)) failv("firstequal", "first message at %s is wrong in %s", lk.a.c_str(), text(x.mod).c_str());
		arena::callerFree(pat);
	}
	osc_bundle_s_free(view);
	arena::callerFree(q);
}
// a bundle in which one message, made elsewhere, has an address and not even a comma
void bare(B7 &x, const std::string &a, size_t at)
{
	if(x.mod.m.size() > 20) return;
	at = std::min(at, x.mod.m.size());
	std::vector<Msg> want = x.mod.m;
	want.insert(want.begin() + at, Msg(a));
	std::string w("#bundle\0", 8);
	w += std::string(8, 0);
	for(size_t i = 0; i < want.size(); i++){
		std::string e = i == at ? pad(a) : encMsg(want[i]);
		w += be32((uint32_t)e.size()) + e;
	}
	char *q = arena::callerBytes(w.data(), w.size()), *pat = arena::callerBytes(a.c_str(), a.size() + 1);
	long n = (long)w.size();
	int k = -1;
	osc_bundle_s_getMsgCount((int)n, q, &k);
	if(k != (int)want.size()) failv("bare", "%d messages counted, expected %zu", k, want.size());
	std::vector<Msg> itv;
	t_osc_bndl_it_s *it = osc_bndl_it_s_get(n, q);
	while(osc_bndl_it_s_hasNext(it)) itv.push_back(fromMsgS(osc_bndl_it_s_next(it)));
	osc_bndl_it_s_destroy(it);
	if(itv != want) failv("bare", "iteration over a bundle with a message without type tags saw other messages");
	bool any = false;
	long found = 0;
	for(auto &m : want) if(match(a, m.addr) == 3){ found++; any |= !m.v.empty(); }
	k = -1;
	osc_bundle_s_addressIsBound(n, q, pat, 1, &k);
	if((k != 0) != any) failv("bare", "addressIsBound(%s) = %d where message %zu of %zu has no type tags", a.c_str(), k, at, want.size());
	k = -1;
	osc_bundle_s_addressExists(n, q, pat, 1, &k);
	if(!k) failv("bare", "a message without type tags does not exist");
	t_osc_msg_ar_s *ar = osc_bundle_s_lookupAddress(n, q, pat, 1);
	if(!ar || osc_message_array_s_getLen(ar) != found) failv("bare", "lookup of %s finds %ld messages, expected %ld", a.c_str(), ar ? (long)osc_message_array_s_getLen(ar) : 0L, found);
	osc_message_array_s_free(ar);
	t_osc_bndl_u *u = osc_bundle_s_deserialize(n, q);
	Bndl g = fromBndlU(u), flat;
	flat.m = want;
	dropTime(flat);
	if(g != flat) failv("bare", "deserialised to %s, expected %s", text(g).c_str(), text(flat).c_str());
	osc_bundle_u_free(u);
	arena::callerFree(q);
	arena::callerFree(pat);
	probe("message without type tags");
}
void gen(Rng &r, Plan &p, int tier)
{
	arena::genPolicy(r, p);
	GenOpt o;
	o.depth = 1; o.maxArgs = 3; o.maxMsgs = 2; o.nestedTime = true;
	int n = (int)r.range(8, tier ? 60 : 35);
	std::vector<std::string> used;
	auto addr = [&] { if(!used.empty() && r.chance(1, 2)) return r.pick(used); used.push_back(genAddr(r)); return used.back(); };
	auto msg = [&] { Msg m = genMsg(r, o); m.addr = addr(); return m; };
	for(int i = 0; i < n; i++){
		int b = (int)r.below(NB), c = (int)r.below(NB);
		switch(r.below(19)){
		case 0: case 1: case 2: case 3: case 4: p.op("app", {b, r.range(0, 1)}, encMsg(msg())); break;
		case 5: case 6: p.op("repl", {b, r.range(0, 9)}, encMsg(msg())); break;
		case 7: p.op("swap", {b, r.range(0, 9), r.range(0, 9)}); break;
		case 8: case 9: p.op("rm", {b, r.range(0, 1)}, addr()); break;
		case 10: p.op("concat", {b, c, (int64_t)r.below(NB)}); break;
		case 11: p.op("union", {b, c, (int64_t)r.below(NB)}); break;
		case 12: p.op("inter", {b, c, (int64_t)r.below(NB), r.range(0, 1)}); break;
		case 13: p.op("diff", {b, c, (int64_t)r.below(NB), r.range(0, 1)}); break;
		case 14: p.op("wrap", {b, r.range(0, 1)}, encMsg(msg())); break;
		case 15: p.op("copy", {b, c}); break;
		case 16: p.op("time", {b, (int64_t)r.next()}); break;
		case 17: p.op("empty", {b, r.range(0, 2)}); break;
		case 18: p.op("appx", {b, c, r.range(0, 9)}); break;
		}
		if(i > 2 && r.chance(1, 60)){
			std::string a = addr();
			p.op("many", {b, r.range(5, 45), r.range(1, 5)}, encMsg(Msg(a, {Val::I('i', 0)})));
			p.op("look", {b, 0}, r.chance(1, 2) ? a : genPattern(r, a));
		}
		if(r.chance(1, 60)) p.op("bare", {b, r.range(0, 4)}, addr());
		if(r.chance(1, 1500)) p.op("big", {b, r.range(60000, 80000)}, addr());
		if(r.chance(1, 2)){
			std::string a = addr();
			bool bad = r.chance(1, 10);
			p.op("look", {b, bad}, bad ? genBadPattern(r, a) : r.chance(1, 3) ? a : genPattern(r, a));
		}
	}
}
char *msgAt(t_osc_bndl_s *b, int k)
{
	char *p = osc_bundle_s_getPtr(b) + 16;
	while(k--) p += 4 + rd32(std::string(p, 4), 0);
	return p;
}
void run(const Plan &p, Ctx &c)
{
	B7 sl[NB];
	for(auto &x : sl) x.b = osc_bundle_s_allocEmptyBundle();
	int big = 0;
	for(size_t i = 0; i < p.ops.size(); i++){
		const Op &o = p.ops[i];
		c.at(i, o);
		auto S = [&](int64_t k) -> B7 & { return sl[((k % NB) + NB) % NB]; };
		B7 &x = S(o.A(0));
		Look lk{"", false};
		Msg m;
		int n = (int)x.mod.m.size();
		auto idx = [&](int64_t k) { return n ? (int)(((k % n) + n) % n) : -1; };
		auto has = [](const Bndl &b, const std::string &a) { for(auto &e : b.m) if(e.addr == a) return true; return false; };
		auto settle = [&](B7 &d, long len, char *ptr, const Bndl &mod) {
			osc_bundle_s_deepFree(d.b);
			d.b = osc_bundle_s_alloc(len, ptr);
			d.mod = mod;
			verify(d, Look{"", false});
		};
		if(o.k == "app"){
			if(!unpackMsg(o.s, m)) continue;
			Loose l(m);
			if(o.A(1)) osc_bundle_s_appendMessage_b(&x.b, l.m);
			else{
				long len = osc_bundle_s_getLen(x.b);
				char *ptr = osc_bundle_s_getPtr(x.b);
				osc_bundle_s_appendMessage(&len, &ptr, l.m);
				osc_bundle_s_setLen(x.b, len);
				osc_bundle_s_setPtr(x.b, ptr);
			}
			x.mod.m.push_back(m);
		}else if(o.k == "many"){
			if(!unpackMsg(o.s, m)) continue;
			for(int64_t k = 0; k < o.A(1) && k < 50; k++){
				Msg q = m;
				q.v.assign((size_t)(k % 3), Val::I('i', k));
				if(o.A(2) > 2 && k % o.A(2) == 2) q.addr += "/" + std::to_string(k);
				Loose l(q);
				osc_bundle_s_appendMessage_b(&x.b, l.m);
				x.mod.m.push_back(q);
			}
			if(o.A(1) > 16) probe("many messages at once");
		}else if(o.k == "big"){
			if(o.s.empty() || o.A(1) < 0 || o.A(1) > 200000) continue;
			m = Msg(o.s, {Val::Blob(std::string((size_t)o.A(1), 'B')), Val::I('i', 1)});
			Loose l(m);
			osc_bundle_s_appendMessage_b(&x.b, l.m);
			x.mod.m.push_back(m);
			probe("a message of more than 64k");
		}else if(o.k == "bare"){
			if(o.s.empty() || o.s[0] != '/' || o.s.find('\0') != std::string::npos) continue;
			bare(x, o.s, (size_t)(uint64_t)o.A(1));
			continue;
		}else if(o.k == "appx"){
			// a message of another bundle
			B7 &y = S(o.A(1));
			if(&x == &y || y.mod.m.empty()) continue;
			int k = (int)((uint64_t)o.A(2) % y.mod.m.size());
			t_osc_msg_s *s = osc_message_s_alloc();
			osc_message_s_wrap(s, msgAt(y.b, k));
			osc_bundle_s_appendMessage_b(&x.b, s);
			osc_message_s_free(s);
			x.mod.m.push_back(y.mod.m[k]);
		}else if(o.k == "repl" || o.k == "swap"){
			int k = idx(o.A(1));
			if(k < 0) continue;
			t_osc_msg_s *old = osc_message_s_alloc();
			osc_message_s_wrap(old, msgAt(x.b, k));
			long len = osc_bundle_s_getLen(x.b), cap = len;
			char *ptr = osc_bundle_s_getPtr(x.b);
			t_osc_err e;
			if(o.k == "repl"){
				if(!unpackMsg(o.s, m)){ osc_message_s_free(old); continue; }
				Loose l(m);
				probe(encMsg(m).size() > encMsg(x.mod.m[k]).size() ? "replaced by a longer message" : "replaced by a message no longer");
				e = osc_bundle_s_replaceMessage(&cap, &len, &ptr, old, l.m);
			}else{
				int j = idx(o.A(2));
				m = x.mod.m[j];
				t_osc_msg_s *nw = osc_message_s_alloc();
				osc_message_s_wrap(nw, msgAt(x.b, j));
				e = osc_bundle_s_replaceMessage(&cap, &len, &ptr, old, nw);
				osc_message_s_free(nw);
			}
			osc_message_s_free(old);
			if(e) failv("replace", "replaceMessage fails with %lx", (long)e);
			osc_bundle_s_setLen(x.b, len);
			osc_bundle_s_setPtr(x.b, ptr);
			x.mod.m[k] = m;
		}else if(o.k == "rm"){
			if(o.s.empty()) continue;
			char *a = arena::callerBytes(o.s.c_str(), o.s.size() + 1);
			long len = osc_bundle_s_getLen(x.b);
			osc_bundle_s_removeMessage(a, &len, osc_bundle_s_getPtr(x.b), 1);
			osc_bundle_s_setLen(x.b, len);
			arena::callerFree(a);
			int gone = 0;
			for(size_t k = 0; k < x.mod.m.size();) if(x.mod.m[k].addr == o.s){ x.mod.m.erase(x.mod.m.begin() + k); gone++; } else k++;
			if(gone > 1) probe("removed several messages at once");
		}else if(o.k == "concat"){
			B7 &y = S(o.A(1)), &d = S(o.A(2));
			long l1 = osc_bundle_s_getLen(x.b), l2 = osc_bundle_s_getLen(y.b);
			char *out = (char *)osc_mem_alloc(l1 + l2 - 16);
			int l = osc_bundle_s_concat(l1, osc_bundle_s_getPtr(x.b), l2, osc_bundle_s_getPtr(y.b), out);
			Bndl mod = x.mod;
			mod.m.insert(mod.m.end(), y.mod.m.begin(), y.mod.m.end());
			settle(d, l, out, mod);
		}else if(o.k == "union"){
			B7 &y = S(o.A(1)), &d = S(o.A(2));
			t_osc_bndl_s *r = osc_bundle_s_union(x.b, y.b);
			if(!r) failv("union", "no result");
			Bndl mod = x.mod;
			for(auto &e : y.mod.m) if(!has(mod, e.addr)) mod.m.push_back(e);
			osc_bundle_s_deepFree(d.b);
			d.b = r;
			d.mod = mod;
			verify(d, lk);
		}else if(o.k == "inter" || o.k == "diff"){
			B7 &y = S(o.A(1)), &d = S(o.A(2));
			long l1 = osc_bundle_s_getLen(x.b), l2 = osc_bundle_s_getLen(y.b), l = -1;
			char *out = o.A(3) ? (char *)osc_mem_alloc(l1 + l2) : nullptr;
			Bndl mod;
			mod.tt = x.mod.tt;
			auto f = o.k == "inter" ? osc_bundle_s_intersection : osc_bundle_s_difference;
			t_osc_err e = f(l1, osc_bundle_s_getPtr(x.b), l2, osc_bundle_s_getPtr(y.b), &l, &out);
			if(e) failv("setop", "error %lx", (long)e);
			if(o.k == "inter"){
				for(auto &q : x.mod.m) if(has(y.mod, q.addr) && !has(mod, q.addr)) mod.m.push_back(q);
			}else{
				for(auto &q : x.mod.m) if(!has(y.mod, q.addr) && !has(mod, q.addr)) mod.m.push_back(q);
				for(auto &q : y.mod.m) if(!has(x.mod, q.addr) && !has(mod, q.addr)) mod.m.push_back(q);
			}
			if(!mod.m.empty()) probe(o.k == "inter" ? "intersection not empty" : "difference not empty");
			settle(d, l, out, mod);
		}else if(o.k == "wrap"){
			if(!unpackMsg(o.s, m)) continue;
			std::string e = encMsg(m);
			char *src = arena::callerBytes(e.data(), e.size()), *out = o.A(1) ? (char *)osc_mem_alloc(e.size() + 20) : nullptr, own = 9;
			long l = -1;
			osc_bundle_s_wrapMessage((long)e.size(), src, &l, &out, &own);
			arena::callerFree(src);
			if(own != (o.A(1) ? 0 : 1)) failv("wrap", "wrapMessage says allocated = %d", own);
			Bndl mod;
			mod.m.push_back(m);
			settle(x, l, out, mod);
		}else if(o.k == "copy"){
			B7 &d = S(o.A(1));
			if(&d == &x) continue;
			t_osc_bndl_s *cp = nullptr;
			osc_bundle_s_deepCopy(&cp, x.b);
			osc_bundle_s_deepFree(d.b);
			d.b = cp;
			d.mod = x.mod;
			verify(d, lk);
		}else if(o.k == "time"){
			osc_bundle_s_setTimetag(osc_bundle_s_getLen(x.b), osc_bundle_s_getPtr(x.b), toTT((uint64_t)o.A(1)));
			x.mod.tt = (uint64_t)o.A(1);
		}else if(o.k == "empty"){
			if(o.A(1) == 0){
				osc_bundle_s_deepFree(x.b);
				x.b = osc_bundle_s_allocEmptyBundle();
			}else if(o.A(1) == 1) osc_bundle_s_setBundleID_b(x.b);
			else{
				osc_bundle_s_deepFree(x.b);
				Msg q("/first", {Val::I('i', 7)});
				Loose l(q);
				x.b = nullptr;
				osc_bundle_s_appendMessage_b(&x.b, l.m);
				x.mod = Bndl();
				x.mod.m.push_back(q);
				probe("appended to no bundle at all");
			}
			if(o.A(1) != 2) x.mod = Bndl();
		}else if(o.k == "look"){
			if(o.s.empty() || o.s[0] != '/' || o.s.find('\0') != std::string::npos) continue;
			lk = Look{o.s, o.A(1) != 0};
		}else continue;
		if(x.mod.m.size() > 110){ osc_bundle_s_setBundleID_b(x.b); x.mod = Bndl(); }
		verify(x, lk);
		if(x.mod.m.size() >= 3) big++;
		c.log(text(x.mod));
		stateHash(fnv(text(x.mod).data(), text(x.mod).size()));
	}
	for(auto &x : sl){ verify(x, Look{"", false}); osc_bundle_s_deepFree(x.b); }
	if(big) c.nontrivial();
}
Reg reg(Scenario{"L07", gen, run, 20000, 400000,
	"some bundle held at least three messages while it was edited and compared",
	"osc_bundle_s.c osc_message_s.c osc_atom_s.c osc_array.c osc_match.c osc_error.c osc_timetag.c osc_mem.c and the iterators, compiled from /repo",
	"the allocator (osc_set_mem) is simulated: guarded blocks, seeded contents and reuse",
	"addresses stored in bundles carry no pattern characters"});
}
