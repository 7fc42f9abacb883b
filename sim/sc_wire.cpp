// L01: senders, relays and receivers exchanging datagrams over a simulated lossy link.
#include "om.h"
#include <algorithm>
using namespace sim;
using namespace om;
namespace {
const int NS = 3;
struct Packet { uint64_t due, seq; std::string bytes; Bndl mod; int hop; };
struct Node { t_osc_bndl_u *b; Bndl mod; };

void checkMsgViews(t_osc_msg_s *m, const Msg &w)
{
	if(strcmp(osc_message_s_getAddress(m), w.addr.c_str())) failv("address", "decoded address %s, sent %s", esc(osc_message_s_getAddress(m)).c_str(), esc(w.addr).c_str());
	if(osc_message_s_getArgCount(m) != (int)w.v.size()) failv("argcount", "decoded %d arguments, sent %zu", osc_message_s_getArgCount(m), w.v.size());
	char *tt = osc_message_s_getTypetags(m);
	if(!tt || tags(w) != tt) failv("typetags", "decoded type tags %s, sent %s", tt ? esc(tt).c_str() : "(null)", tags(w).c_str());
	if((long)osc_message_s_getSize(m) != (long)encMsg(w).size()) failv("size", "decoded size %ld, sent %zu", (long)osc_message_s_getSize(m), encMsg(w).size());
	for(size_t i = 0; i < w.v.size(); i++){
		t_osc_atom_s *a = nullptr;
		osc_message_s_getArg(m, (int)i, &a);
		if(!a) failv("arg", "argument %zu of %s is missing", i, text(w).c_str());
		Val v = fromAtomS(a);
		if(!(v == w.v[i])) failv("arg", "argument %zu is %s, sent %s", i, text(v).c_str(), text(w.v[i]).c_str());
		osc_atom_s_free(a);
	}
}
// what one receiver does with one datagram; returns the editable bundle it keeps
t_osc_bndl_u *receive(const Packet &p, int how)
{
	char *d = arena::callerBytes(p.bytes.data(), p.bytes.size());
	long n = (long)p.bytes.size();
	if(osc_error_bundleSanityCheck(n, d) != OSC_ERR_NONE) failv("sanity", "the validator refuses a datagram libo produced: %s", text(p.mod).c_str());
	int cnt = -1;
	osc_bundle_s_getMsgCount((int)n, d, &cnt);
	if(cnt != (int)p.mod.m.size()) failv("count", "%d messages counted, sent %zu", cnt, p.mod.m.size());
	if(fromTT(osc_bundle_s_getTimetag(n, d)) != p.mod.tt) failv("timetag", "time tag changed on the wire");
	t_osc_bndl_it_s *it = osc_bndl_it_s_get(n, d);
	size_t k = 0;
	while(osc_bndl_it_s_hasNext(it)){
		t_osc_msg_s *m = osc_bndl_it_s_next(it);
		if(k >= p.mod.m.size()) failv("count", "more messages than were sent");
		checkMsgViews(m, p.mod.m[k]);
		k++;
	}
	osc_bndl_it_s_destroy(it);
	if(k != p.mod.m.size()) failv("count", "%zu messages iterated, sent %zu", k, p.mod.m.size());
	t_osc_bndl_u *u = osc_bundle_s_deserialize(n, d);
	if(memcmp(d, p.bytes.data(), n)) failv("altered", "decoding altered the received bytes");
	arena::callerFree(d);          // the decoded bundle owns everything it refers to
	Bndl want = p.mod, got = fromBndlU(u);
	dropTime(want);
	if(got != want) failv("decode", "decoded %s, sent %s", text(got).c_str(), text(want).c_str());
	std::string w = enc(want);
	t_osc_bndl_s *s = osc_bundle_u_serialize(u);
	if(!s || osc_bundle_s_getLen(s) != (long)w.size() || memcmp(osc_bundle_s_getPtr(s), w.data(), w.size())) failv("reserialise", "re-serialising the decoded bundle gives other bytes for %s", text(want).c_str());
	osc_bundle_s_deepFree(s);
	(void)how;
	return u;
}
std::string send(t_osc_bndl_u *b, const Bndl &mod, int how)
{
	std::string w = enc(mod), got;
	long size = osc_bundle_u_getSerializedSize(b);
	if(size != (long)w.size() || size % 4) failv("announced", "announced size %ld, expected %zu for %s", size, w.size(), text(mod).c_str());
	if(how == 0){
		t_osc_bndl_s *s = osc_bundle_u_serialize(b);
		if(!s) failv("serialise", "no serialised bundle");
		got.assign(osc_bundle_s_getPtr(s), osc_bundle_s_getLen(s));
		osc_bundle_s_deepFree(s);
	}else if(how == 1){
		// a buffer too small for the header stays as it is, and no buffer is written past its end
		size_t few = (size_t)size * 7 % 16, some = 16 + (size_t)(size - 16) / 3;
		char *buf = arena::callerBuf(few);
		memset(buf, 0x6b, few);
		if(osc_bundle_u_nserialize(buf, few, b)) failv("announced", "serialised into %zu bytes", few);
		for(size_t i = 0; i < few; i++) if(buf[i] != 0x6b) failv("announced", "byte %zu of a buffer of %zu written", i, few);
		arena::callerFree(buf);
		buf = arena::callerBuf(some);
		size_t n = osc_bundle_u_nserialize(buf, some, b);
		if(n > some || n < 16) failv("announced", "%zu bytes serialised into %zu", n, some);
		arena::callerFree(buf);
		buf = arena::callerBuf(size);
		n = osc_bundle_u_nserialize(buf, size, b);
		got.assign(buf, n);
		arena::callerFree(buf);
	}else if(how == 2){
		char *buf = arena::callerBuf(size + 40);
		size_t n = osc_bundle_u_nserialize(buf, size + 40, b);
		if(n > (size_t)size + 40) failv("announced", "%zu bytes written, %ld announced", n, size);
		got.assign(buf, n);
		arena::callerFree(buf);
	}else{
		// message by message into a serialised bundle
		t_osc_bndl_s *s = osc_bundle_s_allocEmptyBundle();
		t_osc_bndl_it_u *it = osc_bndl_it_u_get(b);
		while(osc_bndl_it_u_hasNext(it)){
			t_osc_msg_u *u = osc_bndl_it_u_next(it);
			t_osc_msg_s *m = osc_message_u_serialize(u);
			if(!m) failv("serialise", "no serialised message");
			if((long)osc_message_s_getSize(m) + 4 != osc_message_u_getSerializedSize(u)) failv("announced", "message announced %ld bytes, wrote %ld", osc_message_u_getSerializedSize(u), (long)osc_message_s_getSize(m) + 4);
			if(osc_bundle_s_appendMessage_b(&s, m)) failv("append", "append refused");
			osc_message_s_deepFree(m);
		}
		osc_bndl_it_u_destroy(it);
		got.assign(osc_bundle_s_getPtr(s), osc_bundle_s_getLen(s));
		osc_bundle_s_deepFree(s);
	}
	Bndl dec1;
	std::string why;
	if(!dec(got, dec1, why)) failv("wellformed", "serialised form is not well-formed OSC (%s): %s", why.c_str(), text(mod).c_str());
	if(got != w) failv("bytes", "serialised bytes differ from the reference encoding of %s: %s", text(mod).c_str(), esc(got).c_str());
	return got;
}
void gen(Rng &r, Plan &p, int tier)
{
	arena::genPolicy(r, p);
	p.cfg["loss"] = r.range(0, 40);
	p.cfg["dup"] = r.range(0, 30);
	p.cfg["delay"] = r.pick(std::vector<int64_t>{0, 100, 5000, 200000});
	GenOpt o;
	o.longAddr = true;
	o.depth = (int)r.range(0, 3);
	o.maxArgs = (int)r.range(0, r.chance(1, 10) ? 40 : 6);
	o.maxMsgs = 4;
	int n = (int)r.range(6, tier ? 60 : 30);
	auto bigMsg = [&] {
		Msg m = genMsg(r, o);
		if(r.chance(1, 12)) m.addr += "/" + std::string(r.below(300), 'y');
		if(r.chance(1, 15)) m.v.push_back(Val::S(std::string(r.below(5000), 'k')));
		if(r.chance(1, 15)) m.v.push_back(Val::Blob(std::string(r.below(3000), (char)r.below(256))));
		return m;
	};
	if(r.chance(3, 4)) for(int s = 0, k = (int)r.range(1, NS); s < k; s++) for(int q = (int)r.range(1, 4); q > 0; q--) p.op("add", {s, r.range(0, 2)}, encMsg(bigMsg()));
	for(int i = 0; i < n; i++){
		int s = (int)r.below(NS);
		switch(r.below(9)){
		case 0: case 1: p.op("add", {s, r.range(0, 2)}, encMsg(bigMsg())); break;
		case 2: { Val v = genVal(r, o); auto a = packA(v); p.op("arg", {s, r.range(0, 9), r.range(0, 2), r.range(0, 5), a[0], a[1], r.chance(1, 2)}, packS(v)); break; }
		case 3: { Bndl b = genBndl(r, o);
			if(r.chance(1, 12)) for(int d = (int)r.range(3, r.chance(1, 3) ? 40 : 12); d > 0; d--){   // bundles in bundles
				Bndl q;
				if(r.chance(1, 4)) q.m.push_back(Msg("/s", {Val::S("x")}));
				q.m.push_back(Msg("/n", {Val::B(b)}));
				b = q;
			}
			p.op("nest", {s, r.range(0, 9), r.range(0, 1)}, enc(b)); break; }
		case 4: p.op("drop", {s, r.range(0, 9)}); break;
		default: p.op("send", {s, r.range(0, 3), r.range(0, 99), r.range(0, 99), r.range(0, 1000), r.range(0, 1000), r.chance(1, 3) ? (int64_t)r.next() : 0, r.range(0, 3)}); break;
		}
		if(r.chance(1, 3)) p.op("tick", {r.range(0, 3000)});
	}
}
void run(const Plan &p, Ctx &c)
{
	Node nodes[NS];
	for(auto &n : nodes) n.b = osc_bundle_u_alloc();
	std::vector<Packet> link;
	uint64_t now = 0, seq = 0;
	int delivered = 0;
	auto nthMsg = [&](Node &n, int64_t k) -> t_osc_msg_u * {
		if(n.mod.m.empty()) return nullptr;
		int want = (int)(((k % (int64_t)n.mod.m.size()) + n.mod.m.size()) % n.mod.m.size());
		t_osc_bndl_it_u *it = osc_bndl_it_u_get(n.b);
		t_osc_msg_u *m = nullptr;
		for(int i = 0; i <= want && osc_bndl_it_u_hasNext(it); i++) m = osc_bndl_it_u_next(it);
		osc_bndl_it_u_destroy(it);
		return m;
	};
	auto idx = [&](Node &n, int64_t k) { return (size_t)(((k % (int64_t)n.mod.m.size()) + n.mod.m.size()) % n.mod.m.size()); };
	auto deliver = [&](uint64_t until) {
		for(;;){
			auto it = std::min_element(link.begin(), link.end(), [](auto &a, auto &b) { return a.due != b.due ? a.due < b.due : a.seq < b.seq; });
			if(it == link.end() || it->due > until) break;
			Packet k = *it;
			link.erase(it);
			if(k.seq < seq - 1 && delivered) { }
			t_osc_bndl_u *u = receive(k, 0);
			delivered++;
			c.logf("deliver %zu %016llx", k.bytes.size(), (unsigned long long)fnv(k.bytes.data(), k.bytes.size()));
			stateHash(fnv(k.bytes.data(), k.bytes.size()));
			if(k.mod.m.size() >= 2) c.nontrivial();
			if(k.hop > 0){
				// the receiver keeps the decoded bundle as its own and sends it on
				Node &n = nodes[k.hop % NS];
				osc_bundle_u_free(n.b);
				n.b = u;
				n.mod = k.mod;
				dropTime(n.mod);
				probe("decoded bundle edited and sent on");
			}else osc_bundle_u_free(u);
		}
	};
	for(size_t i = 0; i < p.ops.size(); i++){
		const Op &o = p.ops[i];
		c.at(i, o);
		Node &n = nodes[((o.A(0) % NS) + NS) % NS];
		if(o.k == "add"){
			Msg m;
			if(!unpackMsg(o.s, m)) continue;
			for(auto &v : m.v) if(v.t == '.'){ v.b = std::make_shared<Bndl>(*v.b); dropTime(*v.b); }
			osc_bundle_u_addMsg(n.b, toMsgU(m, (int)(o.A(1) % 3)));
			n.mod.m.push_back(m);
		}else if(o.k == "arg"){
			Val v;
			if(n.mod.m.empty() || !unpack(o.A(4), o.A(5), o.s, v)) continue;
			t_osc_msg_u *m = nthMsg(n, o.A(1));
			Msg &mm = n.mod.m[idx(n, o.A(1))];
			if(mm.v.size() > 60) continue;
			Val w = v;
			if(v.t == '.' && o.A(6)) w.s = "u";
			int where = (int)(o.A(2) % 3);
			size_t pos = mm.v.empty() ? 0 : (size_t)o.A(3) % mm.v.size();
			if(o.A(2) < 0 || o.A(3) < 0) continue;
			putVal(m, w, where, (int)pos);
			if(where == 0) mm.v.push_back(v);
			else mm.v.insert(mm.v.begin() + (where == 1 ? 0 : pos), v);
		}else if(o.k == "nest"){
			Bndl b;
			if(n.mod.m.empty() || !unpackBndl(o.s, b, true)) continue;
			// a bundle received earlier, time tag and all, becomes an argument
			Msg &mm = n.mod.m[idx(n, o.A(1))];
			char *raw = arena::callerBytes(o.s.data(), o.s.size());
			osc_message_u_appendBndl(nthMsg(n, o.A(1)), (long)o.s.size(), raw);
			arena::callerFree(raw);
			dropTime(b);
			mm.v.push_back(Val::B(b));
			probe("received bundle nested");
		}else if(o.k == "drop"){
			if(n.mod.m.empty()) continue;
			t_osc_msg_u *m = nthMsg(n, o.A(1));
			osc_bundle_u_removeMsg(n.b, m);
			osc_message_u_free(m);
			n.mod.m.erase(n.mod.m.begin() + idx(n, o.A(1)));
		}else if(o.k == "send"){
			Packet k;
			k.mod = n.mod;
			k.bytes = send(n.b, n.mod, (int)(((o.A(1) % 4) + 4) % 4));
			k.hop = (int)(o.A(7) & 3);
			if(o.A(6)){
				char *d = arena::callerBytes(k.bytes.data(), k.bytes.size());
				osc_bundle_s_setTimetag((long)k.bytes.size(), d, toTT((uint64_t)o.A(6)));
				k.bytes.assign(d, k.bytes.size());
				arena::callerFree(d);
				k.mod.tt = (uint64_t)o.A(6);
				if(k.bytes != enc(k.mod)) failv("retag", "setting the time tag changed other bytes");
			}
			if(o.A(2) < p.C("loss")){ fault("datagram lost"); }
			else{
				k.due = now + (uint64_t)(o.A(4) * p.C("delay") / 1000);
				k.seq = seq++;
				for(auto &q : link) if(q.due > k.due){ fault("datagram overtook another"); break; }
				if(p.C("delay") && o.A(4)) fault("datagram delayed");
				link.push_back(k);
			}
			if(o.A(3) < p.C("dup")){
				fault("datagram duplicated");
				k.due = now + (uint64_t)(o.A(5) * p.C("delay") / 1000);
				k.seq = seq++;
				link.push_back(k);
			}
			if(k.bytes.size() > 4000) probe("datagram over 4000 bytes");
		}else if(o.k == "tick"){
			if(o.A(0) < 0 || o.A(0) > 1000000) continue;
			now += (uint64_t)o.A(0);
			simTime((uint64_t)o.A(0));
			deliver(now);
		}
		size_t tot = 0;
		for(auto &m : n.mod.m) tot += m.v.size();
		if(n.mod.m.size() > 30 || tot > 300 || enc(n.mod).size() > 60000){ osc_bundle_u_clear(n.b); n.mod.m.clear(); }
		c.log(text(n.mod));
	}
	deliver(~0ull);
	for(auto &n : nodes){
		send(n.b, n.mod, 0);
		osc_bundle_u_free(n.b);
	}
}
Reg reg(Scenario{"L01", gen, run, 20000, 400000,
	"at least one delivered datagram held two or more messages and was decoded, compared and re-serialised",
	"osc_bundle_u.c osc_bundle_s.c osc_message_u.c osc_message_s.c osc_atom_u.c osc_atom_s.c osc_error.c osc_mem.c osc_util.c osc_timetag.c and the iterators, compiled from /repo",
	"the link (loss, duplication, reordering, delay), the clock that paces it and the allocator are simulated",
	"addresses are NUL-free and begin with a slash; the editable form holds no time tags, so a decoded bundle is compared with the sent one apart from them"});
}
