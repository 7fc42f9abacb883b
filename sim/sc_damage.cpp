// L02: a receiver fed damaged datagrams.
#include "om.h"
extern "C" {
#include "osc_query.h"
#include "osc_rset.h"
}
using namespace sim;
using namespace om;
namespace {
const char *KIND[] = {"datagram truncated", "datagram extended", "bit flipped", "byte overwritten", "length or word forged", "bytes spliced", "bytes removed", "bytes duplicated", "type tag forged", "bytes zeroed", "string terminator overwritten", "nested length forged"};
const int NK = 12;

void damage(std::string &b, int64_t kind, int64_t pos, int64_t val)
{
	if(pos < 0) pos = -(pos + 1);
	size_t n = b.size();
	int k = (int)(((kind % NK) + NK) % NK);
	if(!n && k != 1) return;
	static const uint32_t words[] = {0, 1, 3, 4, 7, 8, 15, 16, 20, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffc, 0x7ffffffc, 0x10000, 0xfffffff0};
	auto U = (uint64_t)val;
	switch(k){
	case 0: b.resize((uint64_t)pos % (n + 1)); break;
	case 1: for(uint64_t i = 0; i < (uint64_t)pos % 24 + 1; i++) b += (char)(mix64(U + i)); break;
	case 2: b[(uint64_t)pos / 8 % n] ^= (char)(1 << (pos % 8)); break;
	case 3: b[(uint64_t)pos % n] = (char)U; break;
	case 4: {
		if(n < 4) return;
		size_t o = ((uint64_t)pos % (n / 4)) * 4;
		uint32_t w = U % 3 == 0 ? rd32(b, o) + (uint32_t)(U / 3 % 17) - 8 : words[U / 3 % 16];
		b.replace(o, 4, be32(w));
		break;
	}
	case 5: { size_t o = (uint64_t)pos % n, s = U % n, l = (U >> 16) % 33; for(size_t i = 0; i < l && o + i < n && s + i < n; i++) b[o + i] = b[s + i]; break; }
	case 6: { size_t o = (uint64_t)pos % n; b.erase(o, U & 1 ? (U >> 1) % 9 + 1 : ((U >> 1) % 5 + 1) * 4); break; }
	case 7: { size_t o = (uint64_t)pos % n; std::string q = b.substr(o, U & 1 ? (U >> 1) % 9 + 1 : ((U >> 1) % 5 + 1) * 4); b.insert(o, q); break; }
	case 8: case 10: {
		// the pos-th comma / zero byte
		std::vector<size_t> at;
		for(size_t i = 16; i < n; i++) if(k == 8 ? b[i] == ',' : b[i] == 0) at.push_back(i);
		if(at.empty()) return;
		size_t o = at[(uint64_t)pos % at.size()];
		if(k == 8){
			o += 1 + U % 3;
			static const char tt[] = "ifsbthdcCuUIHTFN.SmrJjAxz\x80\xff,#";
			if(o < n) b[o] = tt[U / 3 % (sizeof tt - 1)];
		}else b[o] = (char)(U % 255 + 1);
		break;
	}
	case 9: { size_t o = (uint64_t)pos % n; for(size_t i = o; i < o + U % 13 && i < n; i++) b[i] = 0; break; }
	case 11: {
		// the length in front of a nested bundle
		std::vector<size_t> at;
		for(size_t i = 20; i + 8 <= n; i += 4) if(!memcmp(b.data() + i, "#bundle", 8)) at.push_back(i - 4);
		if(at.empty()) return;
		size_t o = at[(uint64_t)pos % at.size()];
		b.replace(o, 4, be32(U % 2 ? rd32(b, o) + (uint32_t)(U / 2 % 41) - 20 : words[U / 2 % 16]));
		break;
	}
	}
	fault(KIND[k]);
}
void textOf(char *t) { if(t){ volatile size_t n = strlen(t); (void)n; osc_mem_free(t); } }

void readAtom(t_osc_atom_s *a)
{
	osc_atom_s_getTypetag(a); osc_atom_s_getData(a); osc_atom_s_getInt(a); osc_atom_s_getInt64(a); osc_atom_s_getUInt64(a); osc_atom_s_getBool(a);
	osc_atom_s_getInt8(a); osc_atom_s_getUInt16(a); osc_atom_s_getInt32(a); osc_atom_s_getFloat(a); osc_atom_s_getDouble(a); osc_atom_s_getTimetag(a);
	osc_atom_s_sizeof(a); osc_atom_s_getBlobLen(a);
	long f = osc_atom_s_getFormattedSize(a);
	if(f >= 0 && f < 1000000){
		char *buf = arena::callerBuf(f + 1);
		osc_atom_s_nformat(buf, f + 1, a, 0);
		arena::callerFree(buf);
	}
	char *s = nullptr;
	osc_atom_s_getString(a, 0, &s);
	if(s) osc_mem_free(s);
	if(osc_atom_s_getTypetag(a) == 'b'){
		char *bl = nullptr;
		int32_t n = 0;
		osc_atom_s_getBlobCopy(&bl, &n, a);
		if(bl) osc_mem_free(bl);
		char *p = osc_atom_s_getBlob(a);
		volatile char x = 0;
		for(int32_t i = 0; i < osc_atom_s_getBlobLen(a); i++) x ^= p[4 + i];
	}
	t_osc_bndl_s *b = osc_atom_s_getBndl(a);
	if(b) osc_bundle_s_free(b);
	b = osc_atom_s_getBndlCopy(a);
	if(b) osc_bundle_s_deepFree(b);
}
// everything a receiver may do with bytes the validator accepted
void use(const std::string &bytes, const std::string &pat, int what)
{
	long n = (long)bytes.size();
	char *d = arena::callerBytes(bytes.data(), bytes.size());
	char *pt = arena::callerBytes(pat.c_str(), pat.size() + 1);
	std::vector<std::string> addrs;
	t_osc_bndl_it_s *it = osc_bndl_it_s_get(n, d);
	while(osc_bndl_it_s_hasNext(it)){
		t_osc_msg_s *m = osc_bndl_it_s_next(it);
		if(osc_message_s_getAddress(m)) addrs.push_back(osc_message_s_getAddress(m));
		t_osc_msg_it_s *ai = osc_msg_it_s_get(m);
		while(osc_msg_it_s_hasNext(ai)) readAtom(osc_msg_it_s_next(ai));
		osc_msg_it_s_destroy(ai);
		t_osc_atom_s *a = nullptr;
		for(int i = osc_message_s_getArgCount(m) - 1; i >= 0; i--) osc_message_s_getArg(m, i, &a);
		if(a) osc_atom_s_free(a);
		t_osc_msg_s *c = nullptr;
		osc_message_s_copy(&c, m);
		osc_message_s_cacheDataOffsets(c);
		a = nullptr;
		for(int i = 0; i < osc_message_s_getArgCount(c); i++){ osc_message_s_getArg(c, i, &a); readAtom(a); }
		if(a) osc_atom_s_free(a);
		osc_message_s_free(c);
		textOf(osc_message_s_format(m));
		t_osc_msg_u *u = osc_message_s_deserialize(m);
		textOf(osc_message_u_format(u));
		osc_message_u_free(u);
		char *nb = arena::callerBuf(osc_message_s_getSize(m) + 64);
		osc_message_s_renameCopy(nb, m, 8, (char *)"/renamed");
		arena::callerFree(nb);
	}
	osc_bndl_it_s_destroy(it);
	t_osc_msg_s *first = osc_bundle_s_getFirstMsg(nullptr);
	(void)first;
	for(int fm = 0; fm < 2; fm++){
		int r;
		osc_bundle_s_addressExists(n, d, pt, fm, &r);
		osc_bundle_s_addressIsBound(n, d, pt, fm, &r);
		t_osc_msg_ar_s *ar = osc_bundle_s_lookupAddress(n, d, pt, fm);
		if(ar) osc_message_array_s_free(ar);
	}
	osc_bundle_s_getFirstFullMatch(n, d, pt);
	osc_bundle_s_getFirstEqualAddr(n, d, pt);
	long f = osc_bundle_s_getFormattedSize(n, d);
	char *t = osc_bundle_s_format(n, d);
	if(f > 0 && t && (long)strlen(t) > f) failv("format", "text of %zu bytes announced as %ld", strlen(t), f);
	textOf(t);
	if(f > 0 && f < 1000000){
		long k = 1 + (long)(mix64(bytes.size() + what) % (f + 1));
		char *b = arena::callerBuf(k);
		osc_bundle_s_nformat(b, k, n, d, 0);
		arena::callerFree(b);
	}
	t_osc_bndl_u *u = osc_bundle_s_deserialize(n, d);
	textOf(osc_bundle_u_format(u));
	t_osc_bndl_s *s = osc_bundle_u_serialize(u);
	if(!s) failv("reserialise", "a decoded bundle cannot be serialised");
	Bndl again;
	std::string why;
	if(!fromBytes(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s), again, why)) failv("reserialise", "re-serialising an accepted datagram gives malformed bytes (%s): %s", why.c_str(), esc(bytes).c_str());
	if(osc_error_bundleSanityCheck(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s))) failv("reserialise", "the validator refuses what was re-serialised from an accepted datagram");
	osc_bundle_s_deepFree(s);
	int r;
	osc_bundle_u_addressExists(u, pt, 0, &r);
	t_osc_msg_ar_u *au = osc_bundle_u_lookupAddress(u, pt, what & 1);
	if(au) osc_message_array_u_free(au);
	osc_bundle_u_free(u);
	// edits work on copies
	auto copy = [&] {
		char *q = (char *)osc_mem_alloc(n);
		memcpy(q, d, n);
		return osc_bundle_s_alloc(n, q);
	};
	t_osc_bndl_s *x = copy(), *y = copy(), *z = nullptr;
	osc_bundle_s_deepCopy(&z, x);
	osc_bundle_s_deepFree(z);
	switch(what % 8){
	case 0: z = osc_bundle_s_union(x, y); if(z) osc_bundle_s_deepFree(z); break;
	case 1: case 2: {
		long ol = 0;
		char *op = nullptr;
		if(what % 8 == 1) osc_bundle_s_intersection(n, osc_bundle_s_getPtr(x), n, osc_bundle_s_getPtr(y), &ol, &op);
		else osc_bundle_s_difference(n, osc_bundle_s_getPtr(x), n, osc_bundle_s_getPtr(y), &ol, &op);
		if(op) osc_mem_free(op);
		break;
	}
	case 3: {
		long l = n;
		if(!addrs.empty()){
			char *ad = arena::callerBytes(addrs[0].c_str(), addrs[0].size() + 1);
			osc_bundle_s_removeMessage(ad, &l, osc_bundle_s_getPtr(x), 1);
			arena::callerFree(ad);
		}
		break;
	}
	case 4: {
		t_osc_msg_s *m = osc_bundle_s_getFirstMsg(y);
		if(m){
			osc_bundle_s_appendMessage_b(&x, m);
			osc_message_s_free(m);
		}
		break;
	}
	case 5: {
		char *buf = arena::callerBuf(n + n - 16);
		osc_bundle_s_concat(n, osc_bundle_s_getPtr(x), n, osc_bundle_s_getPtr(y), buf);
		arena::callerFree(buf);
		break;
	}
	case 6: {
		char *sel[2] = {pt, (char *)"/a"};
		t_osc_rset *rs = nullptr;
		osc_query_select(2, sel, (int32_t)n, d, what & 8, &rs);
		if(rs) osc_rset_free(rs);
		break;
	}
	default: {
		t_osc_msg_s *m = osc_bundle_s_getFirstMsg(y);
		if(m){
			long bl = 0;
			char *bp = nullptr;
			char al = 0;
			osc_bundle_s_wrapMessage(osc_message_s_getSize(m), osc_message_s_getAddress(m), &bl, &bp, &al);
			if(bp){
				if(osc_error_bundleSanityCheck((int)bl, bp)) failv("wrap", "an accepted message wrapped in a bundle is refused");
				osc_mem_free(bp);
			}
			osc_message_s_free(m);
		}
	}
	}
	osc_bundle_s_deepFree(x);
	osc_bundle_s_deepFree(y);
	if(memcmp(d, bytes.data(), n)) failv("altered", "reading an accepted datagram altered it");
	arena::callerFree(pt);
	arena::callerFree(d);
}
void gen(Rng &r, Plan &p, int tier)
{
	arena::genPolicy(r, p);
	int n = (int)r.range(2, tier ? 24 : 12);
	GenOpt o;
	o.longAddr = true;
	for(int i = 0; i < n; i++){
		o.depth = (int)r.range(0, 3);
		o.nestedTime = true;
		Bndl b = genBndl(r, o);
		if(b.m.empty() && r.chance(3, 4)) b.m.push_back(genMsg(r, o));
		if(r.chance(1, 40)){
			// deep nesting
			int d = (int)r.range(5, 120);
			for(int k = 0; k < d; k++){ Bndl c; c.m.push_back(Msg("/n", {Val::B(b)})); b = c; }
		}
		std::string s = enc(b);
		if(r.chance(1, 15)){ s = s.substr(0, r.chance(1, 2) ? 16 : 8); for(size_t k = r.below(60); k; k--) s += (char)(r.chance(1, 2) ? 0 : r.below(256)); }
		std::vector<int64_t> a{(int64_t)r.below(16), r.range(0, 1)};
		int nd = r.chance(1, 5) ? 0 : (int)r.range(1, r.chance(1, 4) ? 6 : 2);
		for(int k = 0; k < nd; k++){ a.push_back(r.range(0, NK - 1)); a.push_back((int64_t)r.below(r.chance(1, 2) ? 64 : 4096)); a.push_back((int64_t)r.below(1u << 20)); }
		p.op("pkt", a, s);
		if(r.chance(1, 4)) p.op("pattern", {}, r.chance(1, 6) ? genBadPattern(r, genAddr(r)) : genPattern(r, genAddr(r)));
		if(r.chance(1, 5)) p.op("msg", {(int64_t)r.range(0, NK - 1), (int64_t)r.below(4096), (int64_t)r.below(1u << 20)}, encMsg(genMsg(r, o)));
	}
}
void run(const Plan &p, Ctx &c)
{
	std::string pat = "/a";
	int acc = 0, rej = 0;
	for(size_t i = 0; i < p.ops.size(); i++){
		const Op &o = p.ops[i];
		c.at(i, o);
		if(o.k == "pattern"){
			if(!o.s.empty() && o.s.find('\0') == std::string::npos) pat = o.s;
			continue;
		}
		if(o.k == "msg"){
			std::string m = be32((uint32_t)o.s.size()) + o.s;
			damage(m, o.A(0), o.A(1), o.A(2));
			// the caller of the message validator vouches for the size only
			if(m.size() < 4) continue;
			int32_t sz = (int32_t)rd32(m, 0);
			if(sz > (long)m.size() - 4) continue;
			char *d = arena::callerBytes(m.data(), sz > 0 ? sz + 4 : 4);
			t_osc_err e = osc_error_msgSanityCheck(d);
			Msg mm;
			std::string why;
			bool good = sz > 0 && decMsg(m.substr(4, sz), mm, why);
			if(good && e) failv("refused", "the message validator refuses a well-formed message: %s", text(mm).c_str());
			arena::callerFree(d);
			if(!e) use(std::string("#bundle\0\0\0\0\0\0\0\0\0", 16) + m.substr(0, sz + 4), pat, (int)o.A(1) & 15);
			c.logf("msg %d", e != 0);
			continue;
		}
		if(o.k != "pkt") continue;
		std::string b = o.s;
		for(size_t k = 2; k + 2 < o.a.size(); k += 3) damage(b, o.a[k], o.a[k + 1], o.a[k + 2]);
		char *d = arena::callerBytes(b.data(), b.size());
		t_osc_err e = osc_error_bundleSanityCheck((int)b.size(), d);
		int cnt = 0;
		t_osc_err e2 = osc_bundle_s_getMsgCount((int)b.size(), d, &cnt);
		if(memcmp(d, b.data(), b.size())) failv("altered", "the validator altered the datagram");
		arena::callerFree(d);
		Bndl m;
		std::string why;
		bool good = dec(b, m, why);
		if(good && e) failv("refused", "the validator refuses a well-formed bundle (error 0x%llx): %s", (unsigned long long)e, text(m).c_str());
		if(b.size() < 16 && !e) failv("accepted", "%zu bytes accepted as a bundle", b.size());
		if(!e != !e2) failv("count", "validator says 0x%llx, message count says 0x%llx", (unsigned long long)e, (unsigned long long)e2);
		if(good && cnt != (int)m.m.size()) failv("count", "%d messages counted, expected %zu", cnt, m.m.size());
		if(e){ rej++; }
		else{
			acc++;
			if(!good) probe("accepted although not strictly well-formed");
			use(b, pat, (int)o.A(0));
			if(good){
				// an undamaged datagram is handled normally whatever came before
				char *q = arena::callerBytes(b.data(), b.size());
				t_osc_bndl_u *u = osc_bundle_s_deserialize((long)b.size(), q);
				arena::callerFree(q);
				Bndl w = m, g = fromBndlU(u);
				dropTime(w);
				if(g != w) failv("decode", "decoded %s, received %s", text(g).c_str(), text(w).c_str());
				osc_bundle_u_free(u);
			}
		}
		stateHash(fnv(b.data(), b.size()));
		c.logf("pkt %llx %d", (unsigned long long)e, cnt);
	}
	if(acc && rej) c.nontrivial();
}
Reg reg(Scenario{"L02", gen, run, 30000, 600000,
	"at least one datagram of the run was accepted and at least one refused",
	"osc_error.c (the validators), the decoders, iterators, lookups, set operations and formatters of bundles, messages and atoms, osc_match.c, osc_query.c, compiled from /repo",
	"the damaging link and the allocator are simulated; received bytes lie in exact-size blocks with guard zones",
	"a receiver uses a datagram only after the validator accepted it; nesting up to 120 levels"});
}
