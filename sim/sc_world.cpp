// L03, L04: ownership and independence from memory contents. A broad program over the whole API in
// which everything observable is logged, and the plans of the other scenarios, run again under an
// accounting allocator (L03) and under several allocators (L04).
#include "om.h"
#include "world.h"
#include "shared.h"
#include <cmath>
extern "C" {
#include "osc_linkedlist.h"
#include "osc_hashtab.h"
#include "osc_rset.h"
#include "osc_query.h"
#include "osc_parser.h"
#include "osc_match.h"
#include "osc_expr.h"
#include "osc_expr_rec.h"
}
using namespace sim;
using namespace om;
namespace {
enum { CAP = 5 };
struct World {
	Ctx &c;
	std::vector<t_osc_msg_u *> M;
	std::vector<t_osc_bndl_u *> B;
	std::vector<t_osc_bndl_s *> S;
	std::vector<t_osc_atom_u *> A;
	std::vector<t_osc_atom_ar_u *> R;
	std::vector<t_osc_msg_s *> Q;            // serialised messages that own their bytes
	explicit World(Ctx &x) : c(x) {}
	template <class T, class F> void push(std::vector<T *> &v, T *x, F f)
	{
		if(!x){ c.log("null"); return; }
		v.push_back(x);
		if(v.size() > CAP){ f(v[0]); v.erase(v.begin()); }
	}
	void pm(t_osc_msg_u *m) { push(M, m, osc_message_u_free); }
	void pb(t_osc_bndl_u *b) { push(B, b, osc_bundle_u_free); }
	void ps(t_osc_bndl_s *s) { push(S, s, osc_bundle_s_deepFree); }
	void pa(t_osc_atom_u *a) { push(A, a, osc_atom_u_free); }
	void pr(t_osc_atom_ar_u *r) { push(R, r, osc_atom_array_u_free); }
	void pq(t_osc_msg_s *q) { push(Q, q, osc_message_s_deepFree); }
	template <class T> T *at(std::vector<T *> &v, int64_t i) { return v.empty() ? nullptr : v[(uint64_t)i % v.size()]; }
	template <class T> T *take(std::vector<T *> &v, int64_t i)
	{
		if(v.empty()) return nullptr;
		size_t k = (uint64_t)i % v.size();
		T *x = v[k];
		v.erase(v.begin() + k);
		return x;
	}
	void str(const char *what, const char *s) { c.log(std::string(what) + " " + (s ? esc(s) : "(null)")); }
	void bytes(const char *what, const char *p, long n) { c.log(std::string(what) + " " + (p ? esc(std::string(p, n < 0 ? 0 : n)) : "(null)")); }
	void all()
	{
		for(auto x : M) osc_message_u_free(x);
		for(auto x : B) osc_bundle_u_free(x);
		for(auto x : S) osc_bundle_s_deepFree(x);
		for(auto x : A) osc_atom_u_free(x);
		for(auto x : R) osc_atom_array_u_free(x);
		for(auto x : Q) osc_message_s_deepFree(x);
	}
};
struct Str {                                 // a string of the caller's
	char *p;
	explicit Str(const std::string &s) : p(arena::callerBytes(s.c_str(), strlen(s.c_str()) + 1)) {}
	~Str() { arena::callerFree(p); }
	operator char *() { return p; }
};
struct Buf {
	size_t n;
	char *p;
	explicit Buf(size_t k) : n(k), p(arena::callerBuf(k)) { memset(p, 0x7e, k); }
	~Buf() { arena::callerFree(p); }
};
bool typed(t_osc_atom_ar_u *r)   // every atom of the array has been given a value
{
	for(long i = 0; i < osc_atom_array_u_getLen(r); i++) if(!osc_atom_u_getTypetag((t_osc_atom_u *)osc_atom_array_u_get(r, i))) return false;
	return true;
}
bool okAddr(const std::string &s) { return s.size() > 1 && s[0] == '/' && s.back() != '/' && s.find("//") == std::string::npos && s.find('\0') == std::string::npos; }
template <class F> double num(F f) { return (double)f(); }
void atomU(World &w, t_osc_atom_u *a, size_t cap)
{
	char t = osc_atom_u_getTypetag(a);
	w.c.logf("u %c %d %d %d %" PRId64 " %u %u %u %" PRIu64 " %d %a %a %d", t ? t : '0', osc_atom_u_getInt8(a), osc_atom_u_getInt16(a), osc_atom_u_getInt32(a), osc_atom_u_getInt64(a),
		osc_atom_u_getUInt8(a), osc_atom_u_getUInt16(a), osc_atom_u_getUInt32(a), osc_atom_u_getUInt64(a), osc_atom_u_getInt(a), (double)osc_atom_u_getFloat(a), osc_atom_u_getDouble(a), osc_atom_u_getBool(a));
	w.c.logf("time %" PRIx64 " size %zu wire %ld str %d blob %d text %ld", fromTT(osc_atom_u_getTimetag(a)), osc_atom_u_sizeof(a), osc_atom_u_getSerializedSize(a), osc_atom_u_getStringLen(a), osc_atom_u_getBlobLen(a), osc_atom_u_getFormattedSize(a));
	w.str("sptr", osc_atom_u_getStringPtr(a));
	char *s = nullptr;
	osc_atom_u_getString(a, 0, &s);
	w.str("string", s);
	osc_mem_free(s);
	{
		Buf b(cap);
		char *q = b.p;
		osc_atom_u_getString(a, cap, &q);
		w.bytes("cut", b.p, cap);
	}
	s = osc_atom_u_format(a);
	w.str("text", s);
	osc_mem_free(s);
	{
		Buf b(cap);
		w.c.logf("%ld", osc_atom_u_nformat(b.p, cap, a, 0));
		w.bytes("cut", b.p, cap);
	}
	char *bl = nullptr;
	int32_t bn = 0;
	osc_atom_u_getBlobCopy(a, &bn, &bl);
	w.bytes("blobcopy", bl, bn);
	osc_mem_free(bl);
	long n = osc_atom_u_getSerializedSize(a);
	{
		Buf b(n);
		w.c.logf("%zu", osc_atom_u_nserialize(b.p, n, a));
		w.bytes("wire", b.p, n);
	}
	t_osc_atom_s *as = osc_atom_u_serialize(a);
	if(as){
		w.c.logf("as %c", osc_atom_s_getTypetag(as));
		osc_mem_free(osc_atom_s_getData(as));
		osc_atom_s_free(as);
	}
}
void atomS(World &w, t_osc_atom_s *a, size_t cap)
{
	char t = osc_atom_s_getTypetag(a);
	w.c.logf("s %c %d %d %d %" PRId64 " %u %u %u %" PRIu64 " %d %a %a %d", t ? t : '0', osc_atom_s_getInt8(a), osc_atom_s_getInt16(a), osc_atom_s_getInt32(a), osc_atom_s_getInt64(a),
		osc_atom_s_getUInt8(a), osc_atom_s_getUInt16(a), osc_atom_s_getUInt32(a), osc_atom_s_getUInt64(a), osc_atom_s_getInt(a), (double)osc_atom_s_getFloat(a), osc_atom_s_getDouble(a), osc_atom_s_getBool(a));
	w.c.logf("time %" PRIx64 " size %zu str %d blob %d text %ld", fromTT(osc_atom_s_getTimetag(a)), osc_atom_s_sizeof(a), osc_atom_s_getStringLen(a), osc_atom_s_getBlobLen(a), osc_atom_s_getFormattedSize(a));
	char *s = nullptr;
	osc_atom_s_getString(a, 0, &s);
	w.str("string", s);
	osc_mem_free(s);
	{
		Buf b(cap);
		char *q = b.p;
		osc_atom_s_getString(a, cap, &q);
		w.bytes("cut", b.p, cap);
	}
	s = osc_atom_s_format(a);
	w.str("text", s);
	osc_mem_free(s);
	{
		Buf b(cap);
		w.c.logf("%ld", osc_atom_s_nformat(b.p, cap, a, 0));
		w.bytes("cut", b.p, cap);
	}
	char *bl = nullptr;
	int32_t bn = 0;
	osc_atom_s_getBlobCopy(&bl, &bn, a);
	w.bytes("blobcopy", bl, bn);
	osc_mem_free(bl);
	if(cap >= 4){
		Buf b(cap);
		char *q = b.p;
		bn = (int32_t)cap;
		osc_atom_s_getBlobCopy(&q, &bn, a);
		w.bytes("blobcut", b.p, cap);
	}
	if(t == '.'){
		t_osc_bndl_s *v = osc_atom_s_getBndl(a);
		if(v){ w.bytes("nested", osc_bundle_s_getPtr(v), osc_bundle_s_getLen(v)); osc_bundle_s_free(v); }
		v = osc_atom_s_getBndlCopy(a);
		if(v){ w.bytes("nested copy", osc_bundle_s_getPtr(v), osc_bundle_s_getLen(v)); osc_bundle_s_deepFree(v); }
	}
}
void msgU(World &w, t_osc_msg_u *m) { char *s = osc_message_u_format(m); w.str("msg", s); osc_mem_free(s); }
void msgS(World &w, t_osc_msg_s *m) { char *s = osc_message_s_format(m); w.str("msg", s); osc_mem_free(s); }
void onU(t_osc_msg_u *m, void *x) { msgU(*(World *)x, m); }
void onS(t_osc_msg_s *m, void *x) { msgS(*(World *)x, m); }
void bndlU(World &w, t_osc_bndl_u *b)
{
	w.c.logf("count %d", osc_bundle_u_getMsgCount(b));
	char *s = osc_bundle_u_format(b);
	w.str("bundle", s);
	osc_mem_free(s);
}
void bndlS(World &w, t_osc_bndl_s *b) { w.bytes("bundle", osc_bundle_s_getPtr(b), osc_bundle_s_getLen(b)); }
t_osc_bndl_s *adopt(const std::string &e)
{
	char *p = (char *)osc_mem_alloc(e.size());
	memcpy(p, e.data(), e.size());
	return osc_bundle_s_alloc((long)e.size(), p);
}
enum Need { N_NONE, N_VAL, N_ADDR, N_PAT, N_STR, N_MSG, N_BNDL, N_TEXT };
struct Def { const char *k; Need need; int weight; void (*f)(World &, const Op &); };
#define OP(name) [](World & w, const Op &o)
// integer arguments from 2 on are free; 0 and 1 hold the packed value of N_VAL operations
#define P(i) o.A(2 + (i))
const Def defs[] = {
	// ---- atoms
	{"a_new", N_VAL, 6, OP() { Val v; if(unpackVal(o, 0, v)) w.pa(newAtom(v)); }},
	{"a_alloc", N_VAL, 3, OP() {
		Val v;
		if(!unpackVal(o, 0, v)) return;
		switch(v.t){
		case 's': { Str s(v.s); w.pa(osc_atom_u_allocWithString(s)); break; }
		case 'd': w.pa(osc_atom_u_allocWithDouble(v.f)); break;
		case 'f': w.pa(osc_atom_u_allocWithFloat((float)v.f)); break;
		case 't': w.pa(osc_atom_u_allocWithTimetag(toTT((uint64_t)v.i))); break;
		case '.': w.pa(osc_atom_u_allocWithBndl(toBndlU(*v.b))); break;
		default: w.pa(osc_atom_u_allocWithInt32((int32_t)v.i));
		} }},
	{"a_empty", N_NONE, 1, OP() { w.pa(osc_atom_u_alloc()); }},
	{"a_set", N_VAL, 6, OP() { Val v; auto a = w.at(w.A, P(0)); if(a && unpackVal(o, 0, v)) setAtom(a, v); }},
	{"a_ptr", N_STR, 2, OP() {
		auto a = w.at(w.A, P(0));
		if(!a) return;
		Str s(o.s);
		char *d = nullptr;
		osc_util_strdup(&d, s);
		osc_atom_u_setStringPtr(a, d);
		osc_atom_u_setShouldFreePtr(a, 1);
	}},
	{"a_bool", N_NONE, 1, OP() { auto a = w.at(w.A, P(0)); if(a) osc_atom_u_setBool(a, (int)(P(1) & 1)); }},
	{"a_bs", N_BNDL, 2, OP() {
		auto a = w.at(w.A, P(0));
		Bndl b;
		if(!a || !unpackBndl(o.s, b, false)) return;
		std::string e = enc(b);
		char *p = arena::callerBytes(e.data(), e.size());
		if(P(1) & 1) osc_atom_u_setBndl_s(a, (long)e.size(), p);
		else osc_atom_u_setBndl(a, (long)e.size(), p);
		arena::callerFree(p);
	}},
	{"a_copy", N_NONE, 3, OP() { auto a = w.at(w.A, P(0)); if(a) w.pa(osc_atom_u_copy(a)); }},
	{"a_get", N_NONE, 5, OP() { auto a = w.at(w.A, P(0)); if(a) atomU(w, a, (uint64_t)P(1) % 40); }},
	{"a_neg", N_NONE, 2, OP() { auto a = w.at(w.A, P(0)); if(a) osc_atom_u_negate(a); }},
	{"a_clear", N_NONE, 1, OP() { auto a = w.take(w.A, P(0)); if(a){ osc_atom_u_clear(a); osc_atom_u_free(a); } }},
	// ---- editable messages
	{"m_new", N_ADDR, 5, OP() { t_osc_msg_u *m = osc_message_u_alloc(); Str s(o.s); osc_message_u_setAddress(m, s); w.pm(m); }},
	{"m_with", N_VAL, 3, OP() {
		Val v;
		if(!unpackVal(o, 0, v)) return;
		char a[] = "/with/x";
		switch(v.t){
		case 's': { Str s(v.s); w.pm(osc_message_u_allocWithString(a, s)); break; }
		case 'd': w.pm(osc_message_u_allocWithDouble(a, v.f)); break;
		case 'f': w.pm(osc_message_u_allocWithFloat(a, (float)v.f)); break;
		case 't': w.pm(osc_message_u_allocWithTimetag(a, toTT((uint64_t)v.i))); break;
		case 'b': { std::string e = enc(v); char *p = arena::callerBytes(e.data(), e.size()); w.pm(osc_message_u_allocWithBlob(a, p)); arena::callerFree(p); break; }
		case 'i': w.pm(osc_message_u_allocWithInt(a, (int)v.i)); break;
		default: w.pm(osc_message_u_allocWithAddress(a));
		} }},
	{"m_addr", N_ADDR, 2, OP() { auto m = w.at(w.M, P(0)); if(m){ Str s(o.s); osc_message_u_setAddress(m, s); } }},
	{"m_addrptr", N_ADDR, 1, OP() {
		auto m = w.at(w.M, P(0));
		if(!m) return;
		Str s(o.s);
		char *d = nullptr, *old = nullptr;
		osc_util_strdup(&d, s);
		osc_message_u_setAddressPtr(m, d, &old);
		w.str("old", old);
		osc_mem_free(old);
	}},
	{"m_put", N_VAL, 8, OP() { Val v; auto m = w.at(w.M, P(0)); if(m && unpackVal(o, 0, v)) putVal(m, v, (int)((uint64_t)P(1) % 3), (int)P(2)); }},
	{"m_atom", N_NONE, 4, OP() {
		auto m = w.at(w.M, P(0));
		auto a = m ? w.take(w.A, P(1)) : nullptr;
		if(!a) return;
		if(!osc_atom_u_getTypetag(a)) osc_atom_u_setNil(a);   // an atom that was never given a value has no type to send
		switch((uint64_t)P(2) % 3){
		case 0: osc_message_u_appendAtom(m, a); break;
		case 1: osc_message_u_prependAtom(m, a); break;
		default: osc_message_u_insertAtom(m, a, (int)P(3));
		} }},
	{"m_over", N_VAL, 4, OP() { Val v; auto m = w.at(w.M, P(0)); auto a = m ? osc_message_u_getArg(m, (int)P(1)) : nullptr; if(a && unpackVal(o, 0, v)) setAtom(a, v); }},
	{"m_rm", N_NONE, 3, OP() {
		auto m = w.at(w.M, P(0));
		auto a = m ? osc_message_u_getArg(m, (int)P(1)) : nullptr;
		if(!a) return;
		osc_message_u_removeAtom(m, a);
		if(P(2) & 1) w.pa(a);
		else osc_atom_u_free(a);
	}},
	{"m_clear", N_NONE, 1, OP() { auto m = w.at(w.M, P(0)); if(m) osc_message_u_clearArgs(m); }},
	{"m_copy", N_NONE, 3, OP() { auto m = w.at(w.M, P(0)); t_osc_msg_u *d = nullptr; if(m){ osc_message_u_deepCopy(&d, m); w.pm(d); } }},
	{"m_see", N_NONE, 4, OP() {
		auto m = w.at(w.M, P(0));
		if(!m) return;
		w.str("address", osc_message_u_getAddress(m));
		w.c.logf("args %d size %u wire %ld text %ld", osc_message_u_getArgCount(m), osc_message_u_getSize(m), osc_message_u_getSerializedSize(m), osc_message_u_getFormattedSize(m));
		for(int i = -1; i <= osc_message_u_getArgCount(m); i++){ auto a = osc_message_u_getArg(m, i); if(a) atomU(w, a, (uint64_t)P(1) % 24); else w.c.log("none"); }
		t_osc_msg_it_u *it = osc_msg_it_u_get(m);
		for(int k = 0; k < 2; k++){ while(osc_msg_it_u_hasNext(it)) w.c.logf("%c", osc_atom_u_getTypetag(osc_msg_it_u_next(it))); osc_msg_it_u_reset(it); }
		osc_msg_it_u_destroy(it);
	}},
	{"m_fmt", N_NONE, 3, OP() {
		auto m = w.at(w.M, P(0));
		if(!m) return;
		msgU(w, m);
		Buf b((uint64_t)P(1) % 64);
		w.c.logf("%ld", osc_message_u_nformat(b.p, (long)b.n, m, (int)((uint64_t)P(2) % 4)));
		w.bytes("cut", b.p, (long)b.n);
	}},
	{"m_ser", N_NONE, 3, OP() {
		auto m = w.at(w.M, P(0));
		if(!m) return;
		t_osc_msg_s *q = osc_message_u_serialize(m);
		if(q) w.bytes("wire", osc_message_s_getPtr(q), osc_message_s_getSize(q) + 4);
		w.pq(q);
	}},
	{"m_nser", N_NONE, 3, OP() {
		auto m = w.at(w.M, P(0));
		if(!m) return;
		long n = osc_message_u_getSerializedSize(m);
		long k = P(1) & 1 ? n : (long)((uint64_t)P(2) % (n + 1));
		Buf b(k);
		size_t r = osc_message_u_nserialize(b.p, k, m);
		w.c.logf("%zu", r);
		if(k == n) w.bytes("wire", b.p, k);
	}},
	{"m_arr", N_NONE, 2, OP() { auto m = w.at(w.M, P(0)); if(m) w.pr(osc_message_u_getArgArrayCopy(m)); }},
	{"m_setarr", N_NONE, 2, OP() { auto m = w.at(w.M, P(0)); auto r = w.at(w.R, P(1)); if(m && r && typed(r) && osc_message_u_getArgCount(m) < 40) osc_message_u_setArgArrayCopy(m, r); }},
	{"m_fromarr", N_ADDR, 2, OP() { auto r = w.at(w.R, P(0)); if(r && typed(r)){ Str s(o.s); w.pm(osc_message_u_allocWithArray(s, r)); } }},
	{"m_free", N_NONE, 1, OP() { auto m = w.take(w.M, P(0)); if(m) osc_message_u_free(m); }},
	// ---- arrays of atoms
	{"r_copy", N_NONE, 2, OP() { auto r = w.at(w.R, P(0)); if(r) w.pr(osc_atom_array_u_copy(r)); }},
	{"r_into", N_NONE, 2, OP() {
		auto r = w.at(w.R, P(0));
		if(!r) return;
		t_osc_atom_ar_u *d = P(1) & 1 ? nullptr : w.take(w.R, P(2));
		if(d == r || (d && osc_atom_array_u_getLen(d) > 60)){ w.pr(d); return; }
		if(!d && w.R.empty()) return;
		if(d) probe("array copied into another");
		osc_atom_array_u_copyInto(&d, r, (long)((uint64_t)P(3) % 5));
		w.pr(d);
	}},
	{"r_see", N_NONE, 4, OP() {
		auto r = w.at(w.R, P(0));
		if(!r) return;
		long n = osc_atom_array_u_getLen(r);
		w.c.logf("len %ld", n);
		for(long i = -1; i <= n; i++){ auto a = osc_atom_array_u_get(r, i); if(a) atomU(w, (t_osc_atom_u *)a, (uint64_t)P(1) % 24); }
		double *d = nullptr; float *f = nullptr; int32_t *i32 = nullptr; int64_t *i64 = nullptr; uint32_t *u32 = nullptr; uint64_t *u64 = nullptr; char *b = nullptr;
		osc_atom_array_u_getDoubleArray(r, &d); osc_atom_array_u_getFloatArray(r, &f); osc_atom_array_u_getInt32Array(r, &i32); osc_atom_array_u_getInt64Array(r, &i64);
		osc_atom_array_u_getUInt32Array(r, &u32); osc_atom_array_u_getUInt64Array(r, &u64); osc_atom_array_u_getBoolArray(r, &b);
		for(long i = 0; i < n; i++) w.c.logf("%a %a %d %" PRId64 " %u %" PRIu64 " %d", d[i], (double)f[i], i32[i], i64[i], u32[i], u64[i], b[i]);
		for(void *p : {(void *)d, (void *)f, (void *)i32, (void *)i64, (void *)u32, (void *)u64, (void *)b}) osc_mem_free(p);
		char *s = nullptr;
		long len = 0;
		osc_atom_array_u_getStringArray(r, &len, &s, P(2) & 1 ? ", " : NULL);
		w.bytes("strings", s, len);
		osc_mem_free(s);
	}},
	// ---- editable bundles
	{"b_new", N_BNDL, 4, OP() { Bndl b; if(unpackBndl(o.s, b, false)) w.pb(toBndlU(b, (int)(P(0) & 1))); }},
	{"b_add", N_NONE, 6, OP() {
		auto b = w.at(w.B, P(0));
		if(!b || osc_bundle_u_getMsgCount(b) > 30) return;
		switch((uint64_t)P(2) % 5){
		case 0: { auto m = w.take(w.M, P(1)); if(m) osc_bundle_u_addMsg(b, m); break; }
		case 1: { auto m = w.take(w.M, P(1)); if(m) osc_bundle_u_addMsgWithoutDups(b, m); break; }
		case 2: { auto m = w.at(w.M, P(1)); if(m) osc_bundle_u_addMsgCopy(b, m); break; }
		case 3: { auto m = w.at(w.M, P(1)); if(m) osc_bundle_u_addMsgWithoutDupsCopy(b, m); break; }
		default: { auto m = w.take(w.M, P(1)); if(m) osc_bundle_u_replaceMessage(b, m); }
		} }},
	{"b_rm", N_ADDR, 2, OP() { auto b = w.at(w.B, P(0)); if(b){ Str s(o.s); osc_bundle_u_removeMessage(b, s); } }},
	{"b_take", N_NONE, 3, OP() {
		auto b = w.at(w.B, P(0));
		auto m = b ? osc_bundle_u_getFirstMsg(b) : nullptr;
		for(int k = (int)((uint64_t)P(1) % 4); m && k; k--){ auto n = osc_message_u_next(m); if(!n) break; m = n; }
		if(!m) return;
		osc_bundle_u_removeMsg(b, m);
		if(P(2) & 1) w.pm(m);
		else osc_message_u_free(m);
	}},
	{"b_copy", N_NONE, 2, OP() { auto b = w.at(w.B, P(0)); t_osc_bndl_u *d = nullptr; if(b){ osc_bundle_u_copy(&d, b); w.pb(d); } }},
	{"b_set", N_NONE, 2, OP() {
		auto x = w.at(w.B, P(0)), y = w.at(w.B, P(1));
		if(!x) return;
		t_osc_bndl_u *d = P(3) & 1 ? osc_bundle_u_alloc() : nullptr;
		if(P(2) & 1) osc_bundle_u_union(x, y, &d);
		else osc_bundle_u_intersection(x, y, &d);
		w.pb(d);
	}},
	{"b_look", N_PAT, 3, OP() {
		auto b = w.at(w.B, P(0));
		if(!b) return;
		Str s(o.s);
		int r = 7;
		osc_bundle_u_addressExists(b, s, (int)(P(1) & 1), &r);
		w.c.logf("exists %d", r);
		osc_bundle_u_addressIsBound(b, s, (int)(P(1) & 1), &r);
		w.c.logf("bound %d", r);
		auto m = osc_bundle_u_getFirstFullMatch(b, s);
		if(m) msgU(w, m);
		t_osc_msg_ar_u *ar = osc_bundle_u_lookupAddress(b, s, (int)(P(1) & 1));
		for(long i = 0; i < osc_message_array_u_getLen(ar); i++) msgU(w, osc_message_array_u_get(ar, i));
		auto d = w.at(w.B, P(2));
		if(d && d != b && (P(3) & 1) && osc_bundle_u_getMsgCount(d) < 30 && ar) osc_bundle_u_addMsgArrayCopy(d, ar);
		osc_message_array_u_free(ar);
	}},
	{"b_see", N_NONE, 3, OP() {
		auto b = w.at(w.B, P(0));
		if(!b) return;
		bndlU(w, b);
		osc_bundle_u_getMessagesWithCallback(b, onU, &w);
		Buf q((uint64_t)P(1) % 120);
		w.c.logf("%ld", P(2) & 1 ? osc_bundle_u_nformat(q.p, (long)q.n, b, (int)((uint64_t)P(3) % 3)) : osc_bundle_u_nformatNestedBndl(q.p, (long)q.n, b, (int)((uint64_t)P(3) % 3)));
		w.bytes("cut", q.p, (long)q.n);
	}},
	{"b_ser", N_NONE, 4, OP() { auto b = w.at(w.B, P(0)); if(b){ auto s = osc_bundle_u_serialize(b); if(s) bndlS(w, s); w.ps(s); } }},
	{"b_nser", N_NONE, 3, OP() {
		auto b = w.at(w.B, P(0));
		if(!b) return;
		long n = osc_bundle_u_getSerializedSize(b);
		long k = P(1) & 1 ? n : (long)((uint64_t)P(2) % (n + 1));
		Buf q(k);
		w.c.logf("%zu", osc_bundle_u_nserialize(q.p, k, b));
		if(k == n) w.bytes("wire", q.p, k);
	}},
	{"b_clear", N_NONE, 1, OP() { auto b = w.at(w.B, P(0)); if(b) osc_bundle_u_clear(b); }},
	{"b_free", N_NONE, 1, OP() { auto b = w.take(w.B, P(0)); if(b) osc_bundle_u_free(b); }},
	{"b_nest", N_NONE, 2, OP() { auto m = w.at(w.M, P(0)); auto b = m ? w.take(w.B, P(1)) : nullptr; if(b){ if(P(2) & 1) osc_message_u_appendBndl_u(m, b); else osc_message_u_prependBndl_u(m, b); } }},
	{"b_explode", N_NONE, 2, OP() {
		auto m = w.at(w.M, P(0));
		if(!m || !okAddr(osc_message_u_getAddress(m) ? osc_message_u_getAddress(m) : "")) return;
		t_osc_bndl_u *d = osc_bundle_u_alloc();
		char sep[] = "/";
		t_osc_err e = osc_message_u_explode(d, m, (int)((uint64_t)P(1) % 4), sep);
		w.c.logf("%ld", (long)e);
		bndlU(w, d);
		w.pb(d);
	}},
	// ---- serialised bundles
	{"s_new", N_BNDL, 4, OP() { Bndl b; if(unpackBndl(o.s, b, true)) w.ps(adopt(enc(b))); }},
	{"s_empty", N_NONE, 1, OP() { w.ps(osc_bundle_s_allocEmptyBundle()); }},
	{"s_copy", N_NONE, 2, OP() { auto s = w.at(w.S, P(0)); t_osc_bndl_s *d = nullptr; if(s){ osc_bundle_s_deepCopy(&d, s); w.ps(d); } }},
	{"s_app", N_NONE, 4, OP() {
		if(w.S.empty() || w.Q.empty()) return;
		t_osc_bndl_s *&s = w.S[(uint64_t)P(0) % w.S.size()];
		if(osc_bundle_s_getLen(s) < 4000) osc_bundle_s_appendMessage_b(&s, w.at(w.Q, P(1)));
	}},
	{"s_repl", N_NONE, 2, OP() {
		auto s = w.at(w.S, P(0));
		auto q = w.at(w.Q, P(1));
		auto f = s && q ? osc_bundle_s_getFirstMsg(s) : nullptr;
		if(!f) return;
		long len = osc_bundle_s_getLen(s), cap = len;
		char *p = osc_bundle_s_getPtr(s);
		osc_bundle_s_replaceMessage(&cap, &len, &p, f, q);
		osc_bundle_s_setLen(s, len);
		osc_bundle_s_setPtr(s, p);
		osc_message_s_free(f);
	}},
	{"s_rm", N_ADDR, 2, OP() {
		auto s = w.at(w.S, P(0));
		if(!s) return;
		Str a(o.s);
		long len = osc_bundle_s_getLen(s);
		osc_bundle_s_removeMessage(a, &len, osc_bundle_s_getPtr(s), 1);
		osc_bundle_s_setLen(s, len);
	}},
	{"s_set", N_NONE, 3, OP() {
		auto x = w.at(w.S, P(0)), y = w.at(w.S, P(1));
		if(!x) return;
		long l = 0;
		char *p = nullptr;
		switch((uint64_t)P(2) % 3){
		case 0: w.ps(osc_bundle_s_union(x, y)); return;
		case 1: osc_bundle_s_intersection(osc_bundle_s_getLen(x), osc_bundle_s_getPtr(x), osc_bundle_s_getLen(y), osc_bundle_s_getPtr(y), &l, &p); break;
		default: osc_bundle_s_difference(osc_bundle_s_getLen(x), osc_bundle_s_getPtr(x), osc_bundle_s_getLen(y), osc_bundle_s_getPtr(y), &l, &p);
		}
		if(p) w.ps(osc_bundle_s_alloc(l, p));
	}},
	{"s_look", N_PAT, 3, OP() {
		auto s = w.at(w.S, P(0));
		if(!s) return;
		Str a(o.s);
		long n = osc_bundle_s_getLen(s);
		char *p = osc_bundle_s_getPtr(s);
		int r = 7;
		osc_bundle_s_addressExists(n, p, a, (int)(P(1) & 1), &r);
		w.c.logf("exists %d", r);
		osc_bundle_s_addressIsBound(n, p, a, (int)(P(1) & 1), &r);
		w.c.logf("bound %d", r);
		char *m = osc_bundle_s_getFirstFullMatch(n, p, a);
		w.c.logf("first %ld", m ? (long)(m - p) : -1L);
		m = osc_bundle_s_getFirstEqualAddr(n, p, a);
		w.c.logf("equal %ld", m ? (long)(m - p) : -1L);
		t_osc_msg_ar_s *ar = osc_bundle_s_lookupAddress(n, p, a, (int)(P(1) & 1));
		if(ar){
			for(long i = 0; i < osc_message_array_s_getLen(ar); i++) msgS(w, osc_message_array_s_get(ar, i));
			t_osc_msg_ar_s *c2 = osc_message_array_s_copy(ar);
			w.c.logf("%ld", osc_message_array_s_getLen(c2));
			osc_message_array_s_free(c2);
			osc_message_array_s_free(ar);
		}
	}},
	{"s_see", N_NONE, 4, OP() {
		auto s = w.at(w.S, P(0));
		if(!s) return;
		long n = osc_bundle_s_getLen(s);
		char *p = osc_bundle_s_getPtr(s);
		int cnt = -1;
		osc_bundle_s_getMsgCount((int)n, p, &cnt);
		w.c.logf("count %d time %" PRIx64, cnt, fromTT(osc_bundle_s_getTimetag(n, p)));
		osc_bundle_s_getMessagesWithCallback((int)n, p, onS, &w);
		char *t = P(1) & 1 ? osc_bundle_s_format(n, p) : osc_bundle_s_pformat(s);
		w.str("text", t);
		osc_mem_free(t);
		Buf q((uint64_t)P(2) % 120);
		w.c.logf("%ld", P(3) & 1 ? osc_bundle_s_nformat(q.p, (long)q.n, n, p, (int)((uint64_t)P(2) % 3)) : osc_bundle_s_nformatNestedBndl(q.p, (long)q.n, n, p, (int)((uint64_t)P(2) % 3)));
		w.bytes("cut", q.p, (long)q.n);
	}},
	{"s_args", N_NONE, 4, OP() {
		auto s = w.at(w.S, P(0));
		if(!s) return;
		t_osc_bndl_it_s *it = osc_bndl_it_s_get(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s));
		if(P(2) & 1){ if(osc_bndl_it_s_hasNext(it)) osc_bndl_it_s_next(it); osc_bndl_it_s_reset(it); }
		while(osc_bndl_it_s_hasNext(it)){
			t_osc_msg_s *m = osc_bndl_it_s_next(it);
			int k = osc_message_s_getArgCount(m);
			w.c.logf("%s %s %d", esc(osc_message_s_getAddress(m)).c_str(), osc_message_s_getTypetags(m) ? osc_message_s_getTypetags(m) : "none", k);
			t_osc_msg_it_s *ai = osc_msg_it_s_get(m);
			while(osc_msg_it_s_hasNext(ai)) atomS(w, osc_msg_it_s_next(ai), (uint64_t)P(1) % 24);
			osc_msg_it_s_destroy(ai);
			for(int i = 0; i <= k; i++){
				t_osc_atom_s *a = nullptr;
				osc_message_s_getArg(m, i, &a);
				w.c.logf("%d %d", osc_message_s_getTypetag(m, i), a ? osc_atom_s_getTypetag(a) : -1);
				osc_atom_s_free(a);
			}
		}
		osc_bndl_it_s_destroy(it);
	}},
	{"s_deser", N_NONE, 3, OP() { auto s = w.at(w.S, P(0)); if(s){ auto b = osc_bundle_s_deserialize(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s)); if(b) bndlU(w, b); w.pb(b); } }},
	{"s_explode", N_NONE, 2, OP() {
		auto s = w.at(w.S, P(0));
		if(!s) return;
		t_osc_bndl_s *d = nullptr, *f = nullptr;
		char sep[] = "/";
		w.c.logf("%ld", (long)osc_bundle_s_explode(&d, s, (int)((uint64_t)P(1) % 4), sep));
		if(!d) return;
		bndlS(w, d);
		w.c.logf("%ld", (long)osc_bundle_s_flatten(&f, d, (int)((uint64_t)P(2) % 4), sep, (int)(P(3) & 1)));
		w.ps(d);
		if(f){ bndlS(w, f); w.ps(f); }
	}},
	{"s_bytes", N_NONE, 2, OP() { auto s = w.at(w.S, P(0)); if(s) bndlS(w, s); }},
	{"s_time", N_NONE, 1, OP() { auto s = w.at(w.S, P(0)); if(s) osc_bundle_s_setTimetag(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s), toTT((uint64_t)P(1))); }},
	{"s_text", N_TEXT, 3, OP() {
		Str t(o.s);
		t_osc_bndl_u *b = nullptr;
		t_osc_err e = osc_parser_parseString((long)strlen(t), t, &b);
		w.c.logf("%d", e != 0);
		if(!e && b) w.pb(b);
	}},
	{"s_query", N_PAT, 2, OP() {
		auto s = w.at(w.S, P(0));
		if(!s) return;
		Str a(o.s);
		char *sel[1] = {a};
		t_osc_rset *rs = nullptr;
		for(int k = 0; k <= (P(1) & 1); k++) osc_query_select(1, sel, (int32_t)osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s), (int)(P(2) & 1), &rs);
		if(!rs) return;
		if(osc_rset_getUnmatched(rs)) bndlS(w, osc_rset_getUnmatched(rs));
		osc_rset_free(rs);
	}},
	// ---- serialised messages
	{"q_new", N_MSG, 3, OP() {
		Msg m;
		if(!unpackMsg(o.s, m)) return;
		t_osc_msg_u *u = toMsgU(m);
		w.pq(osc_message_u_serialize(u));
		osc_message_u_free(u);
	}},
	{"q_copy", N_NONE, 2, OP() {
		auto q = w.at(w.Q, P(0));
		if(!q) return;
		t_osc_msg_s *d = nullptr;
		osc_message_s_copy(&d, q);
		msgS(w, d);
		if(P(1) & 1) osc_message_s_cacheDataOffsets(d);
		for(int i = 0; i <= osc_message_s_getArgCount(d); i++){ t_osc_atom_s *a = nullptr; osc_message_s_getArg(d, i, &a); if(a) atomS(w, a, 5); osc_atom_s_free(a); }
		osc_message_s_free(d);
	}},
	{"q_cache", N_NONE, 2, OP() { auto q = w.at(w.Q, P(0)); if(q) osc_message_s_cacheDataOffsets(q); }},
	{"q_see", N_NONE, 3, OP() {
		auto q = w.at(w.Q, P(0));
		if(!q) return;
		msgS(w, q);
		t_osc_atom_s *a = nullptr;
		for(int i = 0; i <= osc_message_s_getArgCount(q); i++){ osc_message_s_getArg(q, i, &a); if(a) atomS(w, a, (uint64_t)P(1) % 20); }
		osc_atom_s_free(a);
		Buf b((uint64_t)P(2) % 64);
		w.c.logf("%ld", osc_message_s_nformat(b.p, (long)b.n, q, (int)((uint64_t)P(3) % 3)));
		w.bytes("cut", b.p, (long)b.n);
	}},
	{"q_set", N_NONE, 2, OP() {
		auto q = w.at(w.Q, P(0));
		if(!q) return;
		t_osc_atom_s *a = nullptr;
		osc_message_s_getArg(q, (int)((uint64_t)P(1) % 4), &a);
		if(a){
			switch(osc_atom_s_getTypetag(a)){
			case 'i': osc_atom_s_setInt32(a, (int32_t)P(2)); break;
			case 'f': osc_atom_s_setFloat(a, (float)P(2)); break;
			case 'd': osc_atom_s_setDouble(a, (double)P(2)); break;
			case 'h': osc_atom_s_setInt64(a, P(2)); break;
			case 't': osc_atom_s_setTimetag(a, toTT((uint64_t)P(2))); break;
			default: osc_atom_s_negate(a);
			}
			atomS(w, a, 9);
			t_osc_atom_u *u = osc_atom_s_deserialize(a);
			w.pa(u);
			osc_atom_s_free(a);
		}
	}},
	{"q_deser", N_NONE, 2, OP() { auto q = w.at(w.Q, P(0)); if(q) w.pm(osc_message_s_deserialize(q)); }},
	{"q_rename", N_ADDR, 2, OP() {
		auto q = w.at(w.Q, P(0));
		if(!q || !okAddr(o.s)) return;
		Str a(o.s);
		size_t n = osc_message_s_getSize(q) + o.s.size() + 16;
		Buf b(n);
		int32_t k = osc_message_s_renameCopy(b.p, q, (int32_t)strlen(a), a);
		w.bytes("renamed", b.p, k > 0 ? k + 4 : 0);
	}},
	{"q_wrap", N_NONE, 1, OP() {
		auto q = w.at(w.Q, P(0));
		if(!q) return;
		char *p = nullptr, own = 0;
		long n = 0;
		osc_bundle_s_wrapMessage(osc_message_s_getSize(q), osc_message_s_getPtr(q) + 4, &n, &p, &own);
		if(p) w.ps(osc_bundle_s_alloc(n, p));
	}},
	{"q_free", N_NONE, 1, OP() { auto q = w.take(w.Q, P(0)); if(q) osc_message_s_deepFree(q); }},
};
const std::vector<std::string> texts = {"/a : 1", "/a : [1, 2.5, \"x\"]\n/b/c : true", "/n : {\n/x : 1\n}", "/bad : [1, ", "/a :", "{", "/x : \"unterminated", "/s : 'c'", "/t : nil\n/u", "junk", "/a : 1\n/a/b : {/q : {/r : 2}}"};
}
namespace world {
void gen(Rng &r, Plan &p, int tier)
{
	GenOpt o;
	o.depth = 1; o.maxArgs = 3; o.maxMsgs = 3;
	// most programs favour a few operations, so that they meet each other's results often
	std::vector<int> weight;
	for(auto &d : defs) weight.push_back(d.weight);
	if(r.chance(3, 4)){
		// one kind of object, and what it is made from
		const char kind = "amrbsq"[r.below(6)];
		for(size_t j = 0; j < weight.size(); j++){
			if(defs[j].k[0] == kind) weight[j] *= 8;
			if(kind == 'r' && defs[j].k == std::string("m_arr")) weight[j] += 40;
			if(kind == 'r' && (defs[j].k == std::string("m_put") || defs[j].k == std::string("m_with"))) weight[j] += 20;
		}
		for(int64_t j = r.range(0, 4); j > 0; j--) weight[r.below(weight.size())] += 30;
	}
	int total = 0;
	for(int x : weight) total += x;
	int n = (int)r.range(10, tier ? 90 : 50);
	std::vector<std::string> used;
	auto addr = [&] { if(!used.empty() && r.chance(1, 2)) return r.pick(used); used.push_back(genAddr(r)); return used.back(); };
	for(int i = 0; i < n; i++){
		int k = (int)r.below(total);
		const Def *d = defs;
		while(k >= weight[d - defs]){ k -= weight[d - defs]; d++; }
		std::vector<int64_t> a = {0, 0};
		std::string s;
		switch(d->need){
		case N_VAL: { Val v = genVal(r, o); a = packA(v); a.resize(2); s = packS(v); break; }
		case N_ADDR: s = addr(); break;
		case N_PAT: s = r.chance(1, 2) ? addr() : genPattern(r, addr()); break;
		case N_STR: s = genStr(r, false); break;
		case N_MSG: { Msg m = genMsg(r, o); m.addr = addr(); s = encMsg(m); break; }
		case N_BNDL: { Bndl b = genBndl(r, o); for(auto &m : b.m) m.addr = addr(); s = enc(b); break; }
		case N_TEXT: s = r.pick(texts); break;
		default: break;
		}
		for(int j = 0; j < 4; j++) a.push_back(r.chance(1, 2) ? r.range(0, 5) : r.chance(1, 8) ? genInt(r, 'i') : r.range(0, 60));
		p.op(d->k, a, s);
	}
}
void run(const Plan &p, Ctx &c)
{
	World w(c);
	for(size_t i = 0; i < p.ops.size(); i++){
		const Op &o = p.ops[i];
		c.at(i, o);
		const Def *d = nullptr;
		for(auto &x : defs) if(o.k == x.k) d = &x;
		if(!d) continue;
		if((d->need == N_ADDR || d->need == N_PAT) && !okAddr(o.s)) continue;
		d->f(w, o);
		stateHash(mix64(w.M.size() + w.B.size() * 10 + w.S.size() * 100 + w.A.size() * 1000 + w.R.size() * 10000 + w.Q.size() * 100000) ^ fnv(o.k.data(), o.k.size()));
	}
	w.all();
}
}
namespace {
// ---------------------------------------------------------------- plans of the other scenarios
const char *subs[] = {"world", "L01", "L06", "L07", "L08", "L09", "L10", "L11", "L17", "L18", "L02", "L13", "L15", "L16", "L12", "docs"};
enum { DOCS = 15 };
// what the library documents about its own functions, from tables it builds on first use and keeps
const std::vector<std::string> functions = {"+", "-", "*", "/", "%", "==", "<", "&&", "=", "+=", "++", "pow", "sin", "abs", "min", "max", "mean", "sum", "length", "join", "split", "strlen", "bound", "exists", "emptybundle", "map", "apply", "if", "lambda", "range", "aseq", "nth", "scale", "clip", "sort", "reverse", "int32", "string", "timetag", "typetags", "value", "assign", "delete", "eval", "compile", "pi", "e", "nosuchfunction"};
const std::vector<std::string> categories = {"/math/operator/arithmetic", "/math/operator/relational", "/math/operator/logical", "/math/operator/assignment", "/math/arithmetic", "/math/trigonometric", "/math/power", "/math/conversion", "/math/specialfunction", "/math/constant", "/vector", "/statistics", "/string/function", "/string/operator", "/predicate", "/conditional", "/core", "/nosuchcategory", "/doc/category/core", "/doc/category/statistics"};
void docsOp(Ctx &c, const Op &o)
{
	uint64_t k = (uint64_t)o.A(1);
	switch((uint64_t)o.A(0) % 4){
	case 0: {
		t_osc_bndl_s *b;
		{ arena::SharedScope s; b = osc_expr_getCategories(); }
		c.log("categories " + (b ? esc(std::string(osc_bundle_s_getPtr(b), osc_bundle_s_getLen(b))) : std::string("(null)")));
		break;
	}
	case 1: {
		Str s(categories[k % categories.size()]);
		long n = 0;
		char *p = nullptr;
		arena::SharedScope sh;
		int e = osc_expr_getFunctionsForCategory(s, &n, &p);
		c.logf("%d %s", e != 0, (char *)s);
		if(p) c.log(esc(std::string(p, n)));
		osc_mem_free(p);
		break;
	}
	case 2: {
		Str s(functions[k % functions.size()]);
		t_osc_bndl_u *b = nullptr;
		int e = osc_expr_getDocForFunction(s, &b);
		c.logf("%d %s", e != 0, (char *)s);
		if(b){
			char *t = osc_bundle_u_format(b);
			c.log(t);
			osc_mem_free(t);
			osc_bundle_u_free(b);
		}
		break;
	}
	default: {
		Str s(functions[k % functions.size()]);
		t_osc_expr_rec *r = osc_expr_lookupFunction(s);
		if(!r){ c.log("not a function"); break; }
		c.logf("%s %s %d %d %d", osc_expr_rec_getName(r), osc_expr_rec_getSignature(r), osc_expr_rec_getNumRequiredArgs(r), osc_expr_rec_getNumOptionalArgs(r), osc_expr_rec_getFunction(r) != NULL);
		c.log(osc_expr_rec_getDocstring(r));
		for(char **q = osc_expr_rec_getCategories(r); q && *q; q++) c.log(*q);
		for(int i = 0; i < osc_expr_rec_getNumRequiredArgs(r) && osc_expr_rec_getRequiredArgsNames(r); i++) c.logf("%s %d", osc_expr_rec_getRequiredArgsNames(r)[i], osc_expr_rec_getRequiredArgsTypes(r)[i]);
	}
	}
}
void genDocs(Rng &r, Plan &p)
{
	for(int n = (int)r.range(1, 8); n > 0; n--) p.op("docs", {(int64_t)r.below(4), (int64_t)r.below(1000)});
}
void runDocs(const Plan &p, Ctx &c)
{
	for(size_t i = 0; i < p.ops.size(); i++){
		c.at(i, p.ops[i]);
		if(p.ops[i].k == "docs") docsOp(c, p.ops[i]);
	}
}
}
namespace world {
std::string genSub(Rng &r, Plan &p, int tier, const std::vector<int> &which)
{
	int k = r.pick(which);
	p.cfg["mode_sub"] = k;
	const Scenario *s = k && k != DOCS ? findScenario(subs[k]) : nullptr;
	if(k == DOCS){ arena::genPolicy(r, p); genDocs(r, p); return subs[k]; }
	if(s){
		Plan q;
		q.prop = s->prop;
		q.seed = p.seed;
		s->gen(r, q, tier);
		for(auto &x : q.cfg) p.cfg[x.first] = x.second;
		p.ops = q.ops;
	}else{
		p.cfg["mode_sub"] = 0;
		arena::genPolicy(r, p);
		gen(r, p, tier);
	}
	return subs[k];
}
void runSub(const Plan &p, Ctx &c)
{
	int k = (int)((uint64_t)p.C("mode_sub") % (sizeof subs / sizeof *subs));
	const Scenario *s = k && k != DOCS ? findScenario(subs[k]) : nullptr;
	if(k == DOCS){ runDocs(p, c); return; }
	if(!s){ run(p, c); return; }
	Plan q = p;
	q.prop = s->prop;
	s->run(q, c);
}
static const char *names[] = {"history of world", "history of L01", "history of L06", "history of L07", "history of L08", "history of L09", "history of L10", "history of L11", "history of L17", "history of L18", "history of L02", "history of L13", "history of L15", "history of L16", "history of L12", "history of documentation"};
const char *subName(int64_t k) { return names[(uint64_t)k % (sizeof names / sizeof *names)]; }
bool isDocs(int64_t k) { return (uint64_t)k % (sizeof subs / sizeof *subs) == DOCS; }
void warm()
{
	long n = 0;
	char *p = nullptr, core[] = "/core";
	osc_expr_getCategories();
	osc_expr_getFunctionsForCategory(core, &n, &p);
	osc_mem_free(p);
}
}
namespace {
const std::vector<int> everything = {0, 0, 0, 0, 0, 1, 2, 3, 4, 4, 5, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 13, 13, 15};
void gen3(Rng &r, Plan &p, int tier) { world::genSub(r, p, tier, everything); }
void run3(const Plan &p, Ctx &c)
{
	world::warm();
	arena::Mark m = arena::mark();
	g_quiet = true;
	world::runSub(p, c);
	g_quiet = false;
	arena::checkNoLeaks(m, "after the caller released everything it owned");
	probe(world::subName(p.C("mode_sub")));
	c.nontrivial();
}
Reg reg3(Scenario{"L03", gen3, run3, 20000, 500000,
	"a history ran to its end, everything the caller owned was released and every block allocated since its start was accounted for",
	"every source file of the library, compiled from /repo",
	"the allocator (osc_set_mem, and the malloc family inside the library) is simulated: each block has guard zones and freed blocks are poisoned",
	"the caller keeps to the ownership rules of the headers: messages and atoms handed to a container belong to it until removed"});

// ---------------------------------------------------------------- L04
void gen4(Rng &r, Plan &p, int tier)
{
	world::genSub(r, p, tier, everything);
	p.cfg["alt"] = (int64_t)(r.next() & 0xffff);
}
void run4(const Plan &p, Ctx &c)
{
	std::string first, firstName;
	uint64_t alt = (uint64_t)p.C("alt");
	int failures = 0;
	for(int k = 0; k < 4; k++){
		arena::Policy pol;
		int stack;
		switch(k){
		case 0: pol.fill = arena::F_ZERO; stack = 0; break;
		case 1: pol.fill = arena::F_FF; pol.offset = 37; stack = 0xff; break;
		case 2: pol.fill = arena::F_STALE; pol.reuse = true; pol.inplace = alt & 1; pol.offset = 1001; stack = 0x2f; break;
		default: pol.fill = arena::F_RANDOM; pol.reuse = alt & 2; pol.inplace = alt & 4; pol.offset = (int64_t)(alt & 0xfff); stack = (int)(alt >> 8) & 0xff;
		}
		pol.seed = alt * 4 + k;
		std::string out, sig, det;
		bool ok = forkRun([&] {
			arena::setPolicy(pol);
			g_stackFill = stack;
			Ctx cc;
			std::vector<std::string> rec;
			cc.rec = &rec;
			g_ctx = &cc;
			world::runSub(p, cc);
			std::string t;
			for(auto &l : rec) t += l + "\n";
			for(auto &l : g_errors) t += "error: " + l + "\n";
			return t;
		}, out, sig, det);
		static const char *names[] = {"zeroed memory", "0xff-filled memory", "recycled memory", "random memory"};
		if(!ok){
			// what a memory error does next is the memory's business: it counts as the same outcome everywhere
			failures++;
			bool mem = !sig.compare(0, 7, "memory:") || !sig.compare(0, 5, "crash");
			out = mem ? std::string("FAILED memory error\n") : "FAILED " + sig + "\n" + det;
		}
		if(k == 0){ first = out; firstName = names[k]; }
		else if(out != first){
			size_t i = 0, ln = 0, st = 0;
			while(i < out.size() && i < first.size() && out[i] == first[i]){ if(out[i] == '\n'){ ln++; st = i + 1; } i++; }
			std::string a = first.substr(st, first.find('\n', st) - st), b = out.substr(st, out.find('\n', st) - st);
			failv("outcome depends on memory", "line %zu of the outcome (%s): with %s '%.300s', with %s '%.300s'", ln, world::subName(p.C("mode_sub")), firstName.c_str(), a.c_str(), names[k], b.c_str());
		}
	}
	fault("history_replayed_under_other_memory", 3);
	c.log(first);
	if(!failures){ c.nontrivial(); probe(world::subName(p.C("mode_sub"))); }
	stateHash(fnv(first.data(), first.size()));
}
Reg reg4(Scenario{"L04", gen4, run4, 5000, 150000,
	"the same history ran to its end four times, under zeroed, 0xff-filled, recycled and random memory, and the full outcomes were compared",
	"every source file of the library, compiled from /repo",
	"the allocator is simulated: four personalities (contents of fresh blocks, recycling, moving or in-place resizing, base address) and four fillings of the unused stack",
	"the allocator's contract itself (alignment, sizes) is the same in every replay"});
}
