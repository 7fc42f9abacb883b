// L05: every allocation of an operation that can report errors fails in turn.
#include "om.h"
extern "C" {
#include "osc_vtable.h"
#include "osc_hashtab.h"
#include "osc_linkedlist.h"
#include "osc_array.h"
#include "osc_atom_array_s.h"
}
using namespace sim;
using namespace om;
namespace {
struct Case {                                  // one operation on inputs of its own
	virtual ~Case() {}
	virtual bool ok() const { return true; }
	virtual int call() = 0;                    // 0: done
	virtual std::string inputs() = 0;          // what the caller passed in, observed again
	virtual std::string outcome() = 0;         // inputs and results after success
};
std::string bndlText(long n, const char *p)
{
	if(!p) return sprintf_("none/%ld", n);
	Bndl b;
	std::string why;
	if(!fromBytes(n, p, b, why)) failv("malformed", "bundle is malformed: %s", why.c_str());
	return text(b);
}
struct MsgS {                                  // a serialised message of the caller's
	char *p;
	t_osc_msg_s *m;
	explicit MsgS(const Msg &x)
	{
		std::string e = encMsg(x), s = be32(e.size()) + e;
		p = arena::callerBytes(s.data(), s.size());
		m = osc_message_s_alloc();
		osc_message_s_wrap(m, p);
	}
	~MsgS() { osc_message_s_free(m); arena::callerFree(p); }
	std::string str() { return text(fromMsgS(m)); }
};
char *own(const std::string &s) { char *p = (char *)osc_mem_alloc(s.size()); memcpy(p, s.data(), s.size()); return p; }

struct Append : Case {
	MsgS m;
	long n = 0;
	char *p = nullptr;
	Append(const Bndl *b, const Msg &x) : m(x) { if(b){ std::string s = enc(*b); n = s.size(); p = own(s); } }
	~Append() { if(p) osc_mem_free(p); }
	int call() { return osc_bundle_s_appendMessage(&n, &p, m.m) != 0; }
	std::string inputs() { return bndlText(n, p) + " + " + m.str(); }
	std::string outcome() { return inputs(); }
};
struct AppendB : Case {
	MsgS m;
	t_osc_bndl_s *b = nullptr;
	AppendB(const Bndl *x, const Msg &y) : m(y) { if(x){ std::string s = enc(*x); b = osc_bundle_s_alloc(s.size(), own(s)); } }
	~AppendB() { if(b) osc_bundle_s_deepFree(b); }
	int call() { return osc_bundle_s_appendMessage_b(&b, m.m) != 0; }
	std::string inputs() { return (b && osc_bundle_s_getPtr(b) ? bndlText(osc_bundle_s_getLen(b), osc_bundle_s_getPtr(b)) : "none") + " + " + m.str(); }
	std::string outcome() { return inputs(); }
};
struct Replace : Case {
	MsgS m;
	long n, cap;
	char *p;
	int k;
	int extra;
	Replace(const Bndl &b, const Msg &x, int k_, int extra_) : m(x), k(k_), extra(extra_)
	{
		std::string s = enc(b);
		n = s.size();
		cap = n + extra;
		p = (char *)osc_mem_alloc(cap);
		memset(p, 0, cap);
		memcpy(p, s.data(), n);
	}
	~Replace() { osc_mem_free(p); }
	int call()
	{
		char *o = p + 16;
		for(int i = 0; i < k; i++) o += 4 + rd32(std::string(o, 4), 0);
		alignas(16) char st[256];
		t_osc_msg_s *old = (t_osc_msg_s *)st;
		osc_message_s_initMsg(old);
		osc_message_s_wrap(old, o);
		return osc_bundle_s_replaceMessage(&cap, &n, &p, old, m.m) != 0;
	}
	std::string inputs() { return bndlText(n, p) + " <- " + m.str(); }
	std::string outcome() { if(cap < n) failv("size", "%ld bytes in a buffer said to hold %ld", n, cap); return inputs(); }
};
struct Sets : Case {
	int what;
	std::string x, y;
	t_osc_bndl_s *a, *b, *u = nullptr;
	long n = 0;
	char *p = nullptr;
	Sets(int w, const Bndl &l, const Bndl &r) : what(w)
	{
		x = enc(l), y = enc(r);
		a = osc_bundle_s_alloc(x.size(), own(x));
		b = osc_bundle_s_alloc(y.size(), own(y));
	}
	~Sets() { osc_bundle_s_deepFree(a); osc_bundle_s_deepFree(b); if(u) osc_bundle_s_deepFree(u); if(p) osc_mem_free(p); }
	int call()
	{
		if(what == 0){ u = osc_bundle_s_union(a, b); return !u; }
		auto f = what == 1 ? osc_bundle_s_intersection : osc_bundle_s_difference;
		return f(osc_bundle_s_getLen(a), osc_bundle_s_getPtr(a), osc_bundle_s_getLen(b), osc_bundle_s_getPtr(b), &n, &p) != 0;
	}
	std::string inputs() { return bndlText(osc_bundle_s_getLen(a), osc_bundle_s_getPtr(a)) + " , " + bndlText(osc_bundle_s_getLen(b), osc_bundle_s_getPtr(b)); }
	std::string outcome() { return inputs() + " = " + (u ? bndlText(osc_bundle_s_getLen(u), osc_bundle_s_getPtr(u)) : bndlText(n, p)); }
};
struct Wrap : Case {
	std::string s;
	char *m, *p = nullptr, al = 0;
	long n = 0;
	explicit Wrap(const Msg &x) { s = encMsg(x); m = arena::callerBytes(s.data(), s.size()); }
	~Wrap() { arena::callerFree(m); if(p) osc_mem_free(p); }
	int call() { return osc_bundle_s_wrapMessage(s.size(), m, &n, &p, &al) != 0; }
	std::string inputs() { return esc(std::string(m, s.size())); }
	std::string outcome() { if(!al) failv("wrap", "a bundle was allocated but not reported as such"); return inputs() + " = " + bndlText(n, p); }
};
struct SetId : Case {
	t_osc_bndl_s *b;
	explicit SetId(int how) { b = osc_bundle_s_alloc(how ? 8 : 0, how ? own(std::string("#bundle\0", 8)) : nullptr); }
	~SetId() { osc_bundle_s_deepFree(b); }
	int call() { return osc_bundle_s_setBundleID_b(b) != 0; }
	std::string inputs() { char *p = osc_bundle_s_getPtr(b); long n = osc_bundle_s_getLen(b); return p ? esc(std::string(p, n)) : sprintf_("none/%ld", n); }
	std::string outcome() { return inputs(); }
};
// ------------------------------------------------------------------ plain arrays
std::string arText(t_osc_array *a) { std::string r; for(int i = 0; i < osc_array_getLen(a); i++) r += sprintf_("%d ", *(int *)osc_array_get(a, i)); return r + sprintf_("/%ld", osc_array_getLen(a)); }
t_osc_array *mkAr(int n, int base) { t_osc_array *a = osc_array_allocWithSize(n, sizeof(int)); for(int i = 0; i < n; i++) *(int *)osc_array_get(a, i) = base + i; return a; }
struct ArCase : Case {
	int what, arg;
	t_osc_array *a, *d = nullptr;
	ArCase(int w, int n, int m, int x) : what(w), arg(x) { a = mkAr(n, 100); if(w == 1 && m >= 0) d = mkAr(m, 500); }
	~ArCase() { osc_array_free(a); if(d) osc_array_free(d); }
	int call()
	{
		if(what == 0){ d = osc_array_copy(a); return !d; }
		if(what == 1){
			bool fresh = !d;
			int e = osc_array_copyInto(&d, a, arg) != 0;
			if(!e && fresh) for(int i = 0; i < arg; i++) *(int *)osc_array_get(d, i) = 7;   // nothing was put there
			return e;
		}
		int was = osc_array_getLen(a);
		int e = osc_array_resize(a, arg) != 0;
		if(!e) for(int i = was; i < arg; i++) *(int *)osc_array_get(a, i) = 7;
		return e;
	}
	std::string inputs() { return arText(a) + (d ? " into " + arText(d) : ""); }
	std::string outcome()
	{
		std::string r = arText(a) + " ";
		if(d) r += arText(d);
		return r;
	}
	bool gap() { return false; }
};
// ------------------------------------------------------------------ argument arrays
t_osc_atom_ar_u *mkU(const Msg &m)
{
	t_osc_atom_ar_u *a = osc_atom_array_u_alloc(m.v.size());
	for(size_t i = 0; i < m.v.size(); i++) setAtom((t_osc_atom_u *)osc_atom_array_u_get(a, i), m.v[i]);
	return a;
}
std::string uText(t_osc_atom_ar_u *a) { std::string r = "["; for(int i = 0; i < osc_atom_array_u_getLen(a); i++) r += text(fromAtomU((t_osc_atom_u *)osc_atom_array_u_get(a, i))) + " "; return r + "]"; }
struct AuCopy : Case {
	t_osc_atom_ar_u *a, *d = nullptr;
	bool into;
	int off;
	AuCopy(const Msg &m, const Msg *t, bool in, int o) : into(in), off(o) { a = mkU(m); if(in && t) d = mkU(*t); }
	~AuCopy() { osc_atom_array_u_free(a); if(d) osc_atom_array_u_free(d); }
	int call()
	{
		if(into) return osc_atom_array_u_copyInto(&d, a, off) != 0;
		d = osc_atom_array_u_copy(a);
		return !d;
	}
	std::string inputs() { return uText(a) + (d ? " into " + uText(d) : ""); }
	std::string outcome() { return uText(a) + " = " + uText(d); }
};
template <class F, class T> int conv(F f, void *a, void **out, size_t n, std::string &r, const char *fmt)
{
	T *o = nullptr;
	int e = f(a, &o) != 0;
	if(!e) for(size_t i = 0; i < n; i++) r += sprintf_(fmt, o[i]) + " ";
	if(o && !e) osc_mem_free(o);
	if(e && o) failv("conversion", "a failed conversion hands out a buffer");
	return e;
}
struct Conv : Case {
	MsgS m;
	t_osc_atom_ar_u *u = nullptr;
	t_osc_atom_ar_s *s = nullptr;
	int what;
	size_t n;
	std::string r;
	Conv(const Msg &x, int w, bool ser) : m(x), what(w), n(x.v.size())
	{
		if(!ser){ u = mkU(x); return; }
		s = osc_atom_array_s_alloc(n);
		for(size_t i = 0; i < n; i++){ t_osc_atom_s *at = (t_osc_atom_s *)osc_atom_array_s_get(s, i); osc_message_s_getArg(m.m, i, &at); }
	}
	~Conv() { if(u) osc_atom_array_u_free(u); if(s) osc_atom_array_s_free(s); }
	int call()
	{
		void *o = nullptr;
		r.clear();
#define CV(T, name, fmt) return u ? conv<t_osc_err (*)(void *, T **), T>((t_osc_err (*)(void *, T **))osc_atom_array_u_get##name##Array, u, &o, n, r, fmt) : conv<t_osc_err (*)(void *, T **), T>((t_osc_err (*)(void *, T **))osc_atom_array_s_get##name##Array, s, &o, n, r, fmt)
		switch(what){
		case 0: CV(double, Double, "%a");
		case 1: CV(float, Float, "%a");
		case 2: CV(int32_t, Int32, "%d");
		case 3: CV(int64_t, Int64, "%ld");
		case 4: CV(uint32_t, UInt32, "%u");
		case 5: CV(uint64_t, UInt64, "%lu");
		case 6: CV(char, Bool, "%d");
		default: {
			// a buffer of the caller's is made larger when it is too small, and stays the caller's when that fails
			bool own = what > 8;
			char *c = own ? (char *)arena::allocSurely(4) : nullptr;
			long len = own ? 4 : 0;
			int e = osc_atom_array_u_getStringArray(u, &len, &c, what & 1 ? " " : nullptr) != 0;
			if(!e){ r = esc(std::string(c, len)); osc_mem_free(c); }
			else if(own) osc_mem_free(c);
			else if(c) failv("conversion", "a failed conversion hands out a buffer");
			return e;
		}
		}
	}
	std::string inputs() { return u ? uText(u) : m.str(); }
	std::string outcome() { return inputs() + " = " + r; }
};
struct BlobS : Case {
	MsgS m;
	t_osc_atom_s *a = nullptr;
	std::string r;
	explicit BlobS(const Msg &x) : m(x) { osc_message_s_getArg(m.m, 0, &a); }
	~BlobS() { osc_atom_s_free(a); }
	int call()
	{
		char *b = nullptr;
		int32_t n = 0;
		int e = osc_atom_s_getBlobCopy(&b, &n, a) != 0;
		if(!e){ r = esc(std::string(b, n)); osc_mem_free(b); }
		else if(b) failv("conversion", "a failed conversion hands out a buffer");
		return e;
	}
	std::string inputs() { return m.str(); }
	std::string outcome() { return m.str() + " = " + r; }
};
struct Cache : Case {
	MsgS m;
	explicit Cache(const Msg &x) : m(x) {}
	int call() { return osc_message_s_cacheDataOffsets(m.m) != 0; }
	std::string inputs() { return m.str(); }
	std::string outcome() { return m.str(); }
};
// ------------------------------------------------------------------ handler tables
void h1(t_osc_vtable_entry *, long, char *, t_osc_bndl_s *, t_osc_bndl_s *, void *c) { ++*(int *)c; }
int g_hits[64];
struct VT : Case {
	t_osc_vtable *v;
	std::vector<std::string> sel;
	std::vector<std::pair<std::string, int>> handlers;
	std::string arg, arg2;
	bool ren;
	VT(int slots, int n, const std::string &name, int k, bool rename) : ren(rename)
	{
		v = osc_vtable_alloc(slots);
		for(int i = 0; i < n; i++) sel.push_back("/h" + std::to_string(i * 7 % 23));
		for(size_t i = 0; i < sel.size(); i++) add(sel[i], i);
		arg = name;
		if(ren && n) arg2 = sel[k % n];
		sel.push_back(name);
	}
	~VT() { osc_vtable_free(v); }
	bool ok() const { return !ren || !arg2.empty(); }
	int add(const std::string &s, int i) { char *c = arena::callerBytes(s.c_str(), s.size() + 1); int e = osc_vtable_addEntry(v, c, h1, &g_hits[i & 63]) != 0; arena::callerFree(c); return e; }
	int call()
	{
		if(!ren) return add(arg, 50);
		char *o = arena::callerBytes(arg2.c_str(), arg2.size() + 1), *n = arena::callerBytes(arg.c_str(), arg.size() + 1);
		int e = osc_vtable_renameEntry(v, o, n) != 0;
		arena::callerFree(o);
		arena::callerFree(n);
		return e;
	}
	std::string inputs()
	{
		std::string r = sprintf_("%d:", osc_vtable_getNumEntries(v));
		if(osc_vtable_getNumEntries(v) > osc_vtable_getNumSlots(v)) failv("slots", "more entries than slots");
		for(int i = 0; i < osc_vtable_getNumEntries(v); i++) r += std::string(" ") + osc_vtable_entry_getSelector(osc_vtable_getEntryByIndex(v, i));
		r += " /";
		for(auto &s : sel){
			char *c = arena::callerBytes(s.c_str(), s.size() + 1);
			int k = osc_vtable_getIndexForSelector(v, c);
			t_osc_vtable_entry *e = osc_vtable_getEntryBySelector(v, c);
			int h = -1;
			if(e){
				int before[64];
				memcpy(before, g_hits, sizeof before);
				osc_vtable_callWithEntry(v, e, 0, nullptr, nullptr, nullptr);
				for(int i = 0; i < 64; i++) if(g_hits[i] != before[i]) h = i;
			}
			arena::callerFree(c);
			r += sprintf_(" %s=%d:%d", s.c_str(), k, h);
		}
		return r;
	}
	std::string outcome() { return inputs(); }
};

// ------------------------------------------------------------------ containers
struct ListAdd : Case {
	t_osc_linkedlist *l;
	int n, front;
	static char items[40];
	ListAdd(int k, int f) : l(osc_linkedlist_new(nullptr)), n(k), front(f) { for(int i = 0; i < n; i++) osc_linkedlist_append(l, items + i); }
	~ListAdd() { osc_linkedlist_destroy(l); }
	int call()
	{
		unsigned long c = osc_linkedlist_getCount(l);
		(front ? osc_linkedlist_prepend : osc_linkedlist_append)(l, items + n);
		return osc_linkedlist_getCount(l) == c;
	}
	std::string inputs()
	{
		std::string r = sprintf_("%lu:", osc_linkedlist_getCount(l));
		for(int i = 0; i < (int)osc_linkedlist_getCount(l); i++){ char *q = (char *)osc_linkedlist_peekNth(l, i); r += sprintf_(" %ld", q ? (long)(q - items) : -1L); }
		return r;
	}
	std::string outcome() { return inputs(); }
};
char ListAdd::items[40];
struct Store : Case {
	t_osc_hashtab *h;
	std::vector<std::string> keys;
	bool safe;
	Store(int n, bool sf) : h(osc_hashtab_new(3, nullptr)), safe(sf)
	{
		keys.reserve(n + 1);                  // the table keeps pointers to the keys
		for(int i = 0; i < n; i++) keys.push_back("k" + std::to_string(i));
		for(int i = 0; i < n; i++) osc_hashtab_store(h, keys[i].size(), &keys[i][0], &keys[i]);
		keys.push_back("new");
	}
	~Store() { osc_hashtab_destroy(h); }
	int call()
	{
		std::string &k = keys.back();
		(safe ? osc_hashtab_storeSafe : osc_hashtab_store)(h, k.size(), &k[0], &k);
		return osc_hashtab_lookup(h, k.size(), &k[0]) != &k;
	}
	std::string inputs()
	{
		std::string r;
		for(auto &k : keys){ void *v = osc_hashtab_lookup(h, k.size(), &k[0]); r += k + (v == &k ? "=ok " : v ? "=wrong " : "=none "); }
		return r;
	}
	std::string outcome() { return inputs(); }
};
struct Create : Case {
	int what, n;
	t_osc_hashtab *h = nullptr;
	t_osc_vtable *v = nullptr;
	t_osc_linkedlist *l = nullptr;
	Create(int w, int k) : what(w), n(k) {}
	~Create() { if(h) osc_hashtab_destroy(h); if(v) osc_vtable_free(v); if(l) osc_linkedlist_destroy(l); }
	int call()
	{
		if(what == 0) return !(h = osc_hashtab_new(n, nullptr));
		if(what == 1) return !(v = osc_vtable_alloc(n));
		return !(l = osc_linkedlist_new(nullptr));
	}
	std::string inputs() { return sprintf_("%d of %d", what, n); }
	std::string outcome()
	{
		if(h){ char k[] = "k"; osc_hashtab_store(h, 1, k, k); if(osc_hashtab_lookup(h, 1, k) != k) failv("create", "a new table stores nothing"); }
		if(v){ char s[] = "/s"; if(osc_vtable_addEntry(v, s, h1, &g_hits[0]) || osc_vtable_getNumEntries(v) != 1) failv("create", "a new handler table takes no handler"); }
		return inputs();
	}
};

const std::vector<const char *> KINDS = {"append", "append to none", "appendb", "appendb to none", "replace", "replace in a larger buffer", "union", "intersection", "difference", "wrap", "set id", "array copy", "array copy into", "array resize", "argument array copy", "argument array copy into", "conversion", "conversion of serialised", "blob of serialised", "offset cache", "add handler", "rename handler", "list add", "table store", "create table", "create handler table", "create list"};
void gen(Rng &r, Plan &p, int tier)
{
	arena::genPolicy(r, p);
	GenOpt o;
	o.depth = 1;
	int n = r.range(1, tier ? 12 : 6);
	for(int i = 0; i < n; i++){
		Bndl b = genBndl(r, o), c = genBndl(r, o);
		for(auto &m : c.m) if(!b.m.empty() && r.chance(1, 3)) m.addr = r.pick(b.m).addr;
		p.op("b", {0}, enc(b));
		p.op("b", {1}, enc(c));
		Bndl one;
		one.m.push_back(genMsg(r, o));
		if(r.chance(1, 3)) while(one.m[0].v.size() < 12) one.m[0].v.push_back(genVal(r, o));
		p.op("b", {2}, enc(one));
		p.op("do", {(int64_t)r.below(KINDS.size()), (int64_t)r.below(8), (int64_t)r.below(8), (int64_t)r.below(9), (int64_t)r.chance(1, 3)});
	}
}
void noBundles(Msg &m) { std::vector<Val> v; for(auto &x : m.v) if(x.t != '.') v.push_back(x); m.v = v; }
Case *make(int kind, const Op &o, const Bndl &a, const Bndl &b, const Bndl &one)
{
	int x = (int)((uint64_t)o.A(1) % 64), y = (int)((uint64_t)o.A(2) % 64), z = (int)((uint64_t)o.A(3) % 64);
	Msg m = one.m.empty() ? Msg("/a") : one.m[0], f = m, g = b.m.empty() ? Msg("/a") : b.m[0];
	noBundles(f);
	noBundles(g);
	switch(kind){
	case 0: return new Append(&a, m);
	case 1: return new Append(nullptr, m);
	case 2: return new AppendB(&a, m);
	case 3: return new AppendB(nullptr, m);
	case 4: case 5: if(a.m.empty()) return nullptr; return new Replace(a, m, x % a.m.size(), kind == 5 ? y * 8 : 0);
	case 6: case 7: case 8: return new Sets(kind - 6, a, b);
	case 9: return new Wrap(m);
	case 10: return new SetId(x & 1);
	case 11: return new ArCase(0, x, 0, 0);
	case 12: return new ArCase(1, x, y == 0 ? -1 : y - 1, z > (y == 0 ? 3 : y - 1) ? (y == 0 ? 3 : y - 1) : z);
	case 13: return new ArCase(2, x, 0, y);
	case 14: return new AuCopy(f, nullptr, false, 0);
	case 15: { int n = (int)g.v.size(); return new AuCopy(f, x & 1 ? &g : nullptr, true, x & 1 && n ? y % (n + 1) : 0); }
	case 16: return new Conv(f, x % 11, false);
	case 17: if(f.v.empty()) return nullptr; return new Conv(f, x % 7, true);
	case 18: if(f.v.empty()) return nullptr; return new BlobS(f);
	case 19: return new Cache(m);
	case 20: return new VT(x & 1 ? z : 0, z, y & 1 ? "/h99" : "/h0", y, false);
	case 22: return new ListAdd(z, x & 1);
	case 23: return new Store(z, x & 1);
	case 24: case 25: case 26: return new Create(kind - 24, z);
	default: return new VT(x & 1 ? z : 0, z, y & 1 ? "/somewhere/else" : "/r", y, true);
	}
}
void run(const Plan &p, Ctx &c)
{
	Bndl B[3];
	int points = 0;
	for(size_t i = 0; i < p.ops.size(); i++){
		auto &o = p.ops[i];
		c.at(i, o);
		if(o.k == "b"){
			Bndl b;
			std::string why;
			if(dec(o.s, b, why)) B[(uint64_t)o.A(0) % 3] = b;
			continue;
		}
		if(o.k != "do") continue;
		int kind = (int)((uint64_t)o.A(0) % KINDS.size());
		const char *what = KINDS[kind];
		bool sticky = o.A(4) != 0;
		std::string want;
		arena::Mark m0 = arena::mark();
		Case *dry = make(kind, o, B[0], B[1], B[2]);
		if(!dry) continue;
		if(!dry->ok()){ delete dry; continue; }
		std::string before0 = dry->inputs();
		if(dry->call()){ delete dry; continue; }   // it fails with memory to spare: not this property's business
		want = dry->outcome();
		delete dry;
		arena::checkNoLeaks(m0, "after the operation, without any failure");
		c.log(std::string(what) + ": " + want);
		for(int k = 0; k < 200; k++){
			arena::Mark m1 = arena::mark();
			Case *x = make(kind, o, B[0], B[1], B[2]);
			std::string before = x->inputs();
			arena::failNth(k, sticky);
			int e = x->call();
			bool fired = arena::failFired();
			arena::failNth(-1);
			if(!fired){ delete x; break; }
			points++;
			fault(sticky ? "allocation_failed_from_here_on" : "allocation_failed");
			stateHash(fnv(before.data(), before.size()) ^ mix64(kind * 200 + k));
			if(e){
				probe("failure reported");
				std::string after = x->inputs();
				if(after != before) failv("changed", "%s, allocation %d fails: the objects passed in were %s and are %s", what, k, before.c_str(), after.c_str());
				if(x->call()) failv("retry", "%s of %s fails again although memory is available", what, before.c_str());
			}
			std::string got = x->outcome();
			if(got != want) failv(e ? "retry" : "unreported", "%s, allocation %d fails%s: %s, expected %s", what, k, e ? " and the call is repeated" : ", success is reported", got.c_str(), want.c_str());
			delete x;
			arena::checkNoLeaks(m1, "after an operation that ran out of memory, its repetition and release of everything");
		}
	}
	if(points) c.nontrivial();
}
Reg reg(Scenario{"L05", gen, run, 20000, 400000,
	"at least one allocation inside the operation failed and the outcome of the call was compared",
	"osc_bundle_s.c osc_array.c osc_atom_array_u.c osc_atom_array_s.c osc_atom_u.c osc_atom_s.c osc_message_s.c osc_vtable.c osc_hashtab.c osc_linkedlist.c osc_mem.c, compiled from /repo",
	"the allocator (osc_set_mem) is simulated and fails at chosen points, once or from a point on",
	"argument arrays hold numbers, strings and blobs, not bundles; operations without a way to report an error are left out"});
}
