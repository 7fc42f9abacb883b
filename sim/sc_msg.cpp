// L08: message edits, copies, conversions and views agree, over random edit histories.
#include "om.h"
#include <cmath>
#include <climits>
using namespace sim;
using namespace om;

namespace {
const int NSLOT = 5;
struct Slot8 { t_osc_msg_u *m = nullptr; Msg mod; };
struct Pooled { t_osc_atom_u *a; Val v; };

void cmp(const char *sig, const Msg &got, const Msg &want, const char *what)
{
	if(got != want) failv(sig, "%s: got %s, expected %s", what, text(got).c_str(), text(want).c_str());
}
// does v convert to an integer in a defined way?
bool asInt(const Val &v, __int128 &o)
{
	if(v.isInt()){ o = v.t == 'H' ? (__int128)(uint64_t)v.i : (__int128)v.i; return true; }
	switch(v.t){
	case 'T': o = 1; return true;
	case 'F': case 'N': o = 0; return true;
	case 'f': case 'd': if(!(std::fabs(v.f) < 1.8e19)) return false; o = (__int128)v.f; return true;
	}
	return false;
}
template <class G32, class G64, class GU32, class GU64, class G8, class GU8, class G16, class GU16, class GI, class GF, class GD, class GB>
void convs(const Val &v, const char *form, G32 g32, G64 g64, GU32 gu32, GU64 gu64, G8 g8, GU8 gu8, G16 g16, GU16 gu16, GI gi, GF gf, GD gd, GB gb)
{
	__int128 x;
	if(asInt(v, x)){
		bool frac = v.t == 'f' || v.t == 'd';
#define C(name, T, got) if(!(frac && ((__int128)(T)x != x))){ T w_ = (T)x; T g_ = got; if(g_ != w_) failv("conversion", "%s atom %s: %s gives %" PRId64 ", expected %" PRId64, form, text(v).c_str(), name, (int64_t)g_, (int64_t)w_); }
		C("getInt8", int8_t, g8()) C("getUInt8", uint8_t, gu8()) C("getInt16", int16_t, g16()) C("getUInt16", uint16_t, gu16())
		C("getInt32", int32_t, g32()) C("getUInt32", uint32_t, gu32()) C("getInt64", int64_t, g64()) C("getUInt64", uint64_t, gu64()) C("getInt", int, gi())
#undef C
	}
	bool num = v.isInt() || strchr("fdTFN", v.t);
	if(num){
		double d; float f; bool b;
		if(v.t == 'f' || v.t == 'd'){ d = v.f; f = (float)v.f; b = v.f != 0; }
		else if(v.t == 'H'){ d = (double)(uint64_t)v.i; f = (float)(uint64_t)v.i; b = v.i != 0; }
		else if(v.t == 'T'){ d = 1; f = 1; b = true; }
		else if(v.t == 'F' || v.t == 'N'){ d = 0; f = 0; b = false; }
		else{ d = (double)v.i; f = (float)v.i; b = v.i != 0; }
		double gd_ = gd(); float gf_ = gf();
		if(gd_ != d) failv("conversion", "%s atom %s: getDouble gives %.17g, expected %.17g", form, text(v).c_str(), gd_, d);
		if(gf_ != f) failv("conversion", "%s atom %s: getFloat gives %.9g, expected %.9g", form, text(v).c_str(), gf_, f);
		if((gb() != 0) != b) failv("conversion", "%s atom %s: getBool gives %d", form, text(v).c_str(), gb());
	}
}
// decimal string of an integer, or the string itself
bool asText(const Val &v, std::string &o)
{
	if(v.t == 's'){ o = v.s; return true; }
	if(v.t == 'c' || v.t == 'C'){ if(!v.i) return false; o = std::string("'") + (char)v.i + "'"; return true; }   // a character literal
	if(v.isInt()){ o = v.t == 'H' ? sprintf_("%" PRIu64, (uint64_t)v.i) : sprintf_("%" PRId64, v.i); return true; }
	return false;
}
template <class GL, class GS>
void strs(const Val &v, const char *form, size_t cap, GL gl, GS gs)
{
	std::string want;
	if(!asText(v, want)) return;
	int n = gl();
	if(n != (int)want.size()) failv("conversion", "%s atom %s: string length %d, expected %zu", form, text(v).c_str(), n, want.size());
	char *p = nullptr;
	gs(0, &p);
	if(!p || want != p) failv("conversion", "%s atom %s: string form %s", form, text(v).c_str(), p ? p : "(null)");
	osc_mem_free(p);
	// a caller's buffer of any size
	char *b = arena::callerBuf(cap);
	memset(b, 0x7e, cap);
	char *q = b;
	gs(cap, &q);
	if(q != b) failv("conversion", "%s atom: getString moved the caller's buffer", form);
	if(cap){
		size_t k = want.size() < cap - 1 ? want.size() : cap - 1;
		if(memcmp(b, want.data(), k) || b[k]) failv("conversion", "%s atom %s: getString into %zu bytes gives %s", form, text(v).c_str(), cap, esc(std::string(b, cap)).c_str());
	}
	arena::callerFree(b);
}
// the arrays of plain numbers that an array of atoms gives, element by element; into memory of the caller or of the library
template <class T, class AR, class GA, class GE>
void numArray(const std::vector<Val> &v, const char *what, bool own, AR *ar, GA ga, GE ge)
{
	size_t n = v.size();
	T *out = own ? (T *)arena::callerBuf(n * sizeof(T)) : nullptr, *o = out;
	if(ga(ar, &o) || (own && o != out) || (n && !o)) failv("array", "no array of %s", what);
	for(size_t i = 0; i < n; i++){
		if(std::is_integral<T>::value && sizeof(T) > 1 && (v[i].t == 'f' || v[i].t == 'd') && !(v[i].f > -1 && v[i].f < 2147483647)) continue;
		T e = (T)ge(osc_array_get(ar, (long)i));
		if(memcmp(&e, o + i, sizeof(T))) failv("array", "element %zu of %zu of the array of %s from %s is %.17g", i, n, what, text(v[i]).c_str(), (double)o[i]);
	}
	if(own) arena::callerFree((char *)out);
	else osc_mem_free(o);
}
void numArrays(const std::vector<Val> &v, t_osc_atom_ar_u *u, t_osc_msg_s *ms, unsigned own)
{
	numArray<double>(v, "doubles", own & 1, u, osc_atom_array_u_getDoubleArray, [](void *a){ return osc_atom_u_getDouble((t_osc_atom_u *)a); });
	numArray<float>(v, "floats", own & 2, u, osc_atom_array_u_getFloatArray, [](void *a){ return osc_atom_u_getFloat((t_osc_atom_u *)a); });
	numArray<int32_t>(v, "int32s", own & 4, u, osc_atom_array_u_getInt32Array, [](void *a){ return osc_atom_u_getInt32((t_osc_atom_u *)a); });
	numArray<int64_t>(v, "int64s", own & 8, u, osc_atom_array_u_getInt64Array, [](void *a){ return osc_atom_u_getInt64((t_osc_atom_u *)a); });
	numArray<uint32_t>(v, "uint32s", own & 1, u, osc_atom_array_u_getUInt32Array, [](void *a){ return osc_atom_u_getUInt32((t_osc_atom_u *)a); });
	numArray<uint64_t>(v, "uint64s", own & 2, u, osc_atom_array_u_getUInt64Array, [](void *a){ return osc_atom_u_getUInt64((t_osc_atom_u *)a); });
	numArray<char>(v, "bools", own & 4, u, osc_atom_array_u_getBoolArray, [](void *a){ return osc_atom_u_getBool((t_osc_atom_u *)a); });
	t_osc_atom_ar_s *s = osc_atom_array_s_alloc((long)v.size());
	for(size_t i = 0; i < v.size(); i++){
		t_osc_atom_s *a = (t_osc_atom_s *)osc_atom_array_s_get(s, (long)i);
		osc_message_s_getArg(ms, (int)i, &a);
	}
	numArray<double>(v, "doubles (serialised)", own & 8, s, osc_atom_array_s_getDoubleArray, [](void *a){ return osc_atom_s_getDouble((t_osc_atom_s *)a); });
	numArray<float>(v, "floats (serialised)", own & 1, s, osc_atom_array_s_getFloatArray, [](void *a){ return osc_atom_s_getFloat((t_osc_atom_s *)a); });
	numArray<int32_t>(v, "int32s (serialised)", own & 2, s, osc_atom_array_s_getInt32Array, [](void *a){ return osc_atom_s_getInt32((t_osc_atom_s *)a); });
	numArray<int64_t>(v, "int64s (serialised)", own & 4, s, osc_atom_array_s_getInt64Array, [](void *a){ return osc_atom_s_getInt64((t_osc_atom_s *)a); });
	numArray<uint32_t>(v, "uint32s (serialised)", own & 8, s, osc_atom_array_s_getUInt32Array, [](void *a){ return osc_atom_s_getUInt32((t_osc_atom_s *)a); });
	numArray<uint64_t>(v, "uint64s (serialised)", own & 1, s, osc_atom_array_s_getUInt64Array, [](void *a){ return osc_atom_s_getUInt64((t_osc_atom_s *)a); });
	numArray<char>(v, "bools (serialised)", own & 2, s, osc_atom_array_s_getBoolArray, [](void *a){ return osc_atom_s_getBool((t_osc_atom_s *)a); });
	osc_atom_array_s_free(s);
	// the text of all of them, each followed by the separator
	static const char *seps[] = {nullptr, "", " ", ", ", "a long separator between things"};
	const char *sep = seps[own % 5];
	std::string w;
	for(auto &x : v){
		std::string e;
		if(!asText(x, e) || e.find('\0') != std::string::npos) return;
		w += e + (sep ? sep : "");
	}
	long len = own & 16 ? (long)(own % 40) : 0, had = len;
	char *out = len ? (char *)osc_mem_alloc(len) : nullptr;
	t_osc_err e = osc_atom_array_u_getStringArray(u, &len, &out, sep);
	if(had && v.empty()){ osc_mem_free(out); return; }
	if(e || !out || len != (long)w.size() + 1 || memcmp(out, w.c_str(), w.size() + 1)) failv("array", "the text of the arguments is %s (%ld bytes), expected %s", out ? esc(out).c_str() : "missing", len, esc(w).c_str());
	osc_mem_free(out);
}
// a value in the machine's byte order and on the wire, each made from the other
void byteorder(const Val &v)
{
	if(v.t == '.' || v.t == 't') return;
	std::string wire = enc(v), host = wire;
	bool swap = v.t != 's' && v.t != 'b' && !wire.empty();
	if(swap) std::reverse(host.begin(), host.end());
	if(!osc_mem_shouldByteswap(v.t) != !strchr("cCuUiIhHfd", v.t)) failv("byteorder", "shouldByteswap('%c') = %d", v.t, osc_mem_shouldByteswap(v.t));
	for(int dir = 0; dir < 2; dir++){
		const std::string &from = dir ? wire : host, &to = dir ? host : wire;
		char *a = arena::callerBytes(from.data(), from.size()), *b = arena::callerBuf(to.size()), *o = b;
		if(osc_sizeof(v.t, a) != from.size()) failv("sizeof", "osc_sizeof(%s) = %zu, expected %zu", text(v).c_str(), osc_sizeof(v.t, a), from.size());
		t_osc_err e = dir ? osc_mem_decodeByteorder(v.t, a, &o) : osc_mem_encodeByteorder(v.t, a, &o);
		if(e || o != b || memcmp(b, to.data(), to.size())) failv("byteorder", "%s %s gives %s", dir ? "decoding" : "encoding", text(v).c_str(), esc(std::string(b, to.size())).c_str());
		if(memcmp(a, from.data(), from.size())) failv("byteorder", "%s %s changed its input", dir ? "decoding" : "encoding", text(v).c_str());
		arena::callerFree(a);
		arena::callerFree(b);
	}
}
// the contents of a value in network byte order, as its blob form carries them
bool asBlob(const Val &v, bool editable, std::string &o)
{
	switch(v.t){
	case 'b': case 's': o = v.s; return true;
	case 'T': case 'F': case 'N': o = ""; return true;
	case 'c': case 'C': case 'u': case 'U': {
		if(!editable) return false;
		std::string e = enc(v);
		o = e.substr(e.size() - (v.t == 'c' || v.t == 'C' ? 1 : 2));
		return true;
	}
	case '.': o = enc(*v.b); return editable;
	default: o = enc(v); return true;
	}
}
template <class G> void blobCopy(const Val &v, const char *form, bool editable, size_t cap, G g)
{
	std::string want;
	if(!asBlob(v, editable, want) || (v.t == 's' && !editable)) return;
	int32_t len = 0;
	char *p = nullptr;
	g(&len, &p);
	size_t total = 4 + (want.size() + 4) / 4 * 4, n = v.t == 's' ? total - 4 : want.size();
	if(!p || len != (int32_t)total) failv("conversion", "%s atom %s: its blob form has %d bytes, expected %zu", form, text(v).c_str(), len, total);
	std::string w = be32((uint32_t)n) + want;
	w.resize(total, 0);
	if(std::string(p, total) != w) failv("conversion", "%s atom %s: blob form %s, expected %s", form, text(v).c_str(), esc(std::string(p, total)).c_str(), esc(w).c_str());
	osc_mem_free(p);
	// into the caller's buffer: nothing beyond it is written
	char *b = arena::callerBuf(cap);
	memset(b, 0x11, cap);
	len = (int32_t)cap;
	p = b;
	g(&len, &p);
	if(p != b || len != (int32_t)cap) failv("conversion", "%s atom %s: the caller's buffer was replaced", form, text(v).c_str());
	if(cap >= 4 && cap - 4 >= want.size() && v.t != 's' && std::string(b, 4 + want.size()) != be32((uint32_t)want.size()) + want) failv("conversion", "%s atom %s: blob form in a caller's buffer", form, text(v).c_str());
	arena::callerFree(b);
}
void blobNum(const Val &v, t_osc_atom_u *a)
{
	const uint8_t *q = (const uint8_t *)v.s.data();
	uint64_t x = 0;
	for(size_t i = 0; i < v.s.size() && i < 8; i++) x = x << 8 | q[i];
#define B(T, got, want) { T g_ = got, w_ = want; if(memcmp(&g_, &w_, sizeof(T)) && w_ == w_) failv("conversion", "editable blob %s: " #got " gives %g, expected %g", text(v).c_str(), (double)g_, (double)w_); }
	uint32_t x4 = v.s.size() == 4 ? (uint32_t)x : 0;
	uint64_t x8 = v.s.size() == 8 ? x : 0;
	float f4; double d8;
	memcpy(&f4, &x4, 4);
	memcpy(&d8, &x8, 8);
	B(int32_t, osc_atom_u_getInt32(a), (int32_t)x4) B(uint32_t, osc_atom_u_getUInt32(a), x4)
	B(int64_t, osc_atom_u_getInt64(a), (int64_t)x8) B(uint64_t, osc_atom_u_getUInt64(a), x8)
	B(float, osc_atom_u_getFloat(a), f4) B(double, osc_atom_u_getDouble(a), d8)
	B(int16_t, osc_atom_u_getInt16(a), (int16_t)(x4 >> 16)) B(uint16_t, osc_atom_u_getUInt16(a), (uint16_t)(x4 >> 16))
	B(int8_t, osc_atom_u_getInt8(a), (int8_t)(x4 >> 24)) B(uint8_t, osc_atom_u_getUInt8(a), (uint8_t)(x4 >> 24))
#undef B
	if(osc_atom_u_getBlobLen(a) != (int32_t)v.s.size()) failv("conversion", "editable blob %s: length %d", text(v).c_str(), osc_atom_u_getBlobLen(a));
}
// a string that is a numeral converts to its number
template <class I64, class U64, class I32, class U32, class D, class F, class I>
void numStr(const Val &v, const char *form, bool, I64 i64, U64 u64, I32 i32, U32 u32, D d, F f, I i)
{
	const std::string &s = v.s;
	if(s.empty() || s.size() > 17) return;
	size_t k = s[0] == '-' ? 1 : 0, dot = s.find('.');
	bool digits = s.size() > k && s.find_first_not_of("0123456789", k) == std::string::npos;
	bool frac = !digits && dot != std::string::npos && dot > k && s.size() > dot + 1 && s.substr(k).find_first_not_of("0123456789.") == std::string::npos && s.find('.', dot + 1) == std::string::npos;
	if(!digits && !frac) return;
	probe("converted a numeral string");
	__int128 x = 0;
	for(size_t j = k; j < s.size() && s[j] != '.'; j++) x = x * 10 + (s[j] - '0');
	if(k) x = -x;
	double dd = strtod(s.c_str(), nullptr);
	float ff = strtof(s.c_str(), nullptr);
#define N(got, T) if(x == (__int128)(T)x && got != (T)x) failv("conversion", "%s string %s: " #got " gives %" PRId64, form, text(v).c_str(), (int64_t)got);
	N(i64(), int64_t) N(u64(), uint64_t) N(i32(), int32_t) N(u32(), uint32_t) N(i(), int)
#undef N
	if(d() != dd || f() != ff) failv("conversion", "%s string %s: floating point value %.17g / %.9g", form, text(v).c_str(), d(), f());
}
void atomU(t_osc_atom_u *a, const Val &v, size_t cap)
{
	if(v.t == 'T' || v.t == 'F' || v.t == 'N' || v.isInt() || v.t == 'f' || v.t == 'd')
		convs(v, "editable", [&] { return osc_atom_u_getInt32(a); }, [&] { return osc_atom_u_getInt64(a); }, [&] { return osc_atom_u_getUInt32(a); }, [&] { return osc_atom_u_getUInt64(a); },
			[&] { return osc_atom_u_getInt8(a); }, [&] { return osc_atom_u_getUInt8(a); }, [&] { return osc_atom_u_getInt16(a); }, [&] { return osc_atom_u_getUInt16(a); }, [&] { return osc_atom_u_getInt(a); },
			[&] { return osc_atom_u_getFloat(a); }, [&] { return osc_atom_u_getDouble(a); }, [&] { return osc_atom_u_getBool(a); });
	strs(v, "editable", cap, [&] { return osc_atom_u_getStringLen(a); }, [&](size_t n, char **o) { return osc_atom_u_getString(a, n, o); });
	// the atom's own wire form
	std::string w = v.t == '.' ? be32((uint32_t)enc(*v.b).size()) + enc(*v.b) : enc(v);
	long n = osc_atom_u_getSerializedSize(a);
	if(n != (long)w.size()) failv("atom-wire", "editable atom %s: serialised size %ld, expected %zu", text(v).c_str(), n, w.size());
	char *buf = arena::callerBuf(n);
	size_t r = osc_atom_u_nserialize(buf, n, a);
	if(r != w.size() || memcmp(buf, w.data(), w.size())) failv("atom-wire", "editable atom %s: serialises to %s, expected %s", text(v).c_str(), esc(std::string(buf, n)).c_str(), esc(w).c_str());
	arena::callerFree(buf);
	// a buffer that is too small is left alone
	for(size_t k : {w.size() - 1, w.size() - 3, w.size() / 2, (size_t)cap}){
		if(k == 0 || k >= w.size()) continue;
		char *q = arena::callerBuf(k);
		memset(q, 0x5a, k);
		size_t got = osc_atom_u_nserialize(q, k, a);
		if(got || std::string(q, k) != std::string(k, 0x5a)) failv("atom-wire", "editable atom %s: serialised into %zu bytes reports %zu", text(v).c_str(), k, got);
		arena::callerFree(q);
	}
	blobCopy(v, "editable", true, cap, [&](int32_t *n, char **p) { osc_atom_u_getBlobCopy(a, n, p); });
	if(v.t == 'b') blobNum(v, a);
	if(v.t == 's') numStr(v, "editable", true, [&] { return osc_atom_u_getInt64(a); }, [&] { return osc_atom_u_getUInt64(a); }, [&] { return osc_atom_u_getInt32(a); }, [&] { return osc_atom_u_getUInt32(a); }, [&] { return osc_atom_u_getDouble(a); }, [&] { return osc_atom_u_getFloat(a); }, [&] { return osc_atom_u_getInt(a); });
	if((v.t == '.') != (osc_atom_u_getBndl(a) != nullptr)) failv("conversion", "editable atom %s: bundle accessor", text(v).c_str());
	if((v.t == 'b') != (osc_atom_u_getBlob(a) != nullptr)) failv("conversion", "editable atom %s: blob accessor", text(v).c_str());
	if(fromTT(osc_atom_u_getTimetag(a)) != (v.t == 't' ? (uint64_t)v.i : fromTT(OSC_TIMETAG_NULL))) failv("conversion", "editable atom %s: time tag accessor", text(v).c_str());
}
void atomS(t_osc_atom_s *a, const Val &v, size_t cap)
{
	if(v.t == 'T' || v.t == 'F' || v.t == 'N' || v.isInt() || v.t == 'f' || v.t == 'd')
		convs(v, "serialised", [&] { return osc_atom_s_getInt32(a); }, [&] { return osc_atom_s_getInt64(a); }, [&] { return osc_atom_s_getUInt32(a); }, [&] { return osc_atom_s_getUInt64(a); },
			[&] { return osc_atom_s_getInt8(a); }, [&] { return osc_atom_s_getUInt8(a); }, [&] { return osc_atom_s_getInt16(a); }, [&] { return osc_atom_s_getUInt16(a); }, [&] { return osc_atom_s_getInt(a); },
			[&] { return osc_atom_s_getFloat(a); }, [&] { return osc_atom_s_getDouble(a); }, [&] { return osc_atom_s_getBool(a); });
	strs(v, "serialised", cap, [&] { return osc_atom_s_getStringLen(a); }, [&](size_t n, char **o) { return osc_atom_s_getString(a, n, o); });
	blobCopy(v, "serialised", false, cap, [&](int32_t *n, char **p) { osc_atom_s_getBlobCopy(p, n, a); });
	if(v.t == 's') numStr(v, "serialised", false, [&] { return osc_atom_s_getInt64(a); }, [&] { return osc_atom_s_getUInt64(a); }, [&] { return osc_atom_s_getInt32(a); }, [&] { return osc_atom_s_getUInt32(a); }, [&] { return osc_atom_s_getDouble(a); }, [&] { return osc_atom_s_getFloat(a); }, [&] { return osc_atom_s_getInt(a); });
	if(fromTT(osc_atom_s_getTimetag(a)) != (v.t == 't' ? (uint64_t)v.i : fromTT(OSC_TIMETAG_NULL))) failv("conversion", "serialised atom %s: time tag accessor", text(v).c_str());
	if(v.t == 'b' && osc_atom_s_getBlobLen(a) != (int32_t)v.s.size()) failv("conversion", "serialised blob %s: length %d", text(v).c_str(), osc_atom_s_getBlobLen(a));
	t_osc_atom_u *u = osc_atom_s_deserialize(a);
	Val g = fromAtomU(u);
	Val want = v;
	if(!(g == want)) failv("atom-deserialise", "serialised atom %s deserialises to %s", text(v).c_str(), text(g).c_str());
	osc_atom_u_free(u);
	if(v.t == '.'){
		t_osc_bndl_s *b = osc_atom_s_getBndlCopy(a);
		Bndl m;
		std::string why;
		if(!b || !fromBytes(osc_bundle_s_getLen(b), osc_bundle_s_getPtr(b), m, why) || m != *v.b) failv("conversion", "copy of a nested bundle differs: %s", text(v).c_str());
		osc_bundle_s_deepFree(b);
	}
}
void verify(Slot8 &s, size_t cap)
{
	char *ad = osc_message_u_getAddress(s.m);
	if(!ad || s.mod.addr != ad) failv("address", "address %s, expected %s", ad ? ad : "(null)", s.mod.addr.c_str());
	int n = osc_message_u_getArgCount(s.m);
	if(n != (int)s.mod.v.size()) failv("count", "argument count %d, expected %zu (%s)", n, s.mod.v.size(), text(s.mod).c_str());
	cmp("iterate", fromMsgU(s.m), s.mod, "arguments by iteration");
	for(int i = 0; i < n; i++){
		t_osc_atom_u *a = osc_message_u_getArg(s.m, i);
		if(!a) failv("getarg", "argument %d of %d is missing", i, n);
		Val g = fromAtomU(a);
		if(!(g == s.mod.v[i])) failv("getarg", "argument %d is %s, expected %s", i, text(g).c_str(), text(s.mod.v[i]).c_str());
		atomU(a, s.mod.v[i], cap);
	}
	if(osc_message_u_getArg(s.m, n) || osc_message_u_getArg(s.m, n + 3) || osc_message_u_getArg(s.m, -1)) failv("getarg", "an argument beyond the last");
	std::string w = encMsg(s.mod);
	w = be32((uint32_t)w.size()) + w;
	long sz = osc_message_u_getSerializedSize(s.m);
	if(sz != (long)w.size()) failv("wire-size", "serialised size %ld, expected %zu: %s", sz, w.size(), text(s.mod).c_str());
	char *buf = arena::callerBuf(sz);
	size_t r = osc_message_u_nserialize(buf, sz, s.m);
	if(r != w.size() || memcmp(buf, w.data(), w.size())) failv("wire-bytes", "%s serialises to %s, expected %s", text(s.mod).c_str(), esc(std::string(buf, sz)).c_str(), esc(w).c_str());
	arena::callerFree(buf);
	t_osc_msg_s *ms = osc_message_u_serialize(s.m);
	if(!ms) failv("serialise", "no serialised message");
	if(osc_message_s_getSize(ms) != (int)w.size() - 4) failv("wire-size", "serialised message size %d", osc_message_s_getSize(ms));
	if(memcmp(osc_message_s_getPtr(ms), w.data(), w.size())) failv("wire-bytes", "serialised message bytes differ");
	if(s.mod.addr != osc_message_s_getAddress(ms)) failv("s-address", "serialised address %s", osc_message_s_getAddress(ms));
	std::string tt = tags(s.mod);
	if(tt[0] != ',') tt = "," + tt;
	if(!osc_message_s_getTypetags(ms) || tt != osc_message_s_getTypetags(ms)) failv("s-typetags", "type tags %s, expected %s", osc_message_s_getTypetags(ms), tt.c_str());
	if(osc_message_s_getArgCount(ms) != n) failv("s-count", "serialised argument count %d, expected %d", osc_message_s_getArgCount(ms), n);
	cmp("s-iterate", fromMsgS(ms), s.mod, "serialised arguments by iteration");
	for(int pass = 0; pass < 2; pass++){
		if(pass) osc_message_s_cacheDataOffsets(ms);
		for(int i = 0; i < n; i++){
			t_osc_atom_s *a = nullptr;
			osc_message_s_getArg(ms, i, &a);
			if(!a) failv("s-getarg", "serialised argument %d missing", i);
			if(osc_message_s_getTypetag(ms, i) != s.mod.v[i].t) failv("s-typetags", "type tag %d is %c", i, osc_message_s_getTypetag(ms, i));
			Val g = fromAtomS(a);
			if(!(g == s.mod.v[i])) failv("s-getarg", "serialised argument %d is %s, expected %s (%s)", i, text(g).c_str(), text(s.mod.v[i]).c_str(), pass ? "cached offsets" : "no cache");
			if(!pass) atomS(a, s.mod.v[i], cap);
			osc_atom_s_free(a);
		}
	}
	t_osc_msg_u *back = osc_message_s_deserialize(ms);
	cmp("deserialise", fromMsgU(back), s.mod, "deserialised message");
	osc_message_u_free(back);
	osc_message_s_deepFree(ms);
}
GenOpt opt() { GenOpt o; o.depth = 2; o.maxArgs = 3; o.maxMsgs = 2; o.longAddr = true; return o; }
void pushVal(Plan &p, const char *k, std::vector<int64_t> pre, const Val &v)
{
	auto a = packA(v);
	pre.insert(pre.end(), a.begin(), a.end());
	p.op(k, pre, packS(v));
}
Val numVal(Rng &r, const GenOpt &o)
{
	Val v;
	switch(r.below(7)){
	case 5: {
		double d = std::ldexp(1.0 + (double)r.below(256) / 256, (int)r.range(8, 64)) * (r.chance(1, 3) ? -1 : 1);
		return Val::F(r.chance(1, 2) ? 'f' : 'd', d);
	}
	case 0: return Val::S(sprintf_("%d", (int)r.range(-70000, 70000)));
	case 1: return Val::S(sprintf_("%" PRId64, (int64_t)r.next() >> r.range(8, 60)));
	case 2: return Val::S(sprintf_("%d.%d", (int)r.range(-999, 999), (int)r.range(0, 99)));
	case 3: { const double d[] = {1e-300, -1e-46, 1e300, 4.9e-324, 0.0, 1e-10}; return Val::F('d', d[r.below(6)]); }
	case 4: { v.t = 'b'; for(int i = 0, n = r.chance(1, 2) ? 4 : 8; i < n; i++) v.s += (char)r.below(256); return v; }
	}
	return genVal(r, o);
}
void gen(Rng &r, Plan &p, int tier)
{
	arena::genPolicy(r, p);
	p.cfg["cap"] = r.below(12);
	int n = (int)r.range(6, tier ? 70 : 40);
	GenOpt o = opt();
	int top = r.chance(1, 4) ? 48 : 7;
	int used = (int)r.range(1, NSLOT);
	if(r.chance(3, 4)) for(int s = 0; s < used; s++){
		p.op("new", {s, r.range(0, 1)}, genAddr(r));
		for(int k = (int)r.range(1, 5); k > 0; k--) pushVal(p, "put", {s, 0, 0, 0}, genVal(r, o));
	}
	for(int i = 0; i < n; i++){
		int s = (int)r.below(used);
		if(r.chance(1, 6)){ pushVal(p, "loose", {(int64_t)r.below(16)}, numVal(r, o)); continue; }
		if(top > 7 && r.chance(1, 6)) p.op("bulk", {s, r.range(2, 30), (int64_t)(r.next() >> 8)});
		switch(r.below(24)){
		case 0: p.op("new", {s, r.range(0, 1)}, genAddr(r)); break;
		case 1: pushVal(p, "newv", {s}, genVal(r, o)); break;
		case 2: if(r.chance(1, 3)) p.op("free", {s}); break;
		case 3: p.op("addr", {s, r.range(0, 1)}, genAddr(r)); break;
		case 4: case 5: case 6: case 7: case 8: case 9: pushVal(p, "put", {s, r.range(0, 2), r.range(-1, top + 1), r.range(0, 3) == 0}, genVal(r, o)); break;
		case 10: case 11: case 12: pushVal(p, "over", {s, r.range(0, top)}, genVal(r, o)); break;
		case 13: case 14: p.op("rem", {s, r.range(0, top), r.range(0, 1)}); break;
		case 15: p.op("ins", {s, r.range(0, top), r.range(0, 2), r.range(-1, top + 1)}); break;
		case 16: if(r.chance(1, 2)) p.op("clear", {s}); break;
		case 17: case 18: p.op("deep", {s, (int64_t)r.below(used), r.range(0, 1)}); break;
		case 19: p.op("arr", {s, (int64_t)r.below(used), r.range(0, 4), r.range(0, 127), r.range(0, 79)}); break;
		case 20: p.op("neg", {s, r.range(0, top)}); break;
		case 21: p.op("wire", {s, (int64_t)r.below(used)}); break;
		case 22: p.op("copyatom", {s, r.range(0, top), (int64_t)r.below(used), r.range(0, 31)}); break;
		case 23:
			if(r.chance(1, 2)){
				Val v;
				do v = genVal(r, o); while(v.t == 'b' || v.t == '.');
				pushVal(p, "sset", {s, r.range(0, top), r.range(0, 3)}, v);
				break;
			}
			if(r.chance(1, 2)){ p.op("sren", {s, r.range(0, 3)}, genAddr(r)); break; }
			if(r.chance(1, 2)){ p.op("swrap", {s, (int64_t)r.below(used), (int64_t)(r.next() >> 32)}, genAddr(r)); break; }
			p.op("sptr", {s, r.range(0, 2), r.range(-1, top + 1)}, genStr(r, false)); break;
		}
	}
}
// one atom whose value changes over and over
struct Loose {
	t_osc_atom_u *a = nullptr;
	Val v;
	std::vector<char *> held;
	void check(size_t cap) { Val g = fromAtomU(a); if(!(g == v)) failv("loose", "an atom holds %s, expected %s", text(g).c_str(), text(v).c_str()); atomU(a, v, cap); }
};
void put(std::vector<Val> &v, const Val &x, int where, int64_t pos)
{
	if(where == 0 || (where == 2 && pos >= (int64_t)v.size())) v.push_back(x);
	else if(where == 1 || pos <= 0) v.insert(v.begin(), x);
	else v.insert(v.begin() + pos, x);
}
// values written into serialised messages, and into serialised atoms of their own
void sset(Slot8 &s, const Op &o)
{
	Val v;
	if(!unpackVal(o, 3, v) || v.t == 'b' || v.t == '.') return;
	if(o.A(2) == 0){
		t_osc_atom_s *a = osc_atom_s_alloc(0, nullptr);
		setAtomS(a, v);
		Val g = fromAtomS(a);
		if(!(g == v)) failv("s-set", "a serialised atom set to %s holds %s", text(v).c_str(), text(g).c_str());
		std::string w = enc(v);
		if(v.t != 's' && !w.empty() && memcmp(osc_atom_s_getData(a), w.data(), w.size())) failv("s-set", "a serialised atom set to %s has other bytes", text(v).c_str());
		if(v.t != 's' && !w.empty() && osc_atom_s_sizeof(a) != w.size()) failv("s-set", "a serialised atom set to %s has size %zu", text(v).c_str(), osc_atom_s_sizeof(a));
		osc_mem_free(osc_atom_s_getData(a));
		osc_atom_s_free(a);
		return;
	}
	int n = (int)s.mod.v.size();
	if(!n) return;
	int k = (int)((uint64_t)o.A(1) % n);
	Val old = s.mod.v[k];
	t_osc_msg_s *ms = osc_message_u_serialize(s.m);
	if(o.A(2) & 1) osc_message_s_cacheDataOffsets(ms);
	t_osc_msg_s *view = nullptr;
	osc_message_s_copy(&view, ms);
	cmp("s-copy", fromMsgS(view), s.mod, "copied view");
	if(osc_message_s_getData(ms) != osc_message_s_getPtr(ms) + 4 + pad(s.mod.addr).size() + pad(tags(s.mod)).size()) failv("s-view", "argument data is not where the wire format has it");
	t_osc_atom_s *a = nullptr;
	osc_message_s_getArg(ms, k, &a);
	Msg want = s.mod;
	bool inplace = false;
	if(o.A(2) == 2){
		bool i = old.t == 'c' || old.t == 'u' || old.t == 'i' || old.t == 'h', f = old.t == 'f' || old.t == 'd';
		if(i && !(old.t == 'i' && old.i == INT32_MIN) && !(old.t == 'h' && old.i == INT64_MIN)) want.v[k] = Val::I(old.t, -old.i);
		else if(f) want.v[k] = Val::F(old.t, -old.f);
		if(i || f){
			if(want.v[k] == old && i && old.i != 0){}
			else{ osc_atom_s_negate(a); inplace = true; }
		}
	}
	if(!strchr("TFNsb.", old.t) && (v.t == 's' || enc(v).size() != enc(old).size())){
		int64_t q = v.i ? v.i : (int64_t)v.t * 77 - 7000;
		v = old.t == 'f' || old.t == 'd' ? Val::F(old.t, (double)(int32_t)q * 0.5) : old.t == 't' ? Val::T((uint64_t)q) : Val::I(old.t, q);
	}
	if(!inplace && !strchr("TFNsb.", old.t) && v.t != 's' && enc(v).size() == enc(old).size()){
		// a value of the same size
		setAtomS(a, v);
		Val g = fromAtomS(a);
		if(!(g == v)) failv("s-set", "argument %d set to %s reads %s", k, text(v).c_str(), text(g).c_str());
		if(v.t == old.t){ want.v[k] = v; inplace = true; }
		else{
			setAtomS(a, old);
			inplace = true;
		}
	}
	if(inplace){
		probe("wrote into a serialised message");
		cmp("s-set", fromMsgS(ms), want, "serialised message written in place");
		cmp("s-set", fromMsgS(view), want, "view of a message written in place");
		std::string w = encMsg(want);
		w = be32((uint32_t)w.size()) + w;
		if(memcmp(osc_message_s_getPtr(ms), w.data(), w.size())) failv("s-set", "message written in place has other bytes: %s", text(want).c_str());
	}
	osc_atom_s_free(a);
	osc_message_s_free(view);
	osc_message_s_deepFree(ms);
}
void run(const Plan &p, Ctx &c)
{
	Slot8 sl[NSLOT];
	std::vector<Pooled> pool;
	std::vector<char *> bufs;
	Loose lo;
	size_t cap = p.C("cap", 4);
	int edits = 0;
	for(size_t i = 0; i < p.ops.size(); i++){
		const Op &o = p.ops[i];
		c.at(i, o);
		Slot8 &s = sl[((o.A(0) % NSLOT) + NSLOT) % NSLOT];
		bool touched = true;
		auto fresh = [&](Slot8 &x) { if(x.m) osc_message_u_free(x.m); x.m = nullptr; x.mod = Msg(); };
		if(o.k == "loose"){
			Val v;
			if(!unpackVal(o, 1, v)) continue;
			touched = false;
			if(!lo.a){ lo.a = newAtom(v); lo.v = v; }
			else switch(((o.A(0) % 8) + 8) % 8){
			case 0: case 1: setAtom(lo.a, v); lo.v = v; break;
			case 2: {   // lent or given memory
				if(v.t != 's' && v.t != 'b') break;
				std::string b = v.t == 's' ? std::string(v.s.c_str(), v.s.size() + 1) : be32((uint32_t)v.s.size()) + v.s;
				bool give = o.A(0) & 8;
				char *q = give ? (char *)osc_mem_alloc(b.size()) : arena::callerBytes(b.data(), b.size());
				if(give) memcpy(q, b.data(), b.size());
				else lo.held.push_back(q);
				if(v.t == 's') osc_atom_u_setStringPtr(lo.a, q);
				else osc_atom_u_setBlobPtr(lo.a, q);
				if(give) osc_atom_u_setShouldFreePtr(lo.a, 1);
				lo.v = v;
				probe(give ? "gave an atom its memory" : "lent an atom its memory");
				break;
			}
			case 3:   // its own value again
				if(lo.v.t == 's') osc_atom_u_setString(lo.a, osc_atom_u_getStringPtr(lo.a));
				else if(lo.v.t == 'b') osc_atom_u_setBlob(lo.a, osc_atom_u_getBlob(lo.a));
				break;
			case 4: {
				bool u = strchr("CUIH", lo.v.t);
				uint64_t lim = lo.v.t == 'C' ? 128 : lo.v.t == 'U' ? 32768 : lo.v.t == 'I' ? 0x80000000u : 0x8000000000000000u;
				if(u && (uint64_t)lo.v.i < lim){ osc_atom_u_negate(lo.a); lo.v = Val::I((char)(lo.v.t == 'C' ? 'c' : lo.v.t == 'U' ? 'u' : lo.v.t == 'I' ? 'i' : 'h'), -lo.v.i); probe("negated an unsigned value"); }
				else if(strchr("sTFNtb.", lo.v.t)) osc_atom_u_negate(lo.a);
				break;
			}
			case 5: {
				t_osc_atom_u *cp = nullptr;
				if(o.A(0) & 8) cp = osc_atom_u_copy(lo.a);
				else osc_atom_u_copyInto(&cp, lo.a);
				osc_atom_u_free(lo.a);
				lo.a = cp;
				break;
			}
			case 6: {
				t_osc_atom_s *as = osc_atom_u_serialize(lo.a);
				t_osc_atom_u *b = osc_atom_s_deserialize(as);
				char *data = osc_atom_s_getData(as);
				osc_atom_s_free(as);
				osc_mem_free(data);
				osc_atom_u_free(lo.a);
				lo.a = b;
				break;
			}
			case 7:
				if(v.t == 'T' || v.t == 'F'){ osc_atom_u_setBool(lo.a, v.t == 'T' ? (int)(o.A(0) | 1) * 256 : 0); lo.v = v; }
				else if(v.t == '.'){ osc_atom_u_setBndl_u(lo.a, toBndlU(*v.b)); lo.v = v; }
				else{ osc_atom_u_clear(lo.a); setAtom(lo.a, v); lo.v = v; }
			}
			lo.check(cap);
			c.log("loose " + text(lo.v));
			continue;
		}
		if(o.k == "new"){
			if(o.s.empty() || o.s[0] != '/') continue;
			fresh(s);
			s.mod.addr = std::string(o.s.c_str());
			s.m = toMsgU(s.mod, o.A(1) ? 2 : 0);
		}else if(o.k == "newv"){
			Val v;
			if(!unpackVal(o, 1, v)) continue;
			fresh(s);
			s.mod.addr = "/n";
			char *a = arena::callerBytes("/n", 3);
			switch(v.t){
			case 'f': s.m = osc_message_u_allocWithFloat(a, (float)v.f); break;
			case 'd': s.m = osc_message_u_allocWithDouble(a, v.f); break;
			case 'i': s.m = osc_message_u_allocWithInt(a, (int)v.i); break;
			case 't': s.m = osc_message_u_allocWithTimetag(a, toTT((uint64_t)v.i)); break;
			case 's': { char *q = arena::callerBytes(v.s.c_str(), v.s.size() + 1); s.m = osc_message_u_allocWithString(a, q); arena::callerFree(q); break; }
			case 'b': { std::string b = be32((uint32_t)v.s.size()) + v.s; char *q = arena::callerBytes(b.data(), b.size()); s.m = osc_message_u_allocWithBlob(a, q); arena::callerFree(q); break; }
			default: s.m = osc_message_u_allocWithAddress(a); addVal(s.m, v, 1);
			}
			arena::callerFree(a);
			s.mod.v.push_back(v);
		}else if(o.k == "free"){ fresh(s); touched = false; }
		else{
			if(!s.m) continue;
			int n = (int)s.mod.v.size();
			auto idx = [&](int64_t x) { return n ? (int)(((x % n) + n) % n) : -1; };
			if(o.k == "addr"){
				if(o.s.empty() || o.s[0] != '/') continue;
				std::string ad = o.s.c_str();
				if(o.A(1)){
					char *na = (char *)osc_mem_alloc(ad.size() + 1), *old = nullptr;
					memcpy(na, ad.c_str(), ad.size() + 1);
					osc_message_u_setAddressPtr(s.m, na, &old);
					if(!old || s.mod.addr != old) failv("address", "setAddressPtr handed back %s, expected %s", old ? old : "(null)", s.mod.addr.c_str());
					osc_mem_free(old);
				}else{
					char *q = arena::callerBytes(ad.c_str(), ad.size() + 1);
					osc_message_u_setAddress(s.m, q);
					arena::callerFree(q);
				}
				s.mod.addr = ad;
			}else if(o.k == "put"){
				Val v;
				if(!unpackVal(o, 4, v)) continue;
				int w = (int)(o.A(1) % 3);
				if(o.A(3)){
					t_osc_atom_u *a = newAtom(v);
					if(w == 0) osc_message_u_appendAtom(s.m, a);
					else if(w == 1) osc_message_u_prependAtom(s.m, a);
					else osc_message_u_insertAtom(s.m, a, (int)o.A(2));
				}else putVal(s.m, v, w, (int)o.A(2));
				put(s.mod.v, v, w, o.A(2));
				edits++;
			}else if(o.k == "bulk"){
				Rng q((uint64_t)o.A(2));
				GenOpt g = opt();
				g.nested = g.blobs = false;
				for(int64_t k = o.A(1); k > 0 && s.mod.v.size() < 120; k--){
					Val v = genVal(q, g);
					putVal(s.m, v, 0, 0);
					s.mod.v.push_back(v);
				}
				if(s.mod.v.size() > 16) probe("edited a long message");
			}else if(o.k == "sptr"){
				// the message borrows the caller's string
				std::string x = o.s.c_str();
				char *q = arena::callerBytes(x.c_str(), x.size() + 1);
				bufs.push_back(q);
				int w = (int)(o.A(1) % 3);
				if(w == 0) osc_message_u_appendStringPtr(s.m, q);
				else if(w == 1) osc_message_u_prependStringPtr(s.m, q);
				else osc_message_u_insertStringPtr(s.m, q, (int)o.A(2));
				put(s.mod.v, Val::S(x), w, o.A(2));
				edits++;
			}else if(o.k == "over"){
				Val v;
				int k = idx(o.A(1));
				if(k < 0 || !unpackVal(o, 2, v)) continue;
				probe("overwrote an argument");
				if(strchr("sb.", s.mod.v[k].t) && !strchr("sb.", v.t)) probe("owned value overwritten by a scalar");
				setAtom(osc_message_u_getArg(s.m, k), v);
				s.mod.v[k] = v;
				edits++;
			}else if(o.k == "rem"){
				int k = idx(o.A(1));
				if(k < 0) continue;
				t_osc_atom_u *a = osc_message_u_getArg(s.m, k);
				osc_message_u_removeAtom(s.m, a);
				if(o.A(2)) pool.push_back({a, s.mod.v[k]});
				else osc_atom_u_free(a);
				s.mod.v.erase(s.mod.v.begin() + k);
				edits++;
			}else if(o.k == "ins"){
				if(pool.empty()) continue;
				size_t k = (size_t)o.A(1) % pool.size();
				int w = (int)(o.A(2) % 3);
				if(w == 0) osc_message_u_appendAtom(s.m, pool[k].a);
				else if(w == 1) osc_message_u_prependAtom(s.m, pool[k].a);
				else osc_message_u_insertAtom(s.m, pool[k].a, (int)o.A(3));
				put(s.mod.v, pool[k].v, w, o.A(3));
				pool.erase(pool.begin() + k);
				probe("reinserted a removed atom");
				edits++;
			}else if(o.k == "clear"){
				osc_message_u_clearArgs(s.m);
				s.mod.v.clear();
			}else if(o.k == "deep"){
				Slot8 &d = sl[((o.A(1) % NSLOT) + NSLOT) % NSLOT];
				if(&d == &s) continue;
				if(o.A(2)) fresh(d);
				if(d.m) probe("deep copy over an existing message");
				osc_message_u_deepCopy(&d.m, s.m);
				d.mod = s.mod;
				if(!d.m) failv("deepcopy", "no copy");
				verify(d, cap);
			}else if(o.k == "arr"){
				Slot8 &d = sl[((o.A(1) % NSLOT) + NSLOT) % NSLOT];
				if(&d == &s) continue;
				t_osc_atom_ar_u *ar = osc_message_u_getArgArrayCopy(s.m);
				if(!ar) failv("array", "no argument array");
				if(osc_atom_array_u_getLen(ar) != n) failv("array", "argument array has %ld elements, expected %d", osc_atom_array_u_getLen(ar), n);
				if(o.A(3)){
					t_osc_msg_s *ms = osc_message_u_serialize(s.m);
					if(o.A(3) & 64) osc_message_s_cacheDataOffsets(ms);
					numArrays(s.mod.v, ar, ms, (unsigned)o.A(3) & 63);
					osc_message_s_deepFree(ms);
					probe("array of atoms as an array of numbers");
				}
				if(o.A(2) == 4){                          // over part of another array, over itself, or into a new one
					int64_t off = ((o.A(4) >> 2) % 20 + 20) % 20;
					bool self = (o.A(4) & 3) == 1, none = (o.A(4) & 3) == 2;
					std::vector<Val> w = self ? s.mod.v : none || !d.m ? std::vector<Val>() : d.mod.v;
					t_osc_atom_ar_u *to = self ? ar : none || !d.m ? nullptr : osc_message_u_getArgArrayCopy(d.m);
					if(w.size() > 100){ osc_atom_array_u_free(ar); if(to && to != ar) osc_atom_array_u_free(to); continue; }
					size_t had = w.size();
					if(osc_atom_array_u_copyInto(&to, ar, off) || !to) failv("array", "an array cannot be copied into another");
					if(w.size() < n + (size_t)off) w.resize(n + off);
					for(int k = 0; k < n; k++) w[off + k] = s.mod.v[k];
					if(osc_atom_array_u_getLen(to) != (long)w.size()) failv("array", "%d elements copied to position %" PRId64 " of %zu give %ld", n, off, had, osc_atom_array_u_getLen(to));
					for(size_t k = 0; k < w.size(); k++){
						if(k >= had && k < (size_t)off) continue;
						Val g = fromAtomU((t_osc_atom_u *)osc_atom_array_u_get(to, (long)k));
						if(!(g == w[k])) failv("array", "element %zu is %s after %d elements were copied to position %" PRId64 " of %zu, expected %s", k, text(g).c_str(), n, off, had, text(w[k]).c_str());
					}
					if(to != ar) osc_atom_array_u_free(to);
					for(int k = 0; k < n && to != ar; k++){
						Val g = fromAtomU((t_osc_atom_u *)osc_atom_array_u_get(ar, k));
						if(!(g == s.mod.v[k])) failv("array", "copying an array changed element %d to %s", k, text(g).c_str());
					}
					osc_atom_array_u_free(ar);
					probe("array copied into an array");
					continue;
				}
				if(o.A(2) == 2 && n){
					t_osc_atom_ar_u *cp = osc_atom_array_u_copy(ar);
					osc_atom_array_u_free(ar);
					ar = cp;
				}
				for(int k = 0; k < n; k++){
					Val g = fromAtomU((t_osc_atom_u *)osc_atom_array_u_get(ar, k));
					if(!(g == s.mod.v[k])) failv("array", "array element %d is %s, expected %s", k, text(g).c_str(), text(s.mod.v[k]).c_str());
				}
				if(o.A(2) == 3 && d.m && d.mod.v.size() < 100){   // after the arguments that are there
					osc_message_u_setArgArrayCopy(d.m, ar);
					osc_atom_array_u_free(ar);
					d.mod.v.insert(d.mod.v.end(), s.mod.v.begin(), s.mod.v.end());
					verify(d, cap);
					continue;
				}
				fresh(d);
				char *a = arena::callerBytes("/arr", 5);
				if(o.A(2) == 0) d.m = osc_message_u_allocWithArray(a, ar);
				else{ d.m = osc_message_u_allocWithAddress(a); osc_message_u_setArgArrayCopy(d.m, ar); }
				arena::callerFree(a);
				osc_atom_array_u_free(ar);
				d.mod = Msg("/arr", s.mod.v);
				verify(d, cap);
			}else if(o.k == "neg"){
				int k = idx(o.A(1));
				if(k < 0) continue;
				Val v = s.mod.v[k];
				t_osc_atom_u *a = osc_message_u_getArg(s.m, k);
				if((v.t == 'i' && v.i == INT32_MIN) || (v.t == 'h' && v.i == INT64_MIN)) continue;
				if(v.t == 'f' || v.t == 'd') v = Val::F(v.t, -v.f);
				else if(strchr("cuih", v.t)) v = Val::I(v.t, -v.i);
				else continue;
				osc_atom_u_negate(a);
				s.mod.v[k] = v;
				edits++;
			}else if(o.k == "wire"){
				Slot8 &d = sl[((o.A(1) % NSLOT) + NSLOT) % NSLOT];
				t_osc_msg_s *ms = osc_message_u_serialize(s.m);
				t_osc_msg_u *m = osc_message_s_deserialize(ms);
				osc_message_s_deepFree(ms);
				Msg mod = s.mod;
				for(auto &v : mod.v) byteorder(v);
				fresh(d);
				d.m = m;
				d.mod = mod;
				verify(d, cap);
			}else if(o.k == "sset"){
				sset(s, o);
			}else if(o.k == "sren"){
				if(o.s.size() < 2 || o.s[0] != '/' || o.s.find('\0') != std::string::npos) continue;
				t_osc_msg_s *ms;
				std::string w;
				char *bare = nullptr;
				if(o.A(1) == 1){                          // a message of an address and nothing else
					w = pad(s.mod.addr);
					w = be32((uint32_t)w.size()) + w;
					bare = arena::callerBytes(w.data(), w.size());
					ms = osc_message_s_alloc();
					osc_message_s_wrap(ms, bare);
					if(s.mod.addr != osc_message_s_getAddress(ms) || osc_message_s_getArgCount(ms)) failv("bare", "a message without type tags has address %s and %d arguments", osc_message_s_getAddress(ms), osc_message_s_getArgCount(ms));
					cmp("bare", fromMsgS(ms), Msg(s.mod.addr), "a message without type tags");
					t_osc_msg_u *u = osc_message_s_deserialize(ms);
					cmp("bare", fromMsgU(u), Msg(s.mod.addr), "a message without type tags, deserialised");
					osc_message_u_free(u);
					w = pad(o.s);
				}else{
					ms = osc_message_u_serialize(s.m);
					w = encMsg(Msg(o.s, s.mod.v));
				}
				w = be32((uint32_t)w.size()) + w;
				char *ad = arena::callerBytes(o.s.c_str(), o.s.size() + 1), *d = arena::callerBuf(w.size());
				int32_t l = osc_message_s_renameCopy(d, ms, (int32_t)o.s.size(), ad);
				if(l != (int32_t)w.size() - 4 || memcmp(d, w.data(), w.size())) failv("rename", "renaming %s to %s gives %d bytes: %s", text(s.mod).c_str(), o.s.c_str(), l, esc(std::string(d, w.size())).c_str());
				char *e = arena::callerBytes("x", 2);
				if(osc_message_s_renameCopy(d, ms, 1, e) || osc_message_s_renameCopy(nullptr, ms, (int32_t)o.s.size(), ad)) failv("rename", "renaming without a valid address or destination reports a length");
				if(memcmp(d, w.data(), w.size())) failv("rename", "a refused renaming wrote to the destination");
				arena::callerFree(e);
				arena::callerFree(ad);
				arena::callerFree(d);
				if(bare){ osc_message_s_free(ms); arena::callerFree(bare); }
				else osc_message_s_deepFree(ms);
				probe(bare ? "renamed a message without type tags" : "renamed a serialised message");
			}else if(o.k == "swrap"){
				// one message object over several messages, with and without remembered offsets, and its copies
				Slot8 &d = sl[((o.A(1) % NSLOT) + NSLOT) % NSLOT];
				if(!d.m) continue;
				std::vector<Msg> ms = {s.mod, d.mod, Msg(s.mod.addr, d.mod.v)};
				std::vector<char *> mem;
				for(auto &q : ms){
					std::string w = encMsg(q);
					w = be32((uint32_t)w.size()) + w;
					mem.push_back(arena::callerBytes(w.data(), w.size()));
				}
				t_osc_msg_s *x[2] = {osc_message_s_alloc(), osc_message_s_alloc()};
				int is[2] = {-1, -1};
				uint64_t bits = (uint64_t)o.A(2);
				for(int step = 0; step < 8; step++, bits >>= 4){
					int a = (int)(bits & 1), k = (int)((bits >> 1) % 3), m = is[a];
					switch((bits >> 1) & 7){
					case 0: case 1: case 2: osc_message_s_wrap(x[a], mem[k]); is[a] = k; break;
					case 3: case 4: case 5: if(m >= 0) osc_message_s_cacheDataOffsets(x[a]); break;
					default: if(m >= 0 && is[1 - a] >= -1){ osc_message_s_copy(&x[1 - a], x[a]); is[1 - a] = m; }
					}
					for(int j = 0; j < 2; j++){
						if(is[j] < 0) continue;
						const Msg &q = ms[is[j]];
						cmp("rewrap", fromMsgS(x[j]), q, "a message object used for several messages");
						for(int i = (int)q.v.size() - 1; i >= 0; i--){
							t_osc_atom_s *at = nullptr;
							osc_message_s_getArg(x[j], i, &at);
							Val g = at ? fromAtomS(at) : Val();
							if(!at || !(g == q.v[i])) failv("rewrap", "argument %d of a message object used for several messages is %s, expected %s", i, text(g).c_str(), text(q.v[i]).c_str());
							osc_atom_s_free(at);
						}
					}
				}
				osc_message_s_free(x[0]);
				osc_message_s_free(x[1]);
				for(auto q : mem) arena::callerFree(q);
				probe("one message object over several messages");
			}else if(o.k == "copyatom"){
				Slot8 &d = sl[((o.A(2) % NSLOT) + NSLOT) % NSLOT];
				int k = idx(o.A(1));
				if(k < 0 || !d.m) continue;
				t_osc_atom_u *src = osc_message_u_getArg(s.m, k);
				Val v = s.mod.v[k];
				t_osc_atom_u *cp = nullptr;
				if(o.A(3) & 1) cp = osc_atom_u_copy(src);
				else osc_atom_u_copyInto(&cp, src);
				if(o.A(3) & 2) osc_message_u_appendAtom(d.m, cp);
				else osc_message_u_insertAtom(d.m, cp, (int)(o.A(3) >> 2));
				put(d.mod.v, v, o.A(3) & 2 ? 0 : 2, o.A(3) >> 2);
				verify(d, cap);
				edits++;
			}else continue;
			if(n >= 2 && edits >= 2) c.nontrivial();
		}
		if(touched && s.m){
			verify(s, cap);
			c.log(text(s.mod));
			stateHash(fnv(text(s.mod).data(), text(s.mod).size()));
		}
	}
	for(auto &x : sl) if(x.m){ verify(x, cap); osc_message_u_free(x.m); }
	for(auto &x : pool){
		Val g = fromAtomU(x.a);
		if(!(g == x.v)) failv("detached", "a removed argument changed from %s to %s", text(x.v).c_str(), text(g).c_str());
		osc_atom_u_free(x.a);
	}
	for(auto q : bufs) arena::callerFree(q);
	if(lo.a) osc_atom_u_free(lo.a);
	for(auto q : lo.held) arena::callerFree(q);
}
Reg reg(Scenario{"L08", gen, run, 20000, 400000,
	"the run edited a message that held at least two arguments and compared every view of it with the model",
	"osc_message_u.c osc_message_s.c osc_atom_u.c osc_atom_s.c osc_atom_array_u.c osc_array.c osc_mem.c and the iterators, compiled from /repo",
	"the allocator (osc_set_mem) is simulated: guarded blocks, seeded contents and reuse",
	"strings passed to the API are NUL-terminated and addresses begin with a slash; float to integer conversions are checked only where the value fits"});
}
