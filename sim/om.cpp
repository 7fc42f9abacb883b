#include "om.h"
#include <cmath>
#include <cinttypes>
using namespace sim;
namespace om {
Val Val::I(char t, int64_t v)
{
	Val x;
	x.t = t;
	switch(t){
	case 'c': v = (int8_t)v; break;
	case 'C': v = (uint8_t)v; break;
	case 'u': v = (int16_t)v; break;
	case 'U': v = (uint16_t)v; break;
	case 'i': v = (int32_t)v; break;
	case 'I': v = (uint32_t)v; break;
	}
	x.i = v;
	return x;
}
Val Val::F(char t, double v)
{
	Val x;
	x.t = t;
	x.f = t == 'f' ? (double)(float)v : v;
	return x;
}
Val Val::B(const Bndl &b)
{
	Val v;
	v.t = '.';
	v.b = std::make_shared<Bndl>(b);
	return v;
}
bool Val::isInt() const { return strchr("cCuUiIhH", t) && t; }
static uint32_t fbits(double d) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; }
static uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
bool operator==(const Val &a, const Val &b)
{
	if(a.t != b.t) return false;
	switch(a.t){
	case 'f': return fbits(a.f) == fbits(b.f);
	case 'd': return dbits(a.f) == dbits(b.f);
	case 's': case 'b': return a.s == b.s;
	case '.': return *a.b == *b.b;
	case 'T': case 'F': case 'N': return true;
	default: return a.i == b.i;
	}
}
bool operator==(const Msg &a, const Msg &b) { return a.addr == b.addr && a.v == b.v; }
bool operator==(const Bndl &a, const Bndl &b) { return a.tt == b.tt && a.m == b.m; }

std::string be32(uint32_t v) { char c[4] = {(char)(v >> 24), (char)(v >> 16), (char)(v >> 8), (char)v}; return std::string(c, 4); }
std::string be64(uint64_t v) { return be32((uint32_t)(v >> 32)) + be32((uint32_t)v); }
uint32_t rd32(const std::string &s, size_t o)
{
	const unsigned char *p = (const unsigned char *)s.data() + o;
	return (uint32_t)p[0] << 24 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 8 | p[3];
}
uint64_t rd64(const std::string &s, size_t o) { return (uint64_t)rd32(s, o) << 32 | rd32(s, o + 4); }
std::string pad(const std::string &s)
{
	std::string o = s;
	do o += '\0'; while(o.size() % 4);
	return o;
}
std::string enc(const Val &v)
{
	switch(v.t){
	case 'c': case 'C': case 'u': case 'U': case 'i': case 'I': return be32((uint32_t)v.i);
	case 'h': case 'H': case 't': return be64((uint64_t)v.i);
	case 'f': return be32(fbits(v.f));
	case 'd': return be64(dbits(v.f));
	case 's': return pad(v.s);
	case 'b': {
		std::string o = be32((uint32_t)v.s.size()) + v.s;
		while(o.size() % 4) o += '\0';
		return o;
	}
	case '.': { std::string e = enc(*v.b); return be32((uint32_t)e.size()) + e; }
	}
	return "";
}
std::string tags(const Msg &m)
{
	std::string t = ",";
	for(auto &v : m.v) t += v.t;
	return t;
}
std::string encMsg(const Msg &m)
{
	std::string o = pad(m.addr) + pad(tags(m));
	for(auto &v : m.v) o += enc(v);
	return o;
}
std::string enc(const Bndl &b)
{
	std::string o = std::string("#bundle\0", 8) + be64(b.tt);
	for(auto &m : b.m){
		std::string e = encMsg(m);
		o += be32((uint32_t)e.size()) + e;
	}
	return o;
}
static bool rdStr(const std::string &s, size_t &o, std::string &out, std::string &why)
{
	size_t e = s.find('\0', o);
	if(e == std::string::npos){ why = "unterminated string"; return false; }
	out = s.substr(o, e - o);
	size_t n = e + 1;
	while((n - o) % 4){
		if(n >= s.size()){ why = "string padding cut short"; return false; }
		if(s[n]){ why = "string padding not zero"; return false; }
		n++;
	}
	o = n;
	return true;
}
bool decMsg(const std::string &s, Msg &out, std::string &why)
{
	out = Msg();
	size_t o = 0;
	if(s.size() % 4){ why = "message length not a multiple of 4"; return false; }
	if(!rdStr(s, o, out.addr, why)) return false;
	if(out.addr.empty() || out.addr[0] != '/'){ why = "address without leading slash"; return false; }
	if(o == s.size()) { why = "no type tags"; return false; }
	std::string tt;
	if(!rdStr(s, o, tt, why)) return false;
	if(tt.empty() || tt[0] != ','){ why = "type tags without comma"; return false; }
	for(size_t k = 1; k < tt.size(); k++){
		Val v;
		v.t = tt[k];
		size_t need = 0;
		switch(v.t){
		case 'c': case 'C': case 'u': case 'U': case 'i': case 'I': case 'f': case 'b': case '.': need = 4; break;
		case 'h': case 'H': case 'd': case 't': need = 8; break;
		case 'T': case 'F': case 'N': case 's': break;
		default: why = sprintf_("unknown type tag %02x", (unsigned char)v.t); return false;
		}
		if(o + need > s.size()){ why = "argument data cut short"; return false; }
		switch(v.t){
		case 'c': case 'u': case 'i': v = Val::I(v.t, (int32_t)rd32(s, o)); if((int32_t)rd32(s, o) != v.i){ why = "narrow integer out of range"; return false; } o += 4; break;
		case 'C': case 'U': case 'I': v = Val::I(v.t, rd32(s, o)); if(rd32(s, o) != v.i){ why = "narrow unsigned out of range"; return false; } o += 4; break;
		case 'h': case 'H': case 't': v.i = (int64_t)rd64(s, o); o += 8; break;
		case 'f': { uint32_t u = rd32(s, o); float f; memcpy(&f, &u, 4); v.f = f; if(fbits(v.f) != u){ /* NaN payloads */ } o += 4; break; }
		case 'd': { uint64_t u = rd64(s, o); memcpy(&v.f, &u, 8); o += 8; break; }
		case 's': if(!rdStr(s, o, v.s, why)) return false; break;
		case 'b': {
			uint32_t n = rd32(s, o);
			o += 4;
			if(n > s.size() - o){ why = "blob cut short"; return false; }
			v.s = s.substr(o, n);
			size_t e = o + n;
			while((e - o) % 4){
				if(e >= s.size()){ why = "blob padding cut short"; return false; }
				if(s[e]){ why = "blob padding not zero"; return false; }
				e++;
			}
			o = e;
			break;
		}
		case '.': {
			uint32_t n = rd32(s, o);
			o += 4;
			if(n > s.size() - o){ why = "nested bundle cut short"; return false; }
			Bndl b;
			if(!dec(s.substr(o, n), b, why)){ why = "nested: " + why; return false; }
			v.b = std::make_shared<Bndl>(b);
			o += n;
			break;
		}
		}
		out.v.push_back(v);
	}
	if(o != s.size()){ why = sprintf_("%zu bytes of argument data beyond the type tags", s.size() - o); return false; }
	return true;
}
bool dec(const std::string &s, Bndl &out, std::string &why)
{
	out = Bndl();
	if(s.size() < 16){ why = "bundle shorter than its header"; return false; }
	if(s.size() % 4){ why = "bundle length not a multiple of 4"; return false; }
	if(memcmp(s.data(), "#bundle\0", 8)){ why = "no bundle identifier"; return false; }
	out.tt = rd64(s, 8);
	size_t o = 16;
	while(o < s.size()){
		if(o + 4 > s.size()){ why = "message size cut short"; return false; }
		uint32_t n = rd32(s, o);
		o += 4;
		if(n > s.size() - o){ why = "message cut short"; return false; }
		Msg m;
		if(!decMsg(s.substr(o, n), m, why)) return false;
		out.m.push_back(m);
		o += n;
	}
	return true;
}
std::string text(const Val &v)
{
	switch(v.t){
	case 'f': case 'd': return sprintf_("%c:%.17g", v.t, v.f);
	case 's': return "s:\"" + esc(v.s) + "\"";
	case 'b': return "b:\"" + esc(v.s) + "\"";
	case '.': return text(*v.b);
	case 'T': case 'F': case 'N': return std::string(1, v.t);
	case 't': return sprintf_("t:%016" PRIx64, (uint64_t)v.i);
	case 'H': return sprintf_("H:%" PRIu64, (uint64_t)v.i);
	default: return sprintf_("%c:%" PRId64, v.t, v.i);
	}
}
std::string text(const Msg &m)
{
	std::string o = esc(m.addr) + "(";
	for(size_t i = 0; i < m.v.size(); i++) o += (i ? " " : "") + text(m.v[i]);
	return o + ")";
}
std::string text(const Bndl &b)
{
	std::string o = "{";
	if(b.tt) o += sprintf_("@%016" PRIx64 " ", b.tt);
	for(size_t i = 0; i < b.m.size(); i++) o += (i ? ", " : "") + text(b.m[i]);
	return o + "}";
}

// ---------------------------------------------------------------- random material
int64_t genInt(Rng &r, char t)
{
	static const int64_t edge[] = {0, 1, -1, 2, 5, 7, 10, 100, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, -32768, 2147483647LL, -2147483648LL, 4294967295LL, 4294967296LL, 9223372036854775807LL, (-9223372036854775807LL - 1), 47, 0x2f2f2f2f, 44};
	int64_t v;
	if(r.chance(1, 2)) v = edge[r.below(sizeof edge / sizeof *edge)];
	else if(r.chance(1, 2)) v = r.range(-20, 20);
	else v = (int64_t)r.next();
	return Val::I(t, v).i;
}
double genFloat(Rng &r, char t)
{
	static const double edge[] = {0, 1, -1, 0.5, 3.25, 1e10, -1e-10, 123456.789, 1e300, 3.4028234e38, -0.0, 0.1, 100, 2147483648.0};
	double d = r.chance(1, 2) ? edge[r.below(sizeof edge / sizeof *edge)] : (r.unit() - 0.5) * (r.chance(1, 2) ? 10 : 1e6);
	if(t == 'f'){ if(std::fabs(d) > 3e38) d = 1e30; d = (float)d; }
	return d;
}
// a size near one of the limits that counters and buffers tend to have
static size_t bigSize(Rng &r)
{
	static const size_t lim[] = {64, 127, 128, 255, 256, 257, 512, 1000, 1024, 2048, 4096, 5000};
	return lim[r.chance(3, 4) ? r.below(8) : r.below(12)] - 4 + r.below(8);
}
std::string genStr(Rng &r, bool plain)
{
	size_t n = r.chance(1, 8) ? r.below(70) : r.below(10);
	if(r.chance(1, 80)) n = bigSize(r);
	std::string s;
	static const char pl[] = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 _-./#:";
	static const char odd[] = "\"\\'`,[]{}*?~!\n\t()=;%$&<>|";
	for(size_t i = 0; i < n; i++){
		if(plain || r.chance(3, 4)) s += pl[r.below(sizeof pl - 1)];
		else if(r.chance(4, 5)) s += odd[r.below(sizeof odd - 1)];
		else s += (char)r.range(1, 255);
	}
	if(!plain && r.chance(1, 16)) s = "#bundle";
	return s;
}
std::string genAddr(Rng &r)
{
	static const std::vector<std::string> part = {"a", "b", "c", "foo", "bar", "ab", "abc", "foobar", "x", "1", "2", "list0", "osc"};
	std::string s;
	int n = r.chance(1, 2) ? 1 : (int)r.range(1, 4);
	for(int i = 0; i < n; i++) s += "/" + r.pick(part);
	if(r.chance(1, 12)) s += std::string(r.below(9), 'z');
	if(r.chance(1, 120)) s += std::string(r.range(56, 136), 'q');   // the library's matching gives up (with an error) after 1024 choices
	return s;
}
Val genVal(Rng &r, const GenOpt &o)
{
	for(;;){
		static const char all[] = "ihIHcCuUfdssTFNtb.iifd";
		char t = all[r.below(sizeof all - 1)];
		switch(t){
		case 'f': case 'd': return Val::F(t, genFloat(r, t));
		case 's': if(!o.strings) continue; return Val::S(genStr(r, o.plainStrings));
		case 'b': { if(!o.blobs) continue; std::string s; size_t n = r.chance(1, 30) ? bigSize(r) : r.below(14); for(size_t i = 0; i < n; i++) s += (char)r.below(256); return Val::Blob(s); }
		case 't': if(!o.timetags) continue; return Val::T(r.chance(1, 3) ? r.below(3) : r.next());
		case '.': {
			if(!o.nested || o.depth <= 0) continue;
			GenOpt q = o;
			q.depth--;
			q.maxMsgs = 3;
			q.bulk = false;
			return Val::B(genBndl(r, q));
		}
		case 'T': case 'F': case 'N': return Val::Tag(t);
		default: return Val::I(t, genInt(r, t));
		}
	}
}
Msg genMsg(Rng &r, const GenOpt &o)
{
	Msg m;
	m.addr = genAddr(r);
	if(o.longAddr && r.chance(1, 80)) m.addr += std::string(bigSize(r), 'q');
	int n = (int)r.range(0, o.maxArgs);
	if(o.maxArgs > 1 && r.chance(1, 40)) n = (int)r.range(8, 40);
	if(o.maxArgs > 4 && r.chance(1, 100)){
		GenOpt q = o;
		q.nested = false;
		q.blobs = false;
		for(n = (int)bigSize(r) % 600; n > 40; n--) m.v.push_back(genVal(r, q));
	}
	for(int i = 0; i < n; i++) m.v.push_back(genVal(r, o));
	return m;
}
bool g_noBulk;
Bndl genBndl(Rng &r, const GenOpt &o)
{
	Bndl b;
	int n = (int)r.range(0, o.maxMsgs);
	for(int i = 0; i < n; i++) b.m.push_back(genMsg(r, o));
	if(o.bulk && !g_noBulk && r.chance(1, 100)){
		GenOpt q = o;
		q.nested = q.blobs = q.longAddr = false;
		q.maxArgs = 2;
		for(int k = (int)r.range(12, r.chance(1, 2) ? 40 : 280); k > 0; k--){
			b.m.push_back(genMsg(r, q));
			if(r.chance(1, 2)) b.m.back().addr += "/" + std::to_string(r.below(300));
		}
	}
	if(o.nestedTime && r.chance(1, 2)) b.tt = r.next();
	return b;
}

void dropTime(Bndl &b)
{
	b.tt = 0;
	for(auto &m : b.m) for(auto &v : m.v) if(v.t == '.' && v.b){
		v.b = std::make_shared<Bndl>(*v.b);
		dropTime(*v.b);
	}
}
bool unpackBndl(const std::string &s, Bndl &out, bool keepTime)
{
	std::string why;
	if(!dec(s, out, why)) return false;
	if(!keepTime) dropTime(out);
	return true;
}
bool unpackMsg(const std::string &s, Msg &out)
{
	std::string why;
	return decMsg(s, out, why);
}
std::vector<int64_t> packA(const Val &v)
{
	int64_t i = v.i;
	if(v.t == 'f' || v.t == 'd') memcpy(&i, &v.f, 8);
	return {v.t, i};
}
std::string packS(const Val &v)
{
	if(v.t == '.') return enc(*v.b);
	return v.s;
}
bool unpack(int64_t t, int64_t i, const std::string &s, Val &out)
{
	if(t <= 0 || t > 127 || !strchr("cCuUiIhHfdsTFNtb.", (int)t)) return false;
	out = Val();
	out.t = (char)t;
	switch(t){
	case 'f': case 'd': {
		double d;
		memcpy(&d, &i, 8);
		if(std::isnan(d)) d = 0;
		out = Val::F((char)t, d);
		break;
	}
	case 's': out.s = std::string(s.c_str()); break;
	case 'b': out.s = s; break;
	case 't': out.i = i; break;
	case '.': {
		Bndl b;
		if(!unpackBndl(s, b, false)) return false;
		out = Val::B(b);
		break;
	}
	case 'T': case 'F': case 'N': break;
	default: out = Val::I((char)t, i);
	}
	return true;
}
bool unpackVal(const sim::Op &o, size_t at, Val &out) { return unpack(o.A(at, 'N'), o.A(at + 1), o.s, out); }

// ---------------------------------------------------------------- address patterns
static std::vector<std::string> parts(const std::string &a)
{
	std::vector<std::string> v;
	size_t i = 0;
	while(i < a.size()){
		size_t e = a.find('/', i + 1);
		if(e == std::string::npos) e = a.size();
		v.push_back(a.substr(i + 1, e - i - 1));
		i = e;
	}
	return v;
}
static bool matchPart(const char *p, const char *a)
{
	for(;;){
		if(!*p) return !*a;
		switch(*p){
		case '*':
			for(const char *q = a;; q++){
				if(matchPart(p + 1, q)) return true;
				if(!*q) return false;
			}
		case '?':
			if(!*a) return false;
			p++, a++;
			break;
		case '[': {
			if(!*a) return false;
			const char *q = p + 1;
			bool neg = *q == '!', in = false;
			if(neg) q++;
			while(*q && *q != ']'){
				if(q[1] == '-' && q[2] && q[2] != ']'){
					if((*a >= q[0] && *a <= q[2]) || (*a <= q[0] && *a >= q[2])) in = true;   // a range may run backwards
					q += 3;
				}else{
					if(*a == *q) in = true;
					q++;
				}
			}
			if(in == neg) return false;
			p = q + 1, a++;
			break;
		}
		case '{': {
			const char *e = strchr(p, '}');
			std::string alts(p + 1, e), cur;
			alts += ',';
			for(char ch : alts){
				if(ch != ','){ cur += ch; continue; }
				if(!strncmp(a, cur.c_str(), cur.size()) && matchPart(e + 1, a + cur.size())) return true;
				cur.clear();
			}
			return false;
		}
		default:
			if(*p != *a) return false;
			p++, a++;
		}
	}
}
static bool goodPart(const std::string &p)
{
	bool sq = false, cu = false;
	for(size_t i = 0; i < p.size(); i++){
		char c = p[i];
		if(sq){
			if(c == ']') sq = false;
		}else if(cu){
			if(c == '}') cu = false;
		}else if(c == '[') sq = true;
		else if(c == '{') cu = true;
		else if(c == ']' || c == '}') return false;
	}
	return !sq && !cu;
}
int match(const std::string &pattern, const std::string &address, size_t *po, size_t *ao)
{
	size_t dp, da;
	if(!po) po = &dp;
	if(!ao) ao = &da;
	*po = *ao = 0;
	if(pattern.empty() || pattern[0] != '/' || address.empty() || address[0] != '/') return 0;
	auto P = parts(pattern), A = parts(address);
	size_t n = P.size() < A.size() ? P.size() : A.size();
	for(size_t i = 0; i < n; i++){
		if(A[i] == "*") ; // a selector part that is a lone star accepts any pattern part
		else if(!goodPart(P[i]) || !matchPart(P[i].c_str(), A[i].c_str())) return 0;
		*po += P[i].size() + 1;
		*ao += A[i].size() + 1;
	}
	return (P.size() == n ? 2 : 0) | (A.size() == n ? 1 : 0);
}
std::string genPattern(Rng &r, const std::string &full)
{
	std::string base = full.size() < 50 ? full : full.substr(0, 40);   // matching may take time exponential in the stars
	if(full.size() >= 50 && r.chance(1, 2)) return full.substr(0, full.rfind('/') + 1) + "*";
	auto P = parts(base);
	if(r.chance(1, 5) && P.size() > 1) P.pop_back();
	if(r.chance(1, 6)) P.push_back(r.chance(1, 2) ? "foo" : "*");
	std::string o;
	for(auto &p : P){
		std::string q;
		switch(r.below(10)){
		case 8: {   // every character written in one of several ways, with stars in between
			int stars = 0;
			for(char ch : p){
				while(stars < 5 && r.chance(1, 5)) q += '*', stars++;
				switch(isalnum((unsigned char)ch) ? r.below(10) : 9){
				case 0: q += '?'; break;
				case 1: q += std::string("[") + (char)(ch - r.below(3)) + "-" + (char)(ch + r.below(3)) + "]"; break;
				case 2: q += std::string("[") + (char)(ch + r.below(3)) + "-" + (char)(ch - r.below(3)) + "]"; break;
				case 3: q += std::string("[!") + (char)(ch + 1 + r.below(2)) + (r.chance(1, 2) ? "-" : "") + "z]"; break;
				case 4: q += std::string("[x") + (r.chance(1, 2) ? "-" : "") + ch + "]"; break;
				case 5: q += std::string("{") + ch + "," + ch + ch + "}"; break;
				default: q += ch;
				}
			}
			while(r.chance(1, 4)) q += '*';
			for(char &ch : q) if(strchr("/#, ", ch) && ch != ',') ch = 'x';
			break;
		}
		case 9: {   // alternatives that are parts of each other
			size_t k = r.below(p.size() + 1), m = r.below(p.size() - k + 1);
			if(!m) { q = p + std::string(r.below(3), '*'); break; }
			std::string mid = p.substr(k, m), alts;
			for(size_t i = 1; i <= m; i++) alts = r.chance(1, 2) ? mid.substr(0, i) + (alts.empty() ? "" : ",") + alts : alts + (alts.empty() ? "" : ",") + mid.substr(0, i);
			q = p.substr(0, k) + "{" + alts + "}" + (r.chance(1, 3) ? "*" : "") + p.substr(k + m);
			break;
		}
		case 0: q = "*"; break;
		case 1: q = p; if(!q.empty()) q[r.below(q.size())] = '?'; break;
		case 2: if(!p.empty()){ size_t k = r.below(p.size()); q = p.substr(0, k) + (r.chance(1, 2) ? "[a-f]" : r.chance(1, 2) ? "[!xyz]" : std::string("[") + p[k] + "q]") + p.substr(k + 1); } break;
		case 3: { std::string alt = r.chance(1, 2) ? "foo" : "b"; q = r.chance(1, 2) ? "{" + p + "," + alt + "}" : "{" + alt + "," + p + "}"; break; }
		case 4: q = p.substr(0, r.below(p.size() + 1)) + "*"; break;
		case 5: q = "*" + p.substr(r.below(p.size() + 1)); if(r.chance(1, 3)) q += "*"; break;
		default: q = p;
		}
		o += "/" + q;
	}
	return o.empty() ? "/" : o;
}
std::string genBadPattern(Rng &r, const std::string &base)
{
	static const std::vector<std::string> bad = {"[", "[a", "{", "{foo", "]", "}", "{a,b"};
	std::string s = base;
	s.insert(1 + r.below(s.size()), r.pick(bad));
	return s;
}

// ---------------------------------------------------------------- libo side
t_osc_timetag toTT(uint64_t v)
{
	t_osc_timetag t;
	t.sec = (uint32_t)(v >> 32);
	t.frac_sec = (uint32_t)v;
	return t;
}
uint64_t fromTT(t_osc_timetag t) { return (uint64_t)osc_timetag_ntp_getSeconds(t) << 32 | osc_timetag_ntp_getFraction(t); }
static std::string blobBytes(const Val &v) { return be32((uint32_t)v.s.size()) + v.s; }
void setAtom(t_osc_atom_u *a, const Val &v)
{
	switch(v.t){
	case 'c': osc_atom_u_setInt8(a, (int8_t)v.i); break;
	case 'C': osc_atom_u_setUInt8(a, (uint8_t)v.i); break;
	case 'u': osc_atom_u_setInt16(a, (int16_t)v.i); break;
	case 'U': osc_atom_u_setUInt16(a, (uint16_t)v.i); break;
	case 'i': osc_atom_u_setInt32(a, (int32_t)v.i); break;
	case 'I': osc_atom_u_setUInt32(a, (uint32_t)v.i); break;
	case 'h': osc_atom_u_setInt64(a, v.i); break;
	case 'H': osc_atom_u_setUInt64(a, (uint64_t)v.i); break;
	case 'f': osc_atom_u_setFloat(a, (float)v.f); break;
	case 'd': osc_atom_u_setDouble(a, v.f); break;
	case 's': {
		char *p = arena::callerBytes(v.s.c_str(), v.s.size() + 1);
		osc_atom_u_setString(a, p);
		arena::callerFree(p);
		break;
	}
	case 'T': osc_atom_u_setTrue(a); break;
	case 'F': osc_atom_u_setFalse(a); break;
	case 'N': osc_atom_u_setNil(a); break;
	case 't': osc_atom_u_setTimetag(a, toTT((uint64_t)v.i)); break;
	case 'b': {
		std::string bb = blobBytes(v);
		char *p = arena::callerBytes(bb.data(), bb.size());
		osc_atom_u_setBlob(a, p);
		arena::callerFree(p);
		break;
	}
	case '.': {
		std::string e = enc(*v.b);
		char *p = arena::callerBytes(e.data(), e.size());
		osc_atom_u_setBndl(a, (long)e.size(), p);
		arena::callerFree(p);
		break;
	}
	}
}
t_osc_atom_u *newAtom(const Val &v)
{
	t_osc_atom_u *a = osc_atom_u_alloc();
	setAtom(a, v);
	return a;
}
t_osc_atom_u *putVal(t_osc_msg_u *m, const Val &v, int where, int pos)
{
#define PUT(T, x) (where == 0 ? osc_message_u_append##T(m, x) : where == 1 ? osc_message_u_prepend##T(m, x) : osc_message_u_insert##T(m, x, pos))
	t_osc_atom_u *a = nullptr;
	switch(v.t){
	case 'c': a = PUT(Int8, (int8_t)v.i); break;
	case 'C': a = PUT(UInt8, (uint8_t)v.i); break;
	case 'u': a = PUT(Int16, (int16_t)v.i); break;
	case 'U': a = PUT(UInt16, (uint16_t)v.i); break;
	case 'i': a = PUT(Int32, (int32_t)v.i); break;
	case 'I': a = PUT(UInt32, (uint32_t)v.i); break;
	case 'h': a = PUT(Int64, v.i); break;
	case 'H': a = PUT(UInt64, (uint64_t)v.i); break;
	case 'f': a = PUT(Float, (float)v.f); break;
	case 'd': a = PUT(Double, v.f); break;
	case 's': {
		char *p = arena::callerBytes(v.s.c_str(), v.s.size() + 1);
		a = PUT(String, p);
		arena::callerFree(p);
		break;
	}
	case 'T':
		if(pos & 1){ a = PUT(Bool, pos); break; }       // any non-zero value is true
		if(where == 0) a = osc_message_u_appendTrue(m); else if(where == 1) a = osc_message_u_prependTrue(m); else a = osc_message_u_insertTrue(m, pos);
		break;
	case 'F':
		if(pos & 1){ a = PUT(Bool, 0); break; }
		if(where == 0) a = osc_message_u_appendFalse(m); else if(where == 1) a = osc_message_u_prependFalse(m); else a = osc_message_u_insertFalse(m, pos);
		break;
	case 'N': if(where == 0) a = osc_message_u_appendNil(m); else if(where == 1) a = osc_message_u_prependNil(m); else a = osc_message_u_insertNil(m, pos); break;
	case 't': a = PUT(Timetag, toTT((uint64_t)v.i)); break;
	case 'b': {
		std::string bb = blobBytes(v);
		char *p = arena::callerBytes(bb.data(), bb.size());
		a = PUT(Blob, p);
		arena::callerFree(p);
		break;
	}
	case '.': {
		if(v.s == "u"){
			a = PUT(Bndl_u, toBndlU(*v.b));
			break;
		}
		std::string e = enc(*v.b);
		char *p = arena::callerBytes(e.data(), e.size());
		if(pos & 1) a = where == 0 ? osc_message_u_appendBndl_s(m, (long)e.size(), p) : where == 1 ? osc_message_u_prependBndl_s(m, (long)e.size(), p) : osc_message_u_insertBndl_s(m, (long)e.size(), p, pos);
		else if(where == 0) a = osc_message_u_appendBndl(m, (long)e.size(), p);
		else if(where == 1) a = osc_message_u_prependBndl(m, (long)e.size(), p);
		else a = osc_message_u_insertBndl(m, (long)e.size(), p, pos);
		arena::callerFree(p);
		break;
	}
	}
	return a;
}
void addVal(t_osc_msg_u *m, const Val &v, int how)
{
	if(how == 1) osc_message_u_appendAtom(m, newAtom(v));
	else putVal(m, v, 0, 0);
}
t_osc_msg_u *toMsgU(const Msg &m, int how)
{
	char *a = arena::callerBytes(m.addr.c_str(), m.addr.size() + 1);
	t_osc_msg_u *x;
	if(how == 2) x = osc_message_u_allocWithAddress(a);
	else{
		x = osc_message_u_alloc();
		osc_message_u_setAddress(x, a);
	}
	arena::callerFree(a);
	for(auto &v : m.v) addVal(x, v, how & 1);
	return x;
}
t_osc_bndl_u *toBndlU(const Bndl &b, int how)
{
	t_osc_bndl_u *x = osc_bundle_u_alloc();
	for(auto &m : b.m) osc_bundle_u_addMsg(x, toMsgU(m, how));
	return x;
}
Val fromAtomU(t_osc_atom_u *a)
{
	Val v;
	v.t = osc_atom_u_getTypetag(a);
	switch(v.t){
	case 'c': v.i = osc_atom_u_getInt8(a); break;
	case 'C': v.i = osc_atom_u_getUInt8(a); break;
	case 'u': v.i = osc_atom_u_getInt16(a); break;
	case 'U': v.i = osc_atom_u_getUInt16(a); break;
	case 'i': v.i = osc_atom_u_getInt32(a); break;
	case 'I': v.i = osc_atom_u_getUInt32(a); break;
	case 'h': v.i = osc_atom_u_getInt64(a); break;
	case 'H': v.i = (int64_t)osc_atom_u_getUInt64(a); break;
	case 'f': v.f = osc_atom_u_getFloat(a); break;
	case 'd': v.f = osc_atom_u_getDouble(a); break;
	case 's': { char *p = osc_atom_u_getStringPtr(a); v.s = p ? p : "(null)"; break; }
	case 't': v.i = (int64_t)fromTT(osc_atom_u_getTimetag(a)); break;
	case 'b': {
		int32_t n = osc_atom_u_getBlobLen(a);
		char *p = osc_atom_u_getBlob(a);
		if(p && n > 0) v.s.assign(p + 4, n);
		break;
	}
	case '.': v.b = std::make_shared<Bndl>(fromBndlU(osc_atom_u_getBndl(a))); break;
	}
	return v;
}
void setAtomS(t_osc_atom_s *a, const Val &v)
{
	switch(v.t){
	case 'c': osc_atom_s_setInt8(a, (int8_t)v.i); break;
	case 'C': osc_atom_s_setUInt8(a, (uint8_t)v.i); break;
	case 'u': osc_atom_s_setInt16(a, (int16_t)v.i); break;
	case 'U': osc_atom_s_setUInt16(a, (uint16_t)v.i); break;
	case 'i': osc_atom_s_setInt32(a, (int32_t)v.i); break;
	case 'I': osc_atom_s_setUInt32(a, (uint32_t)v.i); break;
	case 'h': osc_atom_s_setInt64(a, v.i); break;
	case 'H': osc_atom_s_setUInt64(a, (uint64_t)v.i); break;
	case 'f': osc_atom_s_setFloat(a, (float)v.f); break;
	case 'd': osc_atom_s_setDouble(a, v.f); break;
	case 's': {
		char *p = arena::callerBytes(v.s.c_str(), v.s.size() + 1);
		osc_atom_s_setString(a, p);
		arena::callerFree(p);
		break;
	}
	case 'T': osc_atom_s_setTrue(a); break;
	case 'F': osc_atom_s_setFalse(a); break;
	case 'N': osc_atom_s_setNil(a); break;
	case 't': osc_atom_s_setTimetag(a, toTT((uint64_t)v.i)); break;
	}
}
Val fromAtomS(t_osc_atom_s *a)
{
	Val v;
	v.t = osc_atom_s_getTypetag(a);
	switch(v.t){
	case 'c': v.i = osc_atom_s_getInt8(a); break;
	case 'C': v.i = osc_atom_s_getUInt8(a); break;
	case 'u': v.i = osc_atom_s_getInt16(a); break;
	case 'U': v.i = osc_atom_s_getUInt16(a); break;
	case 'i': v.i = osc_atom_s_getInt32(a); break;
	case 'I': v.i = osc_atom_s_getUInt32(a); break;
	case 'h': v.i = osc_atom_s_getInt64(a); break;
	case 'H': v.i = (int64_t)osc_atom_s_getUInt64(a); break;
	case 'f': v.f = osc_atom_s_getFloat(a); break;
	case 'd': v.f = osc_atom_s_getDouble(a); break;
	case 's': { char *p = nullptr; osc_atom_s_getString(a, 0, &p); v.s = p ? p : "(null)"; osc_mem_free(p); break; }
	case 't': v.i = (int64_t)fromTT(osc_atom_s_getTimetag(a)); break;
	case 'b': {
		int32_t n = osc_atom_s_getBlobLen(a);
		char *p = osc_atom_s_getBlob(a);
		if(p && n > 0) v.s.assign(p + 4, n);
		break;
	}
	case '.': {
		t_osc_bndl_s *b = osc_atom_s_getBndl(a);
		Bndl m;
		std::string why;
		if(b){
			if(!fromBytes(osc_bundle_s_getLen(b), osc_bundle_s_getPtr(b), m, why)) m.m.push_back(Msg("/undecodable: " + why));
			osc_bundle_s_free(b);
		}
		v.b = std::make_shared<Bndl>(m);
		break;
	}
	}
	return v;
}
// how far an iterator has come before it is started over
static size_t rewind(size_t n) { return n % 3 == 2 ? (size_t)-1 : n % 3; }
Msg fromMsgU(t_osc_msg_u *m)
{
	Msg o;
	char *a = osc_message_u_getAddress(m);
	o.addr = a ? a : "(null)";
	t_osc_msg_it_u *it = osc_msg_it_u_get(m);
	for(size_t k = rewind(o.addr.size()); k && osc_msg_it_u_next(it); k--);
	osc_msg_it_u_reset(it);
	while(osc_msg_it_u_hasNext(it)) o.v.push_back(fromAtomU(osc_msg_it_u_next(it)));
	osc_msg_it_u_destroy(it);
	return o;
}
Msg fromMsgS(t_osc_msg_s *m)
{
	Msg o;
	char *a = osc_message_s_getAddress(m);
	o.addr = a ? a : "(null)";
	t_osc_msg_it_s *it = osc_msg_it_s_get(m);
	for(size_t k = rewind(o.addr.size()); k && osc_msg_it_s_next(it); k--);
	osc_msg_it_s_reset(it);
	while(osc_msg_it_s_hasNext(it)) o.v.push_back(fromAtomS(osc_msg_it_s_next(it)));
	osc_msg_it_s_destroy(it);
	return o;
}
Bndl fromBndlU(t_osc_bndl_u *b)
{
	Bndl o;
	t_osc_bndl_it_u *it = osc_bndl_it_u_get(b);
	for(int pass = 0; pass < 2; pass++){       // to the end and from the start again
		while(!pass && osc_bndl_it_u_next(it));
		osc_bndl_it_u_reset(it);
	}
	while(osc_bndl_it_u_hasNext(it)) o.m.push_back(fromMsgU(osc_bndl_it_u_next(it)));
	osc_bndl_it_u_destroy(it);
	return o;
}
bool fromBytes(long len, const char *p, Bndl &out, std::string &why)
{
	if(!p){ why = "null pointer"; return false; }
	if(len < 0){ why = "negative length"; return false; }
	return dec(std::string(p, len), out, why);
}
}
