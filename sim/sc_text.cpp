// L17: the text form and the bundle form. An independent reader of formatted text, an independent
// writer of text to parse, malformed texts and mutated texts.
#include "om.h"
#include <cmath>
#include <cctype>
#include <climits>
extern "C" {
#include "osc_parser.h"
}
using namespace sim;
using namespace om;
namespace {
// ---- time tags as civil time, independently
int64_t daysFromCivil(int64_t y, int m, int d)
{
	y -= m <= 2;
	int64_t era = (y >= 0 ? y : y - 399) / 400;
	unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	return era * 146097 + (int64_t)doe - 719468;
}
const int64_t NTP0 = 2208988800LL;
std::string iso(uint64_t tt, int digits)
{
	int64_t s = (int64_t)(tt >> 32) - NTP0;
	int64_t us = (int64_t)(((tt & 0xffffffffu) * 1000000ull + 0x80000000ull) >> 32);
	if(us == 1000000){ s++; us = 0; }
	int64_t d = s >= 0 ? s / 86400 : -((-s + 86399) / 86400), r = s - d * 86400;
	int64_t z = d + 719468, era = (z >= 0 ? z : z - 146096) / 146097;
	unsigned doe = (unsigned)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
	int day = doy - (153 * mp + 2) / 5 + 1, mon = mp < 10 ? mp + 3 : mp - 9;
	int64_t y = (int64_t)yoe + era * 400 + (mon <= 2);
	std::string t = sprintf_("%04d-%02d-%02dT%02d:%02d:%02d", (int)y, mon, day, (int)(r / 3600), (int)(r / 60 % 60), (int)(r % 60));
	if(digits) t += "." + sprintf_("%06d", (int)us).substr(0, digits);
	return t + "Z";
}
bool rdIso(const std::string &t, uint64_t &out)
{
	int y, mo, d, h, mi, n = 0;
	if(sscanf(t.c_str(), "%d-%d-%dT%d:%d:%n", &y, &mo, &d, &h, &mi, &n) < 5 || !n) return false;
	char *e;
	double s = strtod(t.c_str() + n, &e);
	if(strcmp(e, "Z")) return false;
	int64_t sec = daysFromCivil(y, mo, d) * 86400 + h * 3600 + mi * 60 + (int64_t)floor(s) + NTP0;
	out = ((uint64_t)sec << 32) + (uint64_t)((s - floor(s)) * 4294967296.0);
	return true;
}
bool nearT(uint64_t a, uint64_t b) { uint64_t d = a > b ? a - b : b - a; return d <= 4400; }
bool near(const Bndl &a, const Bndl &b);
bool near(const Val &a, const Val &b)
{
	if(a.t != b.t) return false;
	if(a.t == 't') return nearT((uint64_t)a.i, (uint64_t)b.i);
	if(a.t == '.') return near(*a.b, *b.b);
	return a == b;
}
bool near(const Bndl &a, const Bndl &b)
{
	if(a.m.size() != b.m.size()) return false;
	for(size_t i = 0; i < a.m.size(); i++){
		if(a.m[i].addr != b.m[i].addr || a.m[i].v.size() != b.m[i].v.size()) return false;
		for(size_t j = 0; j < a.m[i].v.size(); j++) if(!near(a.m[i].v[j], b.m[i].v[j])) return false;
	}
	return true;
}

// ---- reader of formatted text, compared with the bundle as it goes
struct Reader {
	const std::string &t;
	size_t i = 0;
	std::string bad;
	explicit Reader(const std::string &s) : t(s) {}
	void ws() { while(i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t')) i++; }
	bool fail(const std::string &m) { if(bad.empty()) bad = m + sprintf_(" at offset %zu", i); return false; }
	bool lit(char ch) { ws(); if(i < t.size() && t[i] == ch){ i++; return true; } return false; }
	std::string word() { std::string w; while(i < t.size() && !strchr(" \n\t,]}", t[i])) w += t[i++]; return w; }
	bool val(const Val &v)
	{
		ws();
		if(i >= t.size()) return fail("the text ends where a value is due");
		switch(v.t){
		case 's': {
			if(t[i] != '"') return fail("no quoted string");
			std::string s;
			for(i++; i < t.size() && t[i] != '"'; i++){
				if(t[i] == '\\') i++;
				if(i < t.size()) s += t[i];
			}
			if(i >= t.size()) return fail("unterminated string");
			i++;
			return s == v.s ? true : fail("string '" + esc(s) + "' instead of '" + esc(v.s) + "'");
		}
		case 'c': case 'C': {
			if(i + 2 >= t.size() || t[i] != '\'' || t[i + 2] != '\'') return fail("no character in quotes");
			if((uint8_t)t[i + 1] != (uint8_t)v.i) return fail("wrong character");
			i += 3;
			return true;
		}
		case '.': {
			if(!lit('{')) return fail("no nested bundle");
			if(!msgs(*v.b)) return false;
			return lit('}') ? true : fail("no closing brace");
		}
		case 'b': {
			if(t.compare(i, 5, "blob(")) return fail("no blob");
			i += 5;
			for(size_t k = 0; k < v.s.size(); k++){
				ws();
				if(k && !lit(',')) return fail("no comma in the blob");
				ws();
				char *e;
				long n = strtol(t.c_str() + i, &e, 10);
				if(e == t.c_str() + i || (n & 0xff) != (uint8_t)v.s[k]) return fail(sprintf_("wrong byte %zu of the blob", k));
				i = (size_t)(e - t.c_str());
			}
			return lit(')') ? true : fail("blob not closed");
		}
		default: break;
		}
		std::string w = word();
		bool ok;
		switch(v.t){
		case 'T': ok = w == "true"; break;
		case 'F': ok = w == "false"; break;
		case 'N': ok = w == "nil"; break;
		case 't': { uint64_t x; ok = rdIso(w, x) && nearT(x, (uint64_t)v.i); break; }
		case 'f': case 'd': {
			char *e;
			double d = strtod(w.c_str(), &e);
			ok = !w.empty() && !*e;
			if(std::isnan(v.f)) ok = ok && std::isnan(d);
			else if(std::isinf(v.f)) ok = ok && d == v.f;
			else ok = ok && fabs(d - v.f) <= 5.1e-6 * fabs(v.f) + 1e-320 && w.find_first_of(".eE") != std::string::npos && std::signbit(d) == std::signbit(v.f);
			break;
		}
		case 'H': ok = w == sprintf_("%llu", (unsigned long long)v.i); break;
		default: ok = w == sprintf_("%lld", (long long)v.i); break;
		}
		return ok ? true : fail("'" + esc(w) + "' for " + text(v));
	}
	bool msg(const Msg &m)
	{
		ws();
		if(t.compare(i, m.addr.size(), m.addr)) return fail("no address " + m.addr);
		i += m.addr.size();
		if(m.v.empty()) return true;
		if(!lit(':')) return fail("no colon after " + m.addr);
		if(m.v.size() > 1 && !lit('[')) return fail("no bracket");
		for(size_t k = 0; k < m.v.size(); k++){
			if(k && !lit(',')) return fail("no comma between arguments");
			if(!val(m.v[k])) return false;
		}
		if(m.v.size() > 1 && !lit(']')) return fail("no closing bracket");
		return true;
	}
	bool msgs(const Bndl &b)
	{
		for(size_t k = 0; k < b.m.size(); k++){
			if(k && !lit(',')) return fail("no comma between messages");
			if(!msg(b.m[k])) return false;
		}
		return true;
	}
	bool all(const Bndl &b)
	{
		if(!msgs(b)) return false;
		ws();
		return i == t.size() ? true : fail("text left over");
	}
};

// values whose text cannot be read back unambiguously are replaced (a NUL character ends the text)
void clean(Bndl &b)
{
	for(auto &m : b.m) for(auto &v : m.v){
		if(v.t == '.'){ v.b = std::make_shared<Bndl>(*v.b); clean(*v.b); }
		if((v.t == 'c' || v.t == 'C') && (v.i & 0xff) == 0) v.i = 'z';
	}
}
bool lossless(const Bndl &b)
{
	for(auto &m : b.m) for(auto &v : m.v){
		switch(v.t){
		case 'i': case 's': case 'T': case 'F': case 'N': break;
		case 'c': if((char)v.i == '\n') return false; break;
		case 'h': if(v.i >= INT32_MIN && v.i <= INT32_MAX) return false; break;
		case 'H': if(v.i >= 0) return false; break;
		case 't': break;
		case 'd': {
			if(!std::isfinite(v.f)) return false;
			char q[64];
			snprintf(q, sizeof q, "%g", v.f);
			if(strtod(q, nullptr) != v.f) return false;
			break;
		}
		case '.': if(!lossless(*v.b)) return false; break;
		default: return false;
		}
	}
	return true;
}
// what text can express
void norm(Bndl &b)
{
	for(auto &m : b.m) for(auto &v : m.v){
		switch(v.t){
		case 'h': if(v.i >= INT32_MIN && v.i <= INT32_MAX) v.t = 'i'; break;
		case 'C': v.t = 'c'; v.i = (int8_t)v.i; // fall through
		case 'c': if((char)v.i == '\n' || (char)v.i == 0) v.i = 'q'; break;
		case 'u': case 'U': v.t = 'i'; break;
		case 'f': v.t = 'd'; // fall through
		case 'd': if(!std::isfinite(v.f)) v.f = 0.5; break;
		case 'b': v = Val::I('i', (int64_t)v.s.size()); break;
		case '.': v.b = std::make_shared<Bndl>(*v.b); norm(*v.b); break;
		case 't': {   // microseconds
			uint64_t x = (uint64_t)v.i, us = ((x & 0xffffffffu) * 1000000ull) >> 32;
			v.i = (int64_t)((x & ~0xffffffffull) | (((us << 32) + 500000) / 1000000));
			break;
		}
		default: break;
		}
	}
}
struct Writer {
	Rng r;
	explicit Writer(uint64_t seed) : r(seed) {}
	std::string ws(bool must = false)
	{
		static const std::vector<std::string> w = {" ", "\n", "\t", "  ", " \n\t "};
		if(!must && r.chance(1, 2)) return "";
		return r.pick(w);
	}
	std::string str(const std::string &s)
	{
		bool bare = s.size() > 1 && s[0] == '/' && s.find_first_of(" \t\n#,") == std::string::npos;
		if(bare && r.chance(1, 2)) return s + ws(true);
		std::string o = "\"";
		for(char ch : s){
			if(ch == '"' || ch == '\\' || (ch != '\n' && r.chance(1, 12))) o += '\\';
			o += ch;
		}
		return o + "\"";
	}
	std::string val(const Val &v)
	{
		switch(v.t){
		case 'I': return sprintf_(r.chance(1, 2) ? "0x%x" : "0X%08X", (unsigned)(uint32_t)v.i);
		case 'H': if((uint64_t)v.i > INT64_MAX && r.chance(1, 2)) return sprintf_("%llu", (unsigned long long)v.i); return sprintf_(r.chance(1, 2) ? "0x%016llx" : "0x%09llX", (unsigned long long)v.i);
		case 'c': return std::string("'") + (char)v.i + "'";
		case 's': return str(v.s);
		case 'T': return "true";
		case 'F': return "false";
		case 'N': return "nil";
		case 't': return iso((uint64_t)v.i, 6);
		case 'd': {
			if(r.chance(1, 5)) return sprintf_("%a", v.f);
			std::string t = sprintf_(r.chance(1, 2) ? "%.17g" : "%.17e", v.f);
			if(t.find_first_of(".e") == std::string::npos) t += r.chance(1, 2) ? "." : ".0";
			else if(t.find('.') != std::string::npos && r.chance(1, 4)) t += "f";
			else if(t.compare(0, 2, "0.") == 0 && r.chance(1, 2)) t = t.substr(1);
			return t;
		}
		case '.': return v.b->m.empty() ? "{" + ws() + "}" : "{" + ws() + msgs(*v.b) + ws(true) + "}";
		default: return sprintf_("%lld", (long long)v.i);
		}
	}
	std::string msg(const Msg &m)
	{
		std::string o = m.addr;
		if(m.v.empty()) return o;
		o += ws(true) + ":" + ws();
		if(m.v.size() == 1 && r.chance(3, 4)) return o + val(m.v[0]);
		o += "[" + ws();
		for(size_t i = 0; i < m.v.size(); i++) o += (i ? "," + ws() : "") + val(m.v[i]) + ws();
		return o + "]";
	}
	std::string msgs(const Bndl &b)
	{
		std::string o;
		for(size_t i = 0; i < b.m.size(); i++) o += (i ? ws() + "," + ws(true) : "") + msg(b.m[i]);
		return o;
	}
	std::string all(const Bndl &b) { return ws() + msgs(b) + ws(); }
};
const int NBAD = 26;
std::string spoil(const std::string &t, int64_t kind)
{
	static const char *tail[] = {" }", " ,", " :", " , /z : \"abc", " foo", " [1", " , /z : {", " , /z : [1 2]", " , /z : [1,]", " , /z : 1 2", " {", " \x80", " , /z : 'ab'",
		" , /z : truefalse", " \\", " , /z : \"a\\\"", " /zz", " , /z : {} {}", " , /z : [1",
		" , /z : -9223372036854775809", " , /z : 18446744073709551616", " , /z : -18446744073709551615", " , /z : [1, 99999999999999999999]", " , /z : -00012"};
	kind = ((kind % NBAD) + NBAD) % NBAD;
	if(kind < 24) return t + tail[kind];
	return kind == 24 ? " , " + t : "5 " + t;
}

void gen(Rng &r, Plan &p, int tier)
{
	arena::genPolicy(r, p);
	int n = (int)r.range(1, tier ? 10 : 6);
	for(int i = 0; i < n; i++){
		GenOpt o;
		o.depth = r.chance(1, 8) ? 5 : 2;
		o.nested = r.chance(2, 3);
		o.maxArgs = r.chance(1, 10) ? 60 : 5;
		o.maxMsgs = r.chance(1, 10) ? 20 : 4;
		Bndl b = genBndl(r, o);
		if(b.m.empty()) b.m.push_back(genMsg(r, o));
		if(r.chance(1, 12)) b.m[0].addr = "/" + std::string(r.range(1, 300), 'L') + "/[a-c]{x,yz}*";
		if(r.chance(1, 3)){           // values that survive the text
			std::function<void(Bndl &)> f = [&](Bndl &q) {
				for(auto &m : q.m) for(auto &v : m.v){
					if(v.t == '.'){ Bndl w = *v.b; f(w); v = Val::B(w); continue; }
					if(v.t == 's' || v.t == 'T' || v.t == 'F' || v.t == 'N' || v.t == 'i' || v.t == 't') continue;
					switch(r.below(5)){
					case 0: v = Val::F('d', (double)r.range(-3000, 3000) / 4); break;
					case 1: v = Val::I('c', r.range(32, 126)); break;
					case 2: v = Val::I('h', (int64_t)r.next() | (1ll << 40)); break;
					case 3: v = Val::F('d', r.chance(1, 2) ? 1e-5 : -2.5e+20); break;
					case 4: v = Val::I('i', genInt(r, 'i')); break;
					}
				}
			};
			f(b);
		}
		std::string s = enc(b);
		switch(r.below(11)){
		case 10: for(int k = 0; k < 4; k++) p.op("value", {r.range(0, 9), r.chance(1, 2) ? r.range(0, 20) : r.range(0, 120), r.chance(1, 2) ? (int64_t)r.next() : genInt(r, 'h')}, genStr(r, false)); break;
		case 0: case 1: case 2: case 3: p.op("fmt", {r.chance(1, 3) ? r.range(0, 8) : r.range(0, 400), r.range(0, 3000), r.range(0, 3)}, s); break;
		case 4: case 5: p.op("parse", {(int64_t)(r.next() >> 1)}, s); break;
		case 6: case 7: p.op("bad", {(int64_t)(r.next() >> 1), r.range(0, NBAD - 1)}, s); break;
		case 8: {
			Bndl q = b;
			clean(q);
			norm(q);
			Writer w(r.next());
			std::string t = w.all(q);
			static const char junk[] = "{}[],:\"'\\/ \n0129.-eExXtTfZ#$a\x01\x80\xff";
			int k = (int)r.range(1, 6);
			while(k--){
				size_t at = r.below(t.size() + 1);
				switch(r.below(4)){
				case 0: t.insert(at, 1, junk[r.below(sizeof junk - 1)]); break;
				case 1: if(at < t.size()) t.erase(at, 1 + r.below(3)); break;
				case 2: if(at < t.size()) t[at] = junk[r.below(sizeof junk - 1)]; break;
				case 3: { size_t l = r.below(20); std::string cut = t.substr(at, l); t.insert(r.below(t.size() + 1), cut); break; }
				}
			}
			p.op("mut", {}, t);
			break;
		}
		case 9: p.op("deep", {r.range(1, tier ? 400 : 120), (int64_t)(r.next() >> 1)}); break;
		}
	}
}

long prefixCheck(const char *what, const std::string &full, long n, const std::function<long(char *, long)> &f)
{
	char *buf = arena::callerBuf(n ? n : 1);
	memset(buf, 0x5c, n ? n : 1);
	long r = f(buf, n);
	if(r != (long)full.size()) failv("truncated_len", "%s into %ld bytes returned %ld, the text is %zu long", what, n, r, full.size());
	if(n > 0){
		size_t l = strnlen(buf, n);
		if(l == (size_t)n) failv("unterminated", "%s into %ld bytes left no terminating NUL (the text is %zu long)", what, n, full.size());
		size_t want = full.size() < (size_t)n ? full.size() : (size_t)n - 1;
		if(full.compare(0, l, buf)) failv("not_a_prefix", "%s into %ld bytes wrote '%s', not the beginning of '%s'", what, n, esc(buf).substr(0, 300).c_str(), esc(full).substr(0, 300).c_str());
		if(full.size() < (size_t)n && l != want) failv("cut_short", "%s into %ld bytes wrote %zu characters of %zu", what, n, l, want);
	}else if(buf[0] != 0x5c) failv("wrote_into_nothing", "%s with a buffer size of 0 wrote to it", what);
	if(full.size() >= (size_t)n) probe("text_truncated");
	arena::callerFree(buf);
	return r;
}
t_osc_bndl_u *parse(const std::string &t, t_osc_err &e, bool viaR)
{
	char *b = arena::callerBytes(t.c_str(), t.size() + 1);
	t_osc_bndl_u *u = nullptr;
	if(viaR){ u = osc_parser_parseString_r((long)t.size(), b); e = u ? OSC_ERR_NONE : OSC_ERR_PARSER; }
	else e = osc_parser_parseString((long)t.size(), b, &u);
	arena::callerFree(b);
	return u;
}
void expectParse(const std::string &t, const Bndl &want, const char *what, bool viaR, Ctx &c)
{
	auto mk = arena::mark();
	t_osc_err e;
	t_osc_bndl_u *u = parse(t, e, viaR);
	if(e || !u) failv("rejected", "%s: the text was rejected (error %lu): %s", what, (unsigned long)e, esc(t).substr(0, 500).c_str());
	Bndl got = fromBndlU(u);
	if(!near(got, want)) failv("parsed_differently", "%s: '%s' gave %s, expected %s", what, esc(t).substr(0, 600).c_str(), text(got).substr(0, 600).c_str(), text(want).substr(0, 600).c_str());
	// what was parsed is a full bundle: indexed access and serialising work on it
	t_osc_bndl_it_u *it = osc_bndl_it_u_get(u);
	for(size_t k = 0; osc_bndl_it_u_hasNext(it); k++){
		t_osc_msg_u *m = osc_bndl_it_u_next(it);
		int n = osc_message_u_getArgCount(m);
		for(int j = 0; j < n && k < want.m.size(); j++){
			t_osc_atom_u *a = osc_message_u_getArg(m, j);
			if(!a || !near(fromAtomU(a), want.m[k].v[j])) failv("indexed_access", "%s: argument %d of %s of the parsed bundle is %s", what, j, want.m[k].addr.c_str(), a ? text(fromAtomU(a)).c_str() : "missing");
		}
	}
	osc_bndl_it_u_destroy(it);
	t_osc_bndl_s *s = osc_bundle_u_serialize(u);
	if(!s) failv("serialise", "%s: the parsed bundle does not serialise", what);
	Bndl d;
	std::string why;
	if(!fromBytes(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s), d, why)) failv("serialise", "%s: the parsed bundle serialises to bad OSC: %s", what, why.c_str());
	if(!near(d, want)) failv("serialise", "%s: the parsed bundle serialises to %s, expected %s", what, text(d).substr(0, 600).c_str(), text(want).substr(0, 600).c_str());
	osc_bundle_s_deepFree(s);
	osc_bundle_u_free(u);
	arena::checkNoLeaks(mk, what);
	c.log(t);
}
void run(const Plan &p, Ctx &c)
{
	for(size_t i = 0; i < p.ops.size(); i++){
		const Op &o = p.ops[i];
		c.at(i, o);
		if(o.k == "fmt"){
			Bndl b;
			if(!unpackBndl(o.s, b, false)) continue;
			clean(b);
			c.nontrivial();
			auto mk = arena::mark();
			t_osc_bndl_u *u = toBndlU(b, (int)(o.A(2) & 1));
			std::string by = enc(b);
			char *s = arena::callerBytes(by.data(), by.size());
			long n = osc_bundle_u_nformat(nullptr, 0, u, 0);
			char *fu = osc_bundle_u_format(u), *fs = osc_bundle_s_format((long)by.size(), s);
			if(!fu || !fs) failv("no_text", "formatting returned nothing");
			std::string tu = fu, ts = fs;
			if((long)tu.size() != n) failv("length", "nformat announces %ld, the text is %zu long: %s", n, tu.size(), esc(tu).substr(0, 400).c_str());
			if(tu != ts) failv("forms_differ", "editable form gives '%s', serialised form gives '%s'", esc(tu).substr(0, 600).c_str(), esc(ts).substr(0, 600).c_str());
			Reader rd(tu);
			if(!rd.all(b)) failv("wrong_text", "%s in '%s' for %s", rd.bad.c_str(), esc(tu).substr(0, 800).c_str(), text(b).substr(0, 800).c_str());
			for(int k = 0; k < 3; k++){
				long cut = k == 2 ? (long)tu.size() + o.A(2) % 3 : o.A(k);
				if(cut < 0) cut = 0;
				if(k == 1) cut %= (long)tu.size() + 4;
				prefixCheck("osc_bundle_u_nformat", tu, cut, [&](char *q, long l) { return osc_bundle_u_nformat(q, l, u, 0); });
				prefixCheck("osc_bundle_s_nformat", ts, cut, [&](char *q, long l) { return osc_bundle_s_nformat(q, l, (long)by.size(), s, 0); });
			}
			osc_mem_free(fu);
			osc_mem_free(fs);
			// messages and atoms on their own
			t_osc_bndl_it_u *iu = osc_bndl_it_u_get(u);
			t_osc_bndl_it_s *is = osc_bndl_it_s_get((long)by.size(), s);
			size_t k = 0, budget = 12;
			while(osc_bndl_it_u_hasNext(iu) && osc_bndl_it_s_hasNext(is) && budget){
				t_osc_msg_u *mu = osc_bndl_it_u_next(iu);
				t_osc_msg_s *ms = osc_bndl_it_s_next(is);
				const Msg &mm = b.m[k++];
				char *a = osc_message_u_format(mu), *d = osc_message_s_format(ms);
				std::string ta = a ? a : "", td = d ? d : "";
				if(osc_message_u_getFormattedSize(mu) != (long)ta.size() || osc_message_s_getFormattedSize(ms) != (long)td.size()) failv("length", "the formatted sizes of a message of %zu characters are %ld and %ld", ta.size(), osc_message_u_getFormattedSize(mu), osc_message_s_getFormattedSize(ms));
				if(ta != td) failv("forms_differ", "message: editable '%s', serialised '%s'", esc(ta).substr(0, 500).c_str(), esc(td).substr(0, 500).c_str());
				Reader r2(ta);
				if(!r2.msg(mm)) failv("wrong_text", "%s in message '%s' for %s", r2.bad.c_str(), esc(ta).substr(0, 500).c_str(), text(mm).substr(0, 500).c_str());
				osc_mem_free(a);
				osc_mem_free(d);
				long cut = o.A(1) % ((long)ta.size() + 3);
				if(cut < 0) cut = 0;
				prefixCheck("osc_message_u_nformat", ta, cut, [&](char *q, long l) { return osc_message_u_nformat(q, l, mu, 0); });
				prefixCheck("osc_message_s_nformat", ta, cut, [&](char *q, long l) { return osc_message_s_nformat(q, l, ms, 0); });
				for(int j = 0; j < (int)mm.v.size() && budget; j++, budget--){
					t_osc_atom_u *au = osc_message_u_getArg(mu, j);
					t_osc_atom_s *as = nullptr;
					osc_message_s_getArg(ms, j, &as);
					if(!au || !as) failv("no_arg", "argument %d of %s is missing", j, text(mm).c_str());
					char *xa = osc_atom_u_format(au), *xd = osc_atom_s_format(as);
					std::string sa = xa ? xa : "", sd = xd ? xd : "";
					if(osc_atom_u_getFormattedSize(au) != (long)sa.size() || osc_atom_s_getFormattedSize(as) != (long)sd.size()) failv("length", "the formatted sizes of a value of %zu characters are %ld and %ld", sa.size(), osc_atom_u_getFormattedSize(au), osc_atom_s_getFormattedSize(as));
					if(sa != sd) failv("forms_differ", "value: editable '%s', serialised '%s'", esc(sa).substr(0, 500).c_str(), esc(sd).substr(0, 500).c_str());
					Reader r3(sa);
					if(!r3.val(mm.v[j])) failv("wrong_text", "%s in value '%s' for %s", r3.bad.c_str(), esc(sa).substr(0, 500).c_str(), text(mm.v[j]).substr(0, 500).c_str());
					osc_mem_free(xa);
					osc_mem_free(xd);
					long cv = (o.A(1) + j) % ((long)sa.size() + 3);
					if(cv < 0) cv = 0;
					prefixCheck("osc_atom_u_nformat", sa, cv, [&](char *q, long l) { return osc_atom_u_nformat(q, l, au, 0); });
					prefixCheck("osc_atom_s_nformat", sa, cv, [&](char *q, long l) { return osc_atom_s_nformat(q, l, as, 0); });
					osc_atom_s_free(as);
				}
			}
			osc_bndl_it_u_destroy(iu);
			osc_bndl_it_s_destroy(is);
			if(lossless(b) && !b.m.empty()){
				probe("text_round_trip");
				expectParse(tu, b, "text round trip", o.A(2) & 2, c);
			}
			osc_bundle_u_free(u);
			arena::callerFree(s);
			arena::checkNoLeaks(mk, "formatting");
			c.log(tu);
			stateHash(fnv(tu.data(), tu.size()));
		}else if(o.k == "parse" || o.k == "bad"){
			Bndl b;
			if(!unpackBndl(o.s, b, false)) continue;
			clean(b);
			norm(b);
			if(b.m.empty()) continue;
			bool addrs = true;
			std::function<void(const Bndl &)> f = [&](const Bndl &q) {
				for(auto &m : q.m){
					if(m.addr.size() < 2 || m.addr[0] != '/' || m.addr.find_first_of(" \t\n#\"") != std::string::npos || m.addr.back() == ',') addrs = false;
					for(auto &v : m.v) if(v.t == '.') f(*v.b);
				}
			};
			f(b);
			if(!addrs) continue;
			c.nontrivial();
			Writer w((uint64_t)o.A(0));
			std::string t = w.all(b);
			if(o.k == "bad"){
				std::string t2 = spoil(t, o.A(1));
				auto mk = arena::mark();
				t_osc_err e;
				t_osc_bndl_u *u = parse(t2, e, o.A(0) & 1);
				if(!e || u) failv("accepted", "malformed text was accepted%s: %s gave %s", u ? "" : " without a bundle", esc(t2).substr(0, 600).c_str(), u ? text(fromBndlU(u)).substr(0, 400).c_str() : "nothing");
				arena::checkNoLeaks(mk, "a parse of malformed text");
				fault("malformed_text");
			}
			expectParse(t, b, o.k == "bad" ? "the parse after a malformed one" : "parse", o.A(0) & 2, c);
			stateHash(fnv(t.data(), t.size()));
		}else if(o.k == "mut"){
			std::string t = o.s.substr(0, strlen(o.s.c_str()));
			c.nontrivial();
			fault("mutated_text");
			auto mk = arena::mark();
			t_osc_err e;
			t_osc_bndl_u *u = parse(t, e, false);
			if(!!e != !u) failv("error_and_bundle", "parse returned error %lu %s a bundle for '%s'", (unsigned long)e, u ? "and" : "without", esc(t).substr(0, 500).c_str());
			if(u){
				probe("mutated_text_accepted");
				Bndl got = fromBndlU(u);
				t_osc_bndl_s *s = osc_bundle_u_serialize(u);
				Bndl d;
				std::string why;
				if(!s || !fromBytes(osc_bundle_s_getLen(s), osc_bundle_s_getPtr(s), d, why)) failv("serialise", "the bundle parsed from '%s' serialises to bad OSC: %s", esc(t).substr(0, 500).c_str(), why.c_str());
				if(!near(d, got)) failv("serialise", "the bundle parsed from '%s' serialises to something else: %s", esc(t).substr(0, 500).c_str(), text(d).substr(0, 500).c_str());
				osc_bundle_s_deepFree(s);
				char *q = osc_bundle_u_format(u);
				if(q) osc_mem_free(q);
				osc_bundle_u_free(u);
			}
			arena::checkNoLeaks(mk, "a parse of mutated text");
			c.logf("mut %d", (int)!!e);
		}else if(o.k == "value"){       // the formatters of single values
			std::string s = o.s.c_str(), q;
			for(char ch : s){ if(ch == '"' || ch == '\\') q += '\\'; q += ch; }
			long cut = o.A(1) < 0 ? 0 : o.A(1) % 6000;
			int64_t v = o.A(2);
			int k = (int)(((o.A(0) % 10) + 10) % 10);
			c.nontrivial();
			auto mk = arena::mark();
			char *in = arena::callerBytes(s.c_str(), s.size() + 1);
			auto both = [&](const char *what, const std::string &want, const std::function<long(char *, long)> &f) {
				long n = f(nullptr, 0);
				if(n != (long)want.size()) failv("length", "%s announces %ld, the text is '%s'", what, n, esc(want).substr(0, 300).c_str());
				for(long m : {(long)want.size() + 1, cut, (long)want.size(), cut % ((long)want.size() + 2)}) prefixCheck(what, want, m, f);
			};
			switch(k){
			case 0: both("osc_strfmt_quotedString", "\"" + s + "\"", [&](char *b, long n) { return osc_strfmt_quotedString(b, n, in); }); break;
			case 1: both("osc_strfmt_stringWithQuotedMeta", q, [&](char *b, long n) { return osc_strfmt_stringWithQuotedMeta(b, n, in); }); break;
			case 2: both("osc_strfmt_quotedStringWithQuotedMeta", "\"" + q + "\"", [&](char *b, long n) { return osc_strfmt_quotedStringWithQuotedMeta(b, n, in); }); break;
			case 3: {
				char *out = nullptr;
				int n = osc_strfmt_addQuotesAndQuoteMeta((int)s.size(), in, &out);
				std::string want = "\"" + q + "\"";
				if(!out || n != (int)want.size() || want != out) failv("quotes", "osc_strfmt_addQuotesAndQuoteMeta of '%s' gave '%s' and %d", esc(s).substr(0, 300).c_str(), out ? esc(out).substr(0, 300).c_str() : "nothing", n);
				osc_mem_free(out);
				char *mine = arena::callerBuf(want.size() + 1);
				out = mine;
				n = osc_strfmt_addQuotesAndQuoteMeta((int)s.size(), in, &out);
				if(out != mine || n != (int)want.size() || want != out) failv("quotes", "osc_strfmt_addQuotesAndQuoteMeta of '%s' into a buffer gave '%s' and %d", esc(s).substr(0, 300).c_str(), esc(out).substr(0, 300).c_str(), n);
				arena::callerFree(mine);
				break;
			}
			case 4: {
				if(osc_strfmt_countMeta((int)s.size(), in) != (int)(q.size() - s.size())) failv("meta", "osc_strfmt_countMeta of '%s' is %d, not %zu", esc(s).substr(0, 300).c_str(), osc_strfmt_countMeta((int)s.size(), in), q.size() - s.size());
				if(osc_strfmt_strlenPadded(in) != (int)(s.size() / 4 * 4 + 4)) failv("padded", "osc_strfmt_strlenPadded of %zu characters is %d", s.size(), osc_strfmt_strlenPadded(in));
				for(int ch = 1; ch < 128; ch++) if(!!osc_strfmt_isMeta((char)ch) != (ch == '"' || ch == '\\')) failv("meta", "osc_strfmt_isMeta(%d) is %d", ch, osc_strfmt_isMeta((char)ch));
				break;
			}
			case 5: both("osc_strfmt_int64", std::to_string(v), [&](char *b, long n) { return osc_strfmt_int64(b, n, v); });
				both("osc_strfmt_uint64", std::to_string((uint64_t)v), [&](char *b, long n) { return osc_strfmt_uint64(b, n, v); }); break;
			case 6: both("osc_strfmt_int32", std::to_string((int32_t)v), [&](char *b, long n) { return osc_strfmt_int32(b, n, (int32_t)v); });
				both("osc_strfmt_uint32", std::to_string((uint32_t)v), [&](char *b, long n) { return osc_strfmt_uint32(b, n, (uint32_t)v); }); break;
			case 7: both("osc_strfmt_int16", std::to_string((int16_t)v), [&](char *b, long n) { return osc_strfmt_int16(b, n, (int16_t)v); });
				both("osc_strfmt_uint16", std::to_string((uint16_t)v), [&](char *b, long n) { return osc_strfmt_uint16(b, n, (uint16_t)v); }); break;
			case 8: {
				std::string blob = be32((uint32_t)s.size()) + s, want = "blob(";
				for(size_t j = 0; j < s.size(); j++) want += (j ? ", " : "") + std::to_string((int)(signed char)s[j]);
				want += ")";
				char *bl = arena::callerBytes(blob.data(), blob.size());
				both("osc_strfmt_blob", want, [&](char *b, long n) { return osc_strfmt_blob(b, n, bl); });
				arena::callerFree(bl);
				break;
			}
			case 9: {
				double d = (double)v / (double)(1 << (unsigned)(v & 15));
				if(v & 1) d = d * 1e-9;
				char txt[64];
				osc_strfmt_float64(txt, sizeof txt, d);
				if(std::fabs(strtod(txt, nullptr) - d) > 1e-5 * std::fabs(d)) failv("number", "osc_strfmt_float64(%.17g) gave '%s'", d, txt);
				if(!strpbrk(txt, ".e")) failv("number", "osc_strfmt_float64(%.17g) gave '%s', which reads back as an integer", d, txt);
				both("osc_strfmt_float64", txt, [&](char *b, long n) { return osc_strfmt_float64(b, n, d); });
				osc_strfmt_float32(txt, sizeof txt, (float)d);
				if(std::fabs(strtod(txt, nullptr) - d) > 1e-5 * std::fabs(d)) failv("number", "osc_strfmt_float32(%.17g) gave '%s'", d, txt);
				both("osc_strfmt_float32", txt, [&](char *b, long n) { return osc_strfmt_float32(b, n, (float)d); });
				both("osc_strfmt_bool", v & 1 ? "true" : "false", [&](char *b, long n) { return osc_strfmt_bool(b, n, v & 1 ? 'T' : 'F'); });
				both("osc_strfmt_null", "nil", [&](char *b, long n) { return osc_strfmt_null(b, n); });
				break;
			}
			}
			arena::callerFree(in);
			arena::checkNoLeaks(mk, "formatting of a value");
			c.logf("value %d", k);
		}else if(o.k == "deep"){
			int n = (int)(o.A(0) < 1 ? 1 : o.A(0) > 800 ? 800 : o.A(0));
			Rng r((uint64_t)o.A(1));
			Bndl b;
			b.m.push_back(Msg("/leaf", {Val::I('i', 7)}));
			std::string t = "/leaf : 7";
			for(int k = 0; k < n; k++){
				Bndl q;
				if(r.chance(1, 4)){ q.m.push_back(Msg("/s", {Val::S("x")})); t = "/n : {" + t + " }"; t = "/s : \"x\", " + t; }
				else t = "/n : {" + t + " }";
				q.m.push_back(Msg("/n", {Val::B(b)}));
				b = q;
			}
			probe("deep_text");
			c.nontrivial();
			expectParse(t, b, "deeply nested text", n & 1, c);
			std::string cut = t.substr(0, t.size() - 1);
			auto mk = arena::mark();
			t_osc_err e;
			t_osc_bndl_u *u = parse(cut, e, false);
			if(!e || u) failv("accepted", "text with a missing closing brace was accepted: %s", esc(cut).substr(0, 300).c_str());
			arena::checkNoLeaks(mk, "a parse of text with a missing brace");
		}
	}
}
Reg reg(Scenario{"L17", gen, run, 15000, 400000,
	"a run is non-trivial when a bundle was formatted or a text parsed",
	"formatters of bundles, messages and atoms in both forms, text scanner and parser, time tag formatting and parsing, bundle building and serialising",
	"allocator (simulated)",
	"characters with value 0 are left out (they end the text); addresses contain no white space, '#' or trailing comma; values that the text form does not distinguish are compared by their text; the legacy text parser, which nothing calls, is not covered"});
}
