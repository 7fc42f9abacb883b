// L12: time tags against exact 64-bit NTP arithmetic, an independent calendar and a simulated, stepping, skewed clock.
#include "om.h"
#include <algorithm>
#include <cmath>
using namespace sim;
using namespace om;
namespace {
const int64_t EPOCH = 2208988800ll;                       // 1900 -> 1970
const int64_t LAST = 4294967295ll - EPOCH;                // last second of NTP era 0
const int NN = 3;
struct Stamp { int64_t sec, usec; uint64_t tag; };
struct Pkt { uint64_t due, seq; std::string bytes; int64_t sec, usec; };
typedef unsigned __int128 u128;

uint64_t mag(uint64_t a, uint64_t b) { return a > b ? a - b : b - a; }
int sgn(int64_t v) { return v < 0 ? -1 : v > 0; }
int sgnc(int v) { return v < 0 ? -1 : v > 0; }
// days since 1900-01-01 (proleptic Gregorian)
int64_t days(int64_t y, int64_t m, int64_t d)
{
	y -= m <= 2;
	int64_t era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	return era * 146097 + doe - 719468 + 25567;
}
int mdays(int64_t y, int m)
{
	static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
	return m == 2 && ((y % 4 == 0 && y % 100) || y % 400 == 0) ? 29 : n[m - 1];
}
std::string show(uint64_t t) { return sprintf_("%u+%u/2^32", (unsigned)(t >> 32), (unsigned)t); }
// text -> instant in microseconds since 1900 (independent reader); false: not a date and time
bool readIso(const std::string &s, double &us)
{
	int y, mo, d, h, mi, n = 0;
	if(sscanf(s.c_str(), "%4d-%2d-%2dT%2d:%2d:%n", &y, &mo, &d, &h, &mi, &n) != 5 || !n) return false;
	const char *p = s.c_str() + n;
	int k = 0;
	double sec = 0, sc = 1;
	while(*p >= '0' && *p <= '9'){ sec = sec * 10 + (*p++ - '0'); k++; }
	if(k != 2) return false;
	if(*p == '.'){ p++; while(*p >= '0' && *p <= '9'){ sc /= 10; sec += sc * (*p++ - '0'); } }
	if(strcmp(p, "Z")) return false;
	if(mo < 1 || mo > 12 || d < 1 || d > mdays(y, mo) || h > 23 || mi > 59 || sec >= 60) return false;
	us = ((double)days(y, mo, d) * 86400 + h * 3600 + mi * 60) * 1e6 + sec * 1e6;
	return true;
}
double tagUs(uint64_t t) { return (double)(t >> 32) * 1e6 + (double)(uint32_t)t / 4294.967296; }
uint64_t usTag(double us) { double s = floor(us / 1e6); return ((uint64_t)s << 32) + (uint64_t)((us - s * 1e6) * 4294.967296); }

uint64_t genTag(Rng &r)
{
	uint32_t sec, fr;
	switch(r.below(8)){
	case 0: sec = (uint32_t)r.below(4); break;
	case 1: sec = 0xffffffffu - (uint32_t)r.below(4); break;
	case 2: sec = 0x80000000u + (uint32_t)r.below(3) - 1; break;
	case 3: { // around midnight near the end or beginning of a year or of February
		int64_t y = r.range(1900, 2035);
		int m = (int)r.pick(std::vector<int>{1, 2, 3, 12, 8, 9, 10});
		int64_t d = days(y, m, r.chance(1, 2) ? 1 : mdays(y, m));
		sec = (uint32_t)(d * 86400 + (r.chance(1, 2) ? r.range(0, 2) : 86399 - r.range(0, 2)));
		break; }
	case 4: sec = (uint32_t)(EPOCH + r.range(0, LAST)); break;
	default: sec = (uint32_t)r.next(); break;
	}
	switch(r.below(6)){
	case 0: fr = (uint32_t)r.below(3); break;
	case 1: fr = 0xffffffffu - (uint32_t)r.below(r.chance(1, 2) ? 3 : 5000); break;
	case 2: fr = 0x80000000u + (uint32_t)r.below(3) - 1; break;
	default: fr = (uint32_t)r.next(); break;
	}
	return (uint64_t)sec << 32 | fr;
}
void gen(Rng &r, Plan &p, int tier)
{
	arena::genPolicy(r, p);
	p.cfg["sec"] = r.range(0, LAST - 100000000);
	p.cfg["usec"] = r.chance(1, 2) ? 999999 - r.range(0, 20) : r.range(0, 999999);
	int n = (int)r.range(10, tier ? 80 : 40);
	for(int i = 0; i < n; i++){
		switch(r.below(16)){
		case 0: case 1: case 2: p.op("stamp", {r.range(0, NN - 1), r.chance(1, 2) ? 0 : r.range(0, 3000000), r.range(0, 99)}); break;
		case 3: case 4: case 5: p.op("tick", {r.chance(1, 2) ? r.range(1, 30) : r.chance(1, 2) ? r.range(1, 2000000) : r.range(1, 100000000)}); break;
		case 6: p.op("edge", {r.range(0, 12)}); break;
		case 7: p.op("step", {r.range(0, LAST - 100000000), r.chance(1, 2) ? 999999 - r.range(0, 12) : r.range(0, 999999)}); break;
		case 8: p.op("skew", {r.range(0, NN - 1), r.range(-5000000, 5000000)}); break;
		case 9: case 10: {
			uint64_t a = genTag(r), b = genTag(r);
			if(r.chance(1, 4)) b = (a & 0xffffffff00000000ull) | (uint32_t)b;
			else if(r.chance(1, 4)) b = (uint64_t)((a >> 32) + r.range(-2, 2)) << 32 | (uint32_t)b;
			else if(r.chance(1, 6)) b = a;
			if(r.chance(1, 3)) a >>= 1, b >>= 1;
			p.op("arith", {(int64_t)a, (int64_t)b, (int64_t)genTag(r)});
			break; }
		case 11: p.op("float", {(int64_t)genTag(r), (int64_t)(r.chance(1, 2) ? r.below(4294967295ull) : r.below(5)), (int64_t)r.next()}); break;
		case 12: p.op("iso", {(int64_t)genTag(r), r.range(0, 32)}); break;
		case 13: { int64_t y = r.range(1900, 2035); int m = (int)r.range(1, 12); p.op("text", {y, m, r.chance(1, 3) ? mdays(y, m) : r.range(1, mdays(y, m)), r.chance(1, 3) ? 23 : r.range(0, 23), r.chance(1, 3) ? 59 : r.range(0, 59), r.chance(1, 3) ? 59 : r.range(0, 59), r.chance(1, 3) ? 999999 - r.range(0, 2) : r.range(0, 999999), r.range(0, 3)}); break; }
		case 14: p.op("header", {(int64_t)genTag(r)}); break;
		default: p.op("atom", {(int64_t)genTag(r)}); break;
		}
	}
}
void run(const Plan &p, Ctx &c)
{
	int64_t sec = p.C("sec", 1000000), usec = p.C("usec", 0);
	if(sec < 0 || sec > LAST - 100000000) sec = 1000000;
	if(usec < 0 || usec > 999999) usec = 0;
	int64_t skew[NN] = {0, 0, 0};
	std::vector<Stamp> seen[NN];
	std::vector<Pkt> link;
	uint64_t now = 0, seq = 0;
	Stamp lastRecv{-1, 0, 0};
	(void)lastRecv;
	std::vector<Stamp> recvd;
	auto deliver = [&](uint64_t upto) {
		std::stable_sort(link.begin(), link.end(), [](const Pkt &a, const Pkt &b) { return a.due != b.due ? a.due < b.due : a.seq < b.seq; });
		size_t k = 0;
		for(; k < link.size() && link[k].due <= upto; k++){
			char *b = arena::callerBytes(link[k].bytes.data(), link[k].bytes.size());
			uint64_t t = fromTT(osc_bundle_s_getTimetag((long)link[k].bytes.size(), b));
			arena::callerFree(b);
			Stamp s{link[k].sec, link[k].usec, t};
			for(auto &q : recvd){
				int want = s.sec != q.sec ? sgn(s.sec - q.sec) : sgn(s.usec - q.usec);
				int got = sgnc(osc_timetag_compare(toTT(s.tag), toTT(q.tag)));
				if(want != got) failv("order", "datagram stamped at %ld.%06ld compares %d with one stamped at %ld.%06ld", (long)s.sec, (long)s.usec, got, (long)q.sec, (long)q.usec);
			}
			recvd.push_back(s);
			if(recvd.size() > 1) c.nontrivial();
		}
		link.erase(link.begin(), link.begin() + k);
	};
	for(size_t i = 0; i < p.ops.size(); i++){
		const Op &o = p.ops[i];
		c.at(i, o);
		if(o.k == "tick"){
			if(o.A(0) < 0 || o.A(0) > 1000000000) continue;
			usec += o.A(0);
			sec += usec / 1000000;
			usec %= 1000000;
			if(sec > LAST - 1000) sec = LAST - 1000;
			now += (uint64_t)o.A(0);
			simTime((uint64_t)o.A(0));
			deliver(now);
		}else if(o.k == "edge"){                     // just before the next second
			if(o.A(0) < 0 || o.A(0) > 100) continue;
			usec = 999999 - o.A(0);
			probe("clock read in the last microseconds of a second");
		}else if(o.k == "step"){
			if(o.A(0) < 0 || o.A(0) > LAST - 100000000 || o.A(1) < 0 || o.A(1) > 999999) continue;
			fault(o.A(0) < sec ? "clock stepped back" : "clock stepped forward");
			sec = o.A(0);
			usec = o.A(1);
		}else if(o.k == "skew"){
			if(o.A(1) < -10000000 || o.A(1) > 10000000) continue;
			skew[(uint64_t)o.A(0) % NN] = o.A(1);
			fault("node clock skewed");
		}else if(o.k == "stamp"){
			int nd = (int)((uint64_t)o.A(0) % NN);
			int64_t t = sec * 1000000 + usec + skew[nd];
			if(t < 0) t = 0;
			int64_t s = t / 1000000, u = t % 1000000;
			simclock::set(s, u);
			uint64_t tag = fromTT(osc_timetag_now());
			// exact: u/10^6 s in units of 2^-32 s
			u128 want = ((u128)(uint64_t)(s + EPOCH) << 32) + (((u128)u << 32) / 1000000);
			if(mag(tag, (uint64_t)want) > 4295) failv("now", "clock reads %ld.%06ld, time tag is %s, expected %s", (long)s, (long)u, show(tag).c_str(), show((uint64_t)want).c_str());
			if(u >= 999990) probe("time tag taken in the last 10 us of a second");
			for(auto &q : seen[nd]){
				int w = s != q.sec ? sgn(s - q.sec) : sgn(u - q.usec);
				int g = sgnc(osc_timetag_compare(toTT(tag), toTT(q.tag)));
				if(w != g) failv("order", "tags taken at %ld.%06ld and %ld.%06ld compare %d", (long)s, (long)u, (long)q.sec, (long)q.usec, g);
			}
			seen[nd].push_back({s, u, tag});
			if(seen[nd].size() > 1) c.nontrivial();
			// stamped datagram over the link
			t_osc_bndl_s *b = osc_bundle_s_allocEmptyBundle();
			osc_bundle_s_setTimetag(osc_bundle_s_getLen(b), osc_bundle_s_getPtr(b), toTT(tag));
			std::string w(osc_bundle_s_getPtr(b), osc_bundle_s_getLen(b));
			osc_bundle_s_deepFree(b);
			Bndl m;
			m.tt = tag;
			if(w != enc(m)) failv("header", "bundle stamped %s has the bytes %s", show(tag).c_str(), esc(w).c_str());
			if(o.A(2) < 15){ fault("datagram lost"); continue; }
			int64_t d = o.A(1) < 0 || o.A(1) > 10000000 ? 0 : o.A(1);
			for(auto &q : link) if(q.due > now + (uint64_t)d){ fault("datagram overtook another"); break; }
			link.push_back({now + (uint64_t)d, seq++, w, s, u});
		}else if(o.k == "arith"){
			uint64_t a = (uint64_t)o.A(0), b = (uint64_t)o.A(1), e = (uint64_t)o.A(2);
			c.nontrivial();
			uint64_t sum = fromTT(osc_timetag_add(toTT(a), toTT(b)));
			if(sum != a + b) failv("add", "%s + %s gives %s", show(a).c_str(), show(b).c_str(), show(sum).c_str());
			uint64_t dif = fromTT(osc_timetag_subtract(toTT(a), toTT(b)));
			if(dif != mag(a, b)) failv("subtract", "%s - %s gives %s, the interval is %s", show(a).c_str(), show(b).c_str(), show(dif).c_str(), show(mag(a, b)).c_str());
			if(a + b >= a){
				uint64_t back = fromTT(osc_timetag_subtract(toTT(sum), toTT(b)));
				if(back != a) failv("inverse", "(%s + %s) - the latter gives %s", show(a).c_str(), show(b).c_str(), show(back).c_str());
			}
			if((uint32_t)a + (uint64_t)(uint32_t)b > 0xffffffffu) probe("addition carries into the seconds");
			uint64_t v[3] = {a, b, e};
			for(uint64_t x : v) for(uint64_t y : v){
				int g = sgnc(osc_timetag_compare(toTT(x), toTT(y)));
				if(g != (x < y ? -1 : x > y)) failv("compare", "%s and %s compare %d", show(x).c_str(), show(y).c_str(), g);
			}
			for(uint64_t x : v) if(!!osc_timetag_isImmediate(toTT(x)) != (x == 1)) failv("immediate", "%s immediate: %d", show(x).c_str(), osc_timetag_isImmediate(toTT(x)));
			if(!osc_timetag_isImmediate(OSC_TIMETAG_IMMEDIATE)) failv("immediate", "the immediate time tag is not immediate");
			c.logf("%lx %lx", (long)sum, (long)dif);
		}else if(o.k == "float"){
			uint64_t t = (uint64_t)o.A(0);
			double d = osc_timetag_timetagToFloat(toTT(t));
			double want = (double)(t >> 32) + (double)(uint32_t)t / 4294967296.0;
			double tol = std::fabs(want) * 2.3e-16 * 2 + 5e-10;
			if(!(std::fabs(d - want) <= tol)) failv("tofloat", "%s as a number is %.12f, expected %.12f", show(t).c_str(), d, want);
			if(d < 4294967295.0){
				uint64_t b = fromTT(osc_timetag_floatToTimetag(d));
				if((double)mag(b, t) > tol * 2 * 4294967296.0 + 4) failv("fromfloat", "%s goes through %.12f to %s", show(t).c_str(), d, show(b).c_str());
			}
			double x = (double)((uint64_t)o.A(1) % 4294967295ull) + (double)((uint64_t)o.A(2) >> 11) / 9007199254740992.0;
			uint64_t y = fromTT(osc_timetag_floatToTimetag(x));
			double back = (double)(y >> 32) + (double)(uint32_t)y / 4294967296.0;
			if(!(std::fabs(back - x) <= x * 4.6e-16 + 7e-10)) failv("fromfloat", "%.12f becomes %s", x, show(y).c_str());
			c.logf("%.17g %lx", d, (long)y);
			c.nontrivial();
		}else if(o.k == "iso"){
			uint64_t t = (uint64_t)o.A(0);
			long n = osc_timetag_nformat(NULL, 0, toTT(t));
			char *f = osc_timetag_format(toTT(t));
			std::string s = f;
			osc_mem_free(f);
			if((long)s.size() != n) failv("length", "announced %ld characters, wrote %zu: %s", n, s.size(), s.c_str());
			double us;
			if(!readIso(s, us)) failv("format", "%s formats as %s", show(t).c_str(), esc(s).c_str());
			if(std::fabs(us - tagUs(t)) > 1.1) failv("format", "%s formats as %s, which is %.0f us away", show(t).c_str(), s.c_str(), us - tagUs(t));
			t_osc_timetag q = OSC_TIMETAG_NULL;
			char *cb = arena::callerBytes(s.c_str(), s.size() + 1);
			osc_timetag_fromISO8601(cb, &q);
			arena::callerFree(cb);
			if(std::fabs(tagUs(fromTT(q)) - us) > 1.1) failv("parse", "%s reads back as %s", s.c_str(), show(fromTT(q)).c_str());
			long k = (int64_t)((uint64_t)o.A(1) % 40);
			if(k > 0){
				char *b = arena::callerBuf(k);
				long m = osc_timetag_nformat(b, k, toTT(t));
				if(m != n) failv("length", "needs %ld characters but reports %ld into a buffer of %ld", n, m, k);
				if(std::string(b) != s.substr(0, k - 1)) failv("truncate", "buffer of %ld holds %s", k, esc(b).c_str());
				arena::callerFree(b);
			}
			c.log(s);
			c.nontrivial();
		}else if(o.k == "text"){
			int64_t y = o.A(0), mo = o.A(1), d = o.A(2), h = o.A(3), mi = o.A(4), se = o.A(5), us = o.A(6);
			if(y < 1900 || y > 2035 || mo < 1 || mo > 12 || d < 1 || d > mdays(y, (int)mo) || h < 0 || h > 23 || mi < 0 || mi > 59 || se < 0 || se > 59 || us < 0 || us > 999999) continue;
			std::string s = sprintf_("%04d-%02d-%02dT%02d:%02d:%02d", (int)y, (int)mo, (int)d, (int)h, (int)mi, (int)se);
			int digits = (int)((uint64_t)o.A(7) % 4) * 2;                      // 0, 2, 4 or 6 digits
			for(int k = digits; k < 6; k += 2) us -= us % (k == 4 ? 100 : k == 2 ? 10000 : 1000000);
			if(digits) s += "." + sprintf_("%06d", (int)us).substr(0, digits);
			s += "Z";
			t_osc_timetag q = OSC_TIMETAG_NULL;
			char *cb = arena::callerBytes(s.c_str(), s.size() + 1);
			osc_timetag_fromISO8601(cb, &q);
			arena::callerFree(cb);
			double want = ((double)days(y, mo, d) * 86400 + h * 3600 + mi * 60 + se) * 1e6 + us;
			if(std::fabs(tagUs(fromTT(q)) - want) > 1.1) failv("parse", "%s reads as %s", s.c_str(), show(fromTT(q)).c_str());
			char *f = osc_timetag_format(q);
			double us2;
			if(!readIso(f, us2) || std::fabs(us2 - want) > 1.1) failv("format", "%s read and formatted again is %s", s.c_str(), f);
			osc_mem_free(f);
			if(d == 29 && mo == 2) probe("29 February");
			c.nontrivial();
		}else if(o.k == "header"){
			uint64_t t = (uint64_t)o.A(0);
			char *b = arena::callerBuf(8);
			osc_timetag_encodeForHeader(toTT(t), b);
			if(std::string(b, 8) != be64(t)) failv("header", "%s encodes as %s", show(t).c_str(), esc(std::string(b, 8)).c_str());
			uint64_t u = fromTT(osc_timetag_decodeFromHeader(b));
			if(u != t) failv("header", "%s decodes as %s", show(t).c_str(), show(u).c_str());
			arena::callerFree(b);
			c.nontrivial();
		}else if(o.k == "atom"){
			uint64_t t = (uint64_t)o.A(0);
			t_osc_atom_u *a = osc_atom_u_alloc();
			osc_atom_u_setTimetag(a, toTT(t));
			if(fromTT(osc_atom_u_getTimetag(a)) != t) failv("atom", "an atom set to %s holds %s", show(t).c_str(), show(fromTT(osc_atom_u_getTimetag(a))).c_str());
			double d = osc_atom_u_getDouble(a), want = (double)(t >> 32) + (double)(uint32_t)t / 4294967296.0;
			if(!(std::fabs(d - want) <= want * 4.6e-16 + 5e-10)) failv("atom", "an atom set to %s reads as %.12f", show(t).c_str(), d);
			t_osc_msg_u *m = osc_message_u_allocWithAddress((char *)"/t");
			osc_message_u_appendAtom(m, a);
			t_osc_msg_s *s = osc_message_u_serialize(m);
			t_osc_atom_s *as = nullptr;
			osc_message_s_getArg(s, 0, &as);
			if(fromTT(osc_atom_s_getTimetag(as)) != t) failv("atom", "%s serialised reads as %s", show(t).c_str(), show(fromTT(osc_atom_s_getTimetag(as))).c_str());
			uint64_t e = t ^ 0x0102030405060708ull;
			osc_atom_s_setTimetag(as, toTT(e));
			if(fromTT(osc_atom_s_getTimetag(as)) != e) failv("atom", "a serialised time tag set to %s reads as %s", show(e).c_str(), show(fromTT(osc_atom_s_getTimetag(as))).c_str());
			osc_atom_s_free(as);
			osc_message_s_deepFree(s);
			osc_message_u_free(m);
			c.nontrivial();
		}
		stateHash(mix64(fnv(o.k.data(), o.k.size()) ^ (uint64_t)usec / 1000 ^ (uint64_t)o.A(0) * 31));
	}
	deliver(~0ull);
}
Reg reg(Scenario{"L12", gen, run, 60000, 1500000,
	"a pair of tags was compared with the clock readings behind them, or an arithmetic, text, header or number conversion was compared with the reference",
	"osc_timetag.c contrib/strptime.c, time-tag atoms and bundle headers, compiled from /repo",
	"gettimeofday (steps, skew per node, readings at second boundaries), the link carrying stamped datagrams and the allocator are simulated",
	"clock readings and dates lie in NTP era 0 (1900 to 2036); subtraction gives the length of the interval between two tags whichever is earlier, as the code documents by construction"});
}
