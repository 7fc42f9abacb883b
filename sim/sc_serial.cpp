// L13: several byte streams fed to the streaming parser in an interleaving chosen by the plan, against a whole-prefix framing reference.
#include "om.h"
extern "C" {
#include "osc_serial.h"
}
using namespace sim;
using namespace om;
namespace {
const int NS = 3;
// 0: a valid beginning (or all) of a message; 1: malformed. `all`: no bytes follow
int framing(const std::string &m, bool all, bool &fin)
{
	size_t n = m.size();
	if(!n) return all ? 1 : 0;
	if(m[0] != '/') return 1;
	size_t i = 1;
	char in = 0;
	bool sep = false;
	for(; i < n && m[i]; i++){
		char c = m[i];
		if(!in){
			if(c == '[' || c == '{') in = c, sep = false;
			else if(c == ']' || c == '}') return 1;
		}else{
			if(c == '[' || c == '{') return 1;
			if(c == (in == '[' ? '}' : ']')) return 1;
			if(c == '*' || c == '?') return 1;
			if(c == (in == '[' ? ']' : '}')) in = 0;
			else if(c == (in == '[' ? '-' : ',')){ if(sep) return 1; sep = true; }
			else sep = false;
		}
	}
	if(i == n) return all ? 1 : 0;               // no terminator yet
	if(in) return 1;
	size_t e = (i / 4 + 1) * 4;
	for(; i < e; i++){
		if(i >= n) return all ? 1 : 0;
		if(m[i]) return 1;
	}
	if(i >= n) return all ? 1 : 0;
	if(m[i] != ',') return 1;
	size_t t = i;
	(void)t;
	for(i++; i < n && m[i]; i++) if(!strchr("cCuUiIhHfdsbTFNt.", m[i])) return 1;
	if(i == n) return all ? 1 : 0;
	e = (i / 4 + 1) * 4;
	for(; i < e; i++){
		if(i >= n) return all ? 1 : 0;
		if(m[i]) return 1;
	}
	fin = true;                                  // only data follows
	return 0;
}
// what the parser must say after a prefix
enum { FREE, GOOD, BAD };
struct Ref {
	std::string head;       // first 16 bytes
	size_t n = 0;
	bool naked = false, bad = false;
	std::string size, msg;
	uint64_t want = 0;      // declared size of the current message
	bool inmsg = false, fin = false;
	int put(char b)
	{
		n++;
		if(bad) return BAD;
		if(n == 1){
			if(b == '/') naked = true;
			else if(b != '#'){ bad = true; return BAD; }
		}
		if(naked){
			if(fin) return GOOD;
			msg += b;
			if(framing(msg, false, fin)){ bad = true; return BAD; }
			return GOOD;
		}
		if(n <= 8){
			if(b != "#bundle\0"[n - 1]){ bad = true; return BAD; }
			return GOOD;
		}
		if(n <= 16) return GOOD;
		if(!inmsg){
			size += b;
			if(size.size() == 4){
				want = rd32(size, 0);
				if(want & 0x80000000u || want % 4 || !want){
					// misaligned, negative or empty: an error at the latest when the message ends
					if(want & 0x80000000u || !want){ bad = true; return want ? BAD : FREE; }
				}
				inmsg = true;
				msg.clear();
				fin = false;
			}
			if(size[0] & 0x80) return FREE;
			if(size.size() == 4 && want % 4) return FREE;
			return GOOD;
		}
		got++;
		bool done = got == want;
		if(!fin) msg += b;
		int v = want % 4 ? 1 : fin ? 0 : framing(msg, done, fin);
		if(done){
			got = 0;
			inmsg = false;
			size.clear();
			if(v){ bad = true; return BAD; }
			return GOOD;
		}
		return v ? FREE : GOOD;
	}
	uint64_t got = 0;
};
struct Stream {
	uint64_t st = OSC_SERIAL_INIT;
	std::string bytes;
	size_t pos = 0;
	Ref ref;
	bool damaged = false;
	bool frees = false;
};
std::string damage(std::string w, int k, size_t pos, int64_t val)
{
	if(w.empty()) return w;
	pos %= w.size();
	switch(k){
	case 1: w.erase(pos, 1); fault("byte lost"); break;
	case 2: w.insert(pos, 1, w[pos]); fault("byte duplicated"); break;
	case 3: w[pos] ^= (char)(1 << (val & 7)); fault("bit flipped"); break;
	case 4: w.insert(pos, 1, (char)val); fault("byte inserted"); break;
	case 5: w.resize(pos); fault("stream cut off"); break;
	case 6: if(pos + 1 < w.size()) std::swap(w[pos], w[pos + 1]); fault("bytes swapped"); break;
	case 7: w[pos] = (char)val; fault("byte overwritten"); break;
	case 8: w.erase(0, pos); fault("start of the stream lost"); break;
	case 9:                                      // padding lost and the size adjusted to what is left
		if(w.size() > 24 && w[0] == '#'){
			size_t e = 20;
			while(e < w.size() && w[e]) e++;
			size_t pad = 0;
			while(e + pad < w.size() && !w[e + pad] && pad < 4) pad++;
			size_t k = 1 + (size_t)(val & 3);
			if(pad <= k || w[19] < (char)k) break;
			w.erase(e, k);
			w[19] = (char)(w[19] - k);
			fault("padding lost, size adjusted");
		}
		break;
	}
	return w;
}
// a stream with one very long message, its zeros made up as they are sent, and another message after it
void huge(uint64_t extra, Ctx &c)
{
	uint32_t size = 0x00800000u + (uint32_t)(extra % 0x00400000u) / 4 * 4;
	std::string a = "/h";
	a.resize(4, 0);
	a += ",b";
	a.resize(8, 0);
	uint64_t s = OSC_SERIAL_INIT;
	auto put = [&](const std::string &b, const char *what) {
		for(size_t i = 0; i < b.size(); i++){
			s = osc_serial_processByte(b[i], s);
			if(osc_serial_errorp(s)) failv("false-error", "%s of a bundle whose first message has %u bytes gives the error \"%s\" at byte %zu", what, size, osc_serial_errstr(s), i);
		}
	};
	std::string h("#bundle\0", 8);
	h += std::string(8, 1);
	char z[4] = {(char)(size >> 24), (char)(size >> 16), (char)(size >> 8), (char)size};
	h += std::string(z, 4);
	put(h + a, "the beginning");
	for(uint32_t i = 8; i < size; i++) s = osc_serial_processByte((char)0x7b, s);
	if(osc_serial_errorp(s)) failv("false-error", "the data of a message with %u bytes gives the error \"%s\"", size, osc_serial_errstr(s));
	put(std::string("\0\0\0\x0c", 4) + std::string("/x\0\0,i\0\0\0\0\0\1", 12), "the message after the long one");
	put(std::string(3, 0), "the size of a third message");
	s = osc_serial_processByte(8, s);
	s = osc_serial_processByte('x', s);
	if(!osc_serial_errorp(s)) failv("missed", "after a message with %u bytes and another one an address without a slash is not an error", size);
	probe("very long message");
	c.nontrivial();
}
void gen(Rng &r, Plan &p, int tier)
{
	arena::genPolicy(r, p);
	GenOpt o;
	o.longAddr = true;
	o.depth = 2;
	o.maxArgs = 5;
	int n = (int)r.range(2, tier ? 12 : 7);
	auto addr = [&] { std::string a = genAddr(r); return r.chance(1, 3) ? genPattern(r, a) : a; };
	for(int i = 0; i < n; i++){
		std::string w;
		size_t firstMsg = 16;
		if(r.chance(1, 5)){
			Msg m = genMsg(r, o);
			m.addr = addr();
			w = encMsg(m);
			firstMsg = 0;
		}else{
			Bndl b = genBndl(r, o);
			b.tt = r.chance(1, 2) ? r.next() : 1;
			for(auto &m : b.m){
				m.addr = addr();
				if(r.chance(1, 8)) m.v.push_back(Val::S(std::string(r.below(r.chance(1, 6) ? 70000 : 600), 'k')));
				if(r.chance(1, 8)) m.v.push_back(Val::Blob(std::string(r.range(100, 140), 'q')));
				if(r.chance(1, 6)) m.v.clear();
				if(r.chance(1, 8)) while(encMsg(m).size() % 256) m.v.push_back(Val::I('i', (int64_t)r.next() & 0x7fffffff));
			}
			w = enc(b);
		}
		int k = r.chance(1, 2) ? 0 : (int)r.range(1, 9);
		size_t pos = r.chance(1, 3) ? r.below(24) : r.chance(1, 2) && w.size() > firstMsg ? firstMsg + r.below(std::min<size_t>(40, w.size() - firstMsg)) : r.below(w.size());
		int64_t val = r.chance(1, 2) ? (int64_t)r.below(256) : (int64_t)r.pick(std::vector<char>{'[', ']', '{', '}', ',', '-', '*', '/', 0, 'z', '#'});
		int s = (int)r.below(NS);
		p.op("packet", {s, k, (int64_t)pos, val}, w);
		int f = (int)r.range(1, 6);
		for(int j = 0; j < f; j++) p.op("feed", {(int64_t)r.below(NS), r.chance(1, 3) ? r.range(1, 4) : r.chance(1, 2) ? r.range(1, 64) : r.range(100, 5000)});
		if(r.chance(1, 6000)) p.op("huge", {(int64_t)r.next()});
		if(r.chance(1, 12)) p.op("restart", {(int64_t)r.below(NS)});
	}
}
void feed(Stream &s, size_t n, Ctx &c, bool &any)
{
	while(n-- && s.pos < s.bytes.size()){
		char b = s.bytes[s.pos++];
		bool was = osc_serial_errorp(s.st);
		uint64_t before = s.st;
		s.st = osc_serial_processByte(b, s.st);
		if(osc_serial_processByte(b, before) != s.st) failv("pure", "the same byte in the same state gives two different states");
		bool err = osc_serial_errorp(s.st);
		int want = s.ref.put(b);
		any = true;
		if(was && !err) failv("sticky", "the parser left its error state at byte %zu without being restarted", s.pos - 1);
		if(want == GOOD && err) failv("false-error", "byte %zu of a well-formed stream gives the error \"%s\" (%s)", s.pos - 1, osc_serial_errstr(s.st) ? osc_serial_errstr(s.st) : "(none)", esc(s.bytes.substr(0, 200)).c_str());
		if(want == BAD && !err) failv("missed", "malformed framing is not an error at byte %zu (%s)", s.pos - 1, esc(s.bytes.substr(0, 200)).c_str());
		if(err){
			const char *e = osc_serial_errstr(s.st);
			if(!e || !*e) failv("errstr", "no text for the error state %016lx", (long)s.st);
			if(!was){ probe(e); c.nontrivial(); }
		}else if(s.pos == s.bytes.size() && s.bytes.size() > 16) c.nontrivial();
		stateHash(mix64(s.st >> 32) ^ (uint64_t)(unsigned char)b);
	}
}
void run(const Plan &p, Ctx &c)
{
	Stream st[NS];
	uint64_t t = 0;
	int last = -1;
	for(size_t i = 0; i < p.ops.size(); i++){
		const Op &o = p.ops[i];
		c.at(i, o);
		int k = (int)((uint64_t)o.A(0) % NS);
		if(o.k == "huge"){ huge((uint64_t)o.A(0), c); continue; }
		Stream &s = st[k];
		bool any = false;
		if(o.k == "packet"){
			feed(s, ~(size_t)0, c, any);              // what is left of the packet before
			s = Stream();                             // the caller restarts at a packet's beginning
			int d = (int)o.A(1);
			s.bytes = d > 0 && d < 10 ? damage(o.s, d, (size_t)(uint64_t)o.A(2), o.A(3)) : o.s;
		}else if(o.k == "feed"){
			if(o.A(1) < 0) continue;
			feed(s, (size_t)o.A(1), c, any);
			if(any && last != k && last >= 0) fault("streams interleaved");
			last = k;
		}else if(o.k == "restart"){
			s = Stream();
			fault("stream restarted");
		}
		simTime(++t);
		c.logf("%lx %zu", (long)s.st, s.pos);
	}
	for(auto &s : st){ bool any; feed(s, ~(size_t)0, c, any); }
}
Reg reg(Scenario{"L13", gen, run, 30000, 800000,
	"a stream reached its end without error or entered an error state, compared byte by byte with the framing reference",
	"osc_serial.c compiled from /repo, together with the type-tag and byte-order definitions it uses",
	"the byte links (loss, duplication, corruption, truncation, interleaving and restarts) are simulated",
	"messages have type tags and a non-zero size; bundles nested directly as bundle elements are outside the parser's language (libo nests bundles as arguments); argument data is not parsed by the code and not judged"});
}
