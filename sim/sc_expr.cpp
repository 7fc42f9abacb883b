// L15: evaluating programs of the expression language against a reference interpreter.
// L16: whatever the program, evaluation is a function of program and bundle; copies, formatting, other
// programs and rejected text in between change nothing, and bundles stay well-formed.
#include "expr.h"
#include "om.h"
extern "C" {
#include "osc_hashtab.h"
#include "osc_expr.h"
t_osc_err osc_expr_parser_parseExpr(char *ptr, t_osc_expr **f, void *context);
}
using namespace sim;
using namespace om;
namespace {
struct Bytes {                               // a serialised bundle as a caller holds it: the library may resize it
	long n = 0;
	char *p = nullptr;
	void set(const std::string &s) { drop(); n = s.size(); p = (char *)osc_mem_alloc(n); memcpy(p, s.data(), n); }
	void drop() { if(p) osc_mem_free(p); p = nullptr; n = 0; }
	std::string str() const { return std::string(p, p + n); }
};
std::vector<Val> atoms(t_osc_atom_ar_u *a)
{
	std::vector<Val> r;
	if(!a) return r;
	int n = osc_atom_array_u_getLen(a);
	for(int i = 0; i < n; i++) r.push_back(fromAtomU((t_osc_atom_u *)osc_atom_array_u_get(a, i)));
	return r;
}
std::vector<int64_t> genTape(Rng &r, int lo, int hi)
{
	std::vector<int64_t> t;
	t.push_back(r.chance(1, 4) ? 0 : (int64_t)(r.next() >> 1));
	int n = r.range(lo, hi);
	for(int i = 0; i < n; i++) t.push_back((int64_t)(r.next() >> 20));
	return t;
}
t_osc_expr *parse(Ctx &c, const std::string &src, bool must)
{
	char *s = arena::callerBytes(src.c_str(), src.size() + 1);
	t_osc_expr *f = nullptr;
	t_osc_err e = osc_expr_parser_parseExpr(s, &f, nullptr);
	arena::callerFree(s);
	if(must && (e || !f)) failv("reject", "well-formed expression text is rejected: %s", esc(src).c_str());
	return f;
}
void freeAll(t_osc_expr *f) { if(f) osc_expr_free(f); }   // frees what is linked to it as well

// ------------------------------------------------------------------------------------------------ L15
void gen15(Rng &r, Plan &p, int tier)
{
	arena::genPolicy(r, p);
	int n = r.range(1, tier ? 8 : 5);
	p.op("b", {}, enc(ex::genData(r)));
	for(int i = 0; i < n; i++){
		if(r.chance(1, 12)) p.op("b", {}, enc(ex::genData(r)));
		p.op("e", genTape(r, 20, r.chance(1, 6) ? 160 : 60));
	}
}
void run15(const Plan &p, Ctx &c)
{
	Bndl mod;
	Bytes b;
	b.set(enc(mod));
	int done = 0;
	for(size_t i = 0; i < p.ops.size(); i++){
		auto &o = p.ops[i];
		c.at(i, o);
		if(o.k == "b"){
			Bndl nb;
			std::string why;
			if(!dec(o.s, nb, why)) continue;
			mod = nb;
			b.set(o.s);
			continue;
		}
		if(o.k != "e" || o.a.empty()) continue;
		std::vector<int64_t> tp(o.a.begin() + 1, o.a.end());
		ex::Tape t(tp);
		ex::GenCfg g;
		auto prog = ex::program(t, g);
		std::string src = ex::print(prog, (uint64_t)o.a[0]);
		c.log(src);
		t_osc_expr *f = parse(c, src, true);
		size_t k = 0;
		for(t_osc_expr *q = f; q; q = osc_expr_next(q), k++){
			if(k >= prog.size()) failv("count", "%s parses to more than %zu expressions", esc(src).c_str(), prog.size());
			Bndl before = mod;
			ex::Res w = ex::eval(prog[k], mod);
			t_osc_atom_ar_u *out = nullptr;
			int ret = osc_expr_eval(q, &b.n, &b.p, &out, nullptr);
			std::vector<Val> got = atoms(out);
			if(out) osc_atom_array_u_free(out);
			Bndl now;
			std::string why;
			if(!fromBytes(b.n, b.p, now, why)) failv("malformed", "after %s on %s the bundle is malformed: %s", esc(src).c_str(), text(before).c_str(), why.c_str());
			c.logf("%d %s %s", ret != 0, ret ? "" : ex::text(got).c_str(), text(now).c_str());
			if(w.st == 2){ probe("no prediction"); if(g_debug) c.log("unspecified: " + w.why); mod = now; continue; }
			done++;
			if((ret != 0) != (w.st == 1)) failv(ret ? "error" : "noerror", "expression %zu of %s on %s: %s, expected %s", k, esc(src).c_str(), text(before).c_str(), ret ? "fails" : ("gives " + ex::text(got)).c_str(), w.st == 1 ? "failure" : ex::text(w.v).c_str());
			if(!ret && !ex::same(got, w.v)) failv("value", "expression %zu of %s on %s gives %s, expected %s", k, esc(src).c_str(), text(before).c_str(), ex::text(got).c_str(), ex::text(w.v).c_str());
			if(!ex::same(now, mod)) failv("effect", "expression %zu of %s on %s leaves %s, expected %s", k, esc(src).c_str(), text(before).c_str(), text(now).c_str(), text(mod).c_str());
			if(ret) probe("expression that fails");
			if(!ex::same(before, mod)) probe("bundle changed by an expression");
			if(before.m.size() > mod.m.size()) probe("message deleted by an expression");
			stateHash(fnv(src.data(), src.size()));
			if(ret) break;
		}
		if(k < prog.size() && !(k < prog.size() && done)) failv("count", "%s parses to %zu expressions, expected %zu", esc(src).c_str(), k, prog.size());
		freeAll(f);
		if(mod.m.size() > 40){ mod = Bndl(); b.set(enc(mod)); }
	}
	b.drop();
	if(done) c.nontrivial();
}
Reg r15(Scenario{"L15", gen15, run15, 35000, 1500000,
	"at least one evaluation was predicted by the reference interpreter and compared",
	"osc_expr.c and its parser and scanner, osc_expr_builtins, and the bundle, message and atom modules they use, compiled from /repo",
	"the allocator (osc_set_mem) is simulated: guarded blocks, seeded contents and reuse",
	"arguments and functions for which the language promises no particular value (marked unspecified in the reference) are run but not compared; compile(), the clock and random functions are left out"});

// ------------------------------------------------------------------------------------------------ L16
struct Outcome { int ret; std::vector<Val> v; std::string b; };
std::string show(const Outcome &o) { Bndl b; std::string w; dec(o.b, b, w); return (o.ret ? std::string("failure") : ex::text(o.v)) + " leaving " + text(b); }
bool same(const Outcome &a, const Outcome &b)
{
	if((a.ret != 0) != (b.ret != 0)) return false;
	if(!a.ret && !ex::same(a.v, b.v)) return false;
	return a.b == b.b;
}
struct X16 { std::string src; t_osc_expr *f = nullptr; std::string fmt; std::map<int, Outcome> seen; };
std::string fmtOf(t_osc_expr *f)
{
	char *s = nullptr;
	long n = 0;
	osc_expr_format(f, &n, &s);
	std::string r = s ? std::string(s) : std::string();
	if(s) osc_mem_free(s);
	return r;
}
std::string litText(const Val &v)
{
	t_osc_atom_u *a = osc_atom_u_alloc();
	setAtom(a, v);
	char b[4000];
	b[0] = 0;
	osc_atom_u_nformat(b, sizeof(b), a, 0);
	osc_atom_u_free(a);
	return b;
}
Outcome evalAll(t_osc_expr *f, const std::string &bytes, const std::string &src)
{
	Outcome o;
	Bytes b;
	b.set(bytes);
	o.ret = 0;
	for(t_osc_expr *q = f; q && !o.ret; q = osc_expr_next(q)){
		t_osc_atom_ar_u *out = nullptr;
		o.ret = osc_expr_eval(q, &b.n, &b.p, &out, nullptr);
		o.v = atoms(out);
		if(out) osc_atom_array_u_free(out);
		Bndl now;
		std::string why;
		if(!fromBytes(b.n, b.p, now, why)) failv("malformed", "after %s the bundle is malformed: %s", esc(src).c_str(), why.c_str());
	}
	o.b = b.str();
	b.drop();
	return o;
}
const std::vector<std::string> SCRAPS = {"", "(", ")", "1 +", "/a = ", "foo(", "nosuchfunction(1)", "[1, 2", "/a[[1", "lambda(", "\"open", "1 2 3", "if(", "/a = (1", "?", "{", "}", "/a =", "+", "sum(1))", "# only a comment\n", ",", "/a /b", "lambda([p], ", "/a.", "..", "\"\\", "0x", "1e", "eval(\"(\")", "eval(\"nosuch(1)\")"};
void gen16(Rng &r, Plan &p, int tier)
{
	arena::genPolicy(r, p);
	int nb = r.range(1, 3);
	for(int i = 0; i < nb; i++){
		Bndl b = ex::genData(r);
		GenOpt o;
		o.depth = 1;
		for(auto &m : b.m) while(r.chance(1, 4)) m.v.insert(m.v.begin() + r.below(m.v.size() + 1), genVal(r, o));
		p.op("b", {}, enc(b));
	}
	int n = r.range(4, tier ? 24 : 14);
	p.op("e", genTape(r, 20, 80));
	for(int i = 0; i < n; i++) switch(r.below(9)){
	case 0: case 1: p.op("e", genTape(r, 20, r.chance(1, 5) ? 200 : 80)); break;
	case 2: case 3: case 4: p.op("run", {(int64_t)r.below(4), (int64_t)r.below(nb)}); break;
	case 5: p.op("copy", {(int64_t)r.below(4), (int64_t)r.below(nb), (int64_t)r.below(2)}); break;
	case 6: p.op("fmt", {(int64_t)r.below(4)}); break;
	case 7: {
		if(r.chance(1, 2)){ p.op("junk", {}, r.pick(SCRAPS)); break; }
		auto t = genTape(r, 20, 60);
		t.insert(t.begin(), (int64_t)(r.next() >> 1));
		p.op("cut", t);
		break;
	}
	case 8: p.op("drop", {(int64_t)r.below(4)}); break;
	}
}
void run16(const Plan &p, Ctx &c)
{
	std::vector<std::string> bs;
	std::vector<X16> xs;
	int again = 0;
	auto X = [&](int64_t k) -> X16 * { return xs.empty() ? nullptr : &xs[(uint64_t)k % xs.size()]; };
	auto once = [&](X16 &x, t_osc_expr *f, int64_t k, const char *how){
		if(bs.empty()) return;
		int bi = (uint64_t)k % bs.size();
		Outcome o = evalAll(f, bs[bi], x.src);
		c.log(show(o));
		auto it = x.seen.find(bi);
		if(it == x.seen.end()){ x.seen[bi] = o; return; }
		again++;
		if(!same(it->second, o)) failv("differs", "%s: %s first gave %s, %s gives %s", esc(x.src).c_str(), "the same bundle", show(it->second).c_str(), how, show(o).c_str());
		if(o.ret) probe("failing program evaluated again"); else probe("program evaluated again");
	};
	for(size_t i = 0; i < p.ops.size(); i++){
		auto &o = p.ops[i];
		c.at(i, o);
		if(o.k == "b"){
			Bndl nb;
			std::string why;
			if(dec(o.s, nb, why) && bs.size() < 4) bs.push_back(o.s);
		}else if(o.k == "e"){
			if(o.a.empty()) continue;
			std::vector<int64_t> tp(o.a.begin() + 1, o.a.end());
			ex::Tape t(tp);
			ex::GenCfg g;
			g.broad = true;
			X16 x;
			auto prog = ex::program(t, g);
			x.src = ex::print(prog, (uint64_t)o.a[0]);
			c.log(x.src);
			x.f = parse(c, x.src, false);
			if(!x.f){ probe("program rejected"); continue; }
			x.fmt = fmtOf(x.f);
			std::string want = ex::formatted(prog, litText);
			if(x.fmt != want) failv("form", "%s formats as %s, expected %s", esc(x.src).c_str(), esc(x.fmt).c_str(), esc(want).c_str());
			if(xs.size() < 4) xs.push_back(x);
			else{ freeAll(xs[i % 4].f); xs[i % 4] = x; }
		}else if(o.k == "run"){
			if(X16 *x = X(o.A(0))) once(*x, x->f, o.A(1), "evaluating it again");
		}else if(o.k == "copy"){
			X16 *x = X(o.A(0));
			if(!x) continue;
			t_osc_expr *cp = nullptr;
			if(o.A(2) || osc_expr_next(x->f)) osc_expr_copyAllLinked(&cp, x->f);
			else osc_expr_copy(&cp, x->f);
			if(!cp) failv("copy", "no copy of %s", esc(x->src).c_str());
			std::string f = fmtOf(cp);
			if(f != x->fmt) failv("copyfmt", "%s formats as %s, its copy as %s", esc(x->src).c_str(), esc(x->fmt).c_str(), esc(f).c_str());
			once(*x, cp, o.A(1), "evaluating a copy");
			freeAll(cp);
			if(fmtOf(x->f) != x->fmt) failv("fmt", "%s formats differently once a copy was freed", esc(x->src).c_str());
		}else if(o.k == "fmt"){
			X16 *x = X(o.A(0));
			if(!x) continue;
			std::string f = fmtOf(x->f);
			c.log(f);
			if(f != x->fmt) failv("fmt", "%s formats as %s, and later as %s", esc(x->src).c_str(), esc(x->fmt).c_str(), esc(f).c_str());
		}else if(o.k == "junk" || o.k == "cut"){
			std::string s = o.s;
			if(o.k == "cut"){
				if(o.a.size() < 2) continue;
				std::vector<int64_t> tp(o.a.begin() + 2, o.a.end());
				ex::Tape t(tp);
				ex::GenCfg g;
				s = ex::print(ex::program(t, g), (uint64_t)o.a[1]);
				s = s.substr(0, (uint64_t)o.a[0] % (s.size() + 1));
			}
			c.log(s);
			t_osc_expr *f = parse(c, s, false);
			probe(f ? "text fragment accepted" : "text fragment rejected");
			c.logf("%d", f != nullptr);
			freeAll(f);
		}else if(o.k == "drop"){
			if(xs.size() < 2) continue;
			size_t k = (uint64_t)o.A(0) % xs.size();
			freeAll(xs[k].f);
			xs.erase(xs.begin() + k);
		}
		stateHash(c.h);
	}
	for(auto &x : xs) freeAll(x.f);
	if(again) c.nontrivial();
}
Reg r16(Scenario{"L16", gen16, run16, 20000, 1500000,
	"some program was evaluated at least twice on copies of one bundle, with other work in between",
	"osc_expr.c and its parser and scanner, osc_expr_builtins, osc_strfmt.c, and the bundle, message and atom modules they use, compiled from /repo",
	"the allocator (osc_set_mem) is simulated: guarded blocks, seeded contents and reuse",
	"compile(), the clock and random functions are left out; text the scanner copies to standard output is left out"});
}
