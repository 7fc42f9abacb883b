#include "expr.h"
#include <cmath>
#include <climits>
#include <algorithm>
using namespace om;
namespace ex {
// ------------------------------------------------------------------ building blocks
static NP lit(const Val &v, const std::string &tok) { auto n = std::make_shared<Node>(); n->k = LIT; n->v = v; n->tok = tok; return n; }
static std::string quoteTok(const std::string &s)
{
	std::string r = "\"";
	for(char c : s){ if(c == '"') r += '\\'; r += c; }
	return r + "\"";
}
static NP str(const std::string &s) { return lit(Val::S(s), quoteTok(s)); }
static NP num(int64_t v) { return lit(Val::I('i', v), sim::sprintf_("%" PRId64, v)); }
static NP addr(const std::string &s) { auto n = std::make_shared<Node>(); n->k = ADDR; n->s = s; return n; }
static NP call(const std::string &f, std::vector<NP> c, Sugar g = PREFIX) { auto n = std::make_shared<Node>(); n->k = CALL; n->s = f; n->c = std::move(c); n->g = g; return n; }
static const std::vector<std::string> ADDRS = {"/a", "/b", "/c", "/d", "/s", "/foo", "/bar/baz", "/bar", "/foo/x"};
static const std::vector<std::string> TARGETS = {"/f*", "/?", "/{a,b}", "/b*/baz", "/[a-c]"};   // odd but possible names of messages
static const std::vector<std::string> PATTERNS = {"/f*", "/?", "/{a,b}", "/b*/baz", "/[a-c]", "/*", "/*/?*"};
static const std::vector<std::string> WORDS = {"foo", "bar", "x1", "", "a b", "say \"hi\"", "1.5", "12", "/a", "/b", "é", "a,b", "(#)"};
// functions that can be kept as text, and what they are
static const std::vector<std::pair<std::string, NP>> &funTexts()
{
	static const std::vector<std::pair<std::string, NP>> t = []{
		auto w = [](const char *p){ NP n = lit(Val::S(p), p); n->g = WORD; return n; };
		auto f = [](std::vector<std::string> p, std::vector<NP> body){ auto n = std::make_shared<Node>(); n->k = LAMBDA; n->params = p; n->c = body; return n; };
		auto b = [](const char *op, NP x, NP y){ NP n = call(op, {x, y}, BIN); n->tok = op; return n; };
		std::vector<std::pair<std::string, NP>> r;
		r.push_back({"lambda([x], x + 1)", f({"x"}, {b("+", w("x"), num(1))})});
		r.push_back({"lambda([x], x * 3)", f({"x"}, {b("*", w("x"), num(3))})});
		r.push_back({"lambda([x, y], x - y)", f({"x", "y"}, {b("-", w("x"), w("y"))})});
		r.push_back({"lambda([x,y], [y, x])", f({"x", "y"}, {call("list", {w("y"), w("x")}, LISTL)})});
		r.push_back({"lambda([x], x * 2, x % 3)", f({"x"}, {b("*", w("x"), num(2)), b("%", w("x"), num(3))})});
		return r;
	}();
	return t;
}
static const std::vector<std::string> BARE = {"foo", "bar", "x1", "hello"};

struct Gen {
	Tape &t;
	const GenCfg &cfg;
	int budget = 40;
	std::vector<std::string> params;
	bool quoted = false;                 // inside the text of eval(): no further quoting
	Gen(Tape &x, const GenCfg &g) : t(x), cfg(g) {}
	bool deep(int d) { return d <= 0 || --budget < 0; }

	NP address() { return addr(t.pick(ADDRS)); }
	NP intLit()
	{
		static const std::vector<int64_t> odd = {100, 255, 256, 32767, 65536, 2147483647, 2147483646, 1000000007};
		int64_t v = t.chance(1, 12) ? t.pick(odd) : (int64_t)t.next(8);
		return num(v);
	}
	NP numLit()
	{
		switch(t.next(12)){
		default: return intLit();
		case 8: case 9: { static const std::vector<const char *> f = {"0.5", "1.25", "2.0", "3.75", "0.1", "1e3", "0.0", "1e-3", "123456.75", "1e300"}; const char *s = t.pick(f); return lit(Val::F('d', strtod(s, nullptr)), s); }
		case 10: { static const std::vector<std::pair<const char *, int64_t>> h = {{"0x10", 16}, {"0xff", 255}, {"0x0", 0}, {"0xffffffff", 4294967295ll}, {"0x80000000", 2147483648ll}}; auto &p = t.pick(h); return lit(Val::I('I', p.second), p.first); }
		case 11: { static const std::vector<char> c = {'a', 'Z', '0', ' ', '~'}; char x = t.pick(c); return lit(Val::I('c', x), std::string("'") + x + "'"); }
		}
	}
	NP boolLit() { bool b = t.next(2); return lit(Val::Tag(b ? 'T' : 'F'), b ? "true" : "false"); }
	NP nilLit() { return lit(Val::Tag('N'), "nil"); }
	NP strLit()
	{
		if(t.chance(1, 6)){ auto &w = t.pick(BARE); NP n = lit(Val::S(w), w); n->g = WORD; return n; }
		const std::string &w = t.pick(WORDS);
		return str(quoted && w.find('"') != w.npos ? "hi" : w);
	}
	NP param()
	{
		const std::string &p = t.pick(params);
		NP n = lit(Val::S(p), p);
		n->g = WORD;
		return n;
	}
	NP leaf()
	{
		if(!params.empty() && t.chance(3, 5)) return param();
		return t.chance(1, 2) ? address() : numLit();
	}
	NP bin(const char *op, NP a, NP b)
	{
		NP n = call(!strcmp(op, "^") ? "pow" : op, {a, b}, BIN);
		n->tok = op;
		return n;
	}
	NP lambda(int nparams, int d, bool body2)
	{
		static const std::vector<std::string> P = {"p", "q", "r"};
		auto n = std::make_shared<Node>();
		n->k = LAMBDA;
		auto save = params;
		for(int i = 0; i < nparams; i++){
			n->params.push_back(P[i]);
			if(std::find(params.begin(), params.end(), P[i]) == params.end()) params.push_back(P[i]);
		}
		if(body2) n->c.push_back(stmt(d - 1));
		n->c.push_back(numeric(d - 1));
		params = save;
		return n;
	}
	NP fname(int nargs)
	{
		static const std::vector<const char *> f1 = {"abs", "floor", "sqrt", "sign", "plus1", "identity", "not", "length", "sum", "first", "float64", "int32", "string"};
		static const std::vector<const char *> f2 = {"add", "sub", "mul", "div", "+", "*", "-", "mod", "list", "max", "lt", "pow", "eq", "atan2", "interleave", "sum"};
		static const std::vector<const char *> f3 = {"list", "interleave", "clip", "strcmp"};
		return str(nargs == 1 ? t.pick(f1) : nargs == 2 ? t.pick(f2) : t.pick(f3));
	}
	NP func(int nargs, int d)
	{
		if(nargs < 3 && !quoted && t.chance(1, 12)) return call("identity", {textFun(nargs)});
		return t.next(2) ? lambda(nargs, d, t.chance(1, 5)) : fname(nargs);
	}
	NP textFun(size_t nargs)
	{
		std::vector<std::string> c;
		for(auto &x : funTexts()) if(x.second->params.size() == nargs) c.push_back(x.first);
		return str(t.pick(c));
	}
	// functions handed to functions
	NP handed(int d)
	{
		auto word = [](const char *p){ NP n = lit(Val::S(p), p); n->g = WORD; return n; };
		auto fn = [&](int n){ auto save = params; params.clear(); NP f = lambda(n, d - 2, t.chance(1, 5)); params = save; return f; };
		auto out = std::make_shared<Node>();
		out->k = LAMBDA;
		out->params = {"f", "x"};
		int two = t.next(2);
		NP use;
		auto ap = [&](NP a){ std::vector<NP> c = {word("f"), a}; if(two) c.push_back(t.next(2) ? word("x") : numLit()); return call("apply", c); };
		switch(t.next(5)){
		default: use = ap(word("x")); break;
		case 1: { std::vector<NP> c = {word("f"), call("list", {word("x"), numLit(), numLit()}, LISTL)}; if(two) c.push_back(call("list", {numLit(), word("x")}, LISTL)); use = call("map", c); break; }
		case 2: use = two ? call(t.next(2) ? "lreduce" : "rreduce", {word("f"), call("list", {numLit(), word("x"), numLit()}, LISTL)}) : ap(ap(word("x"))); break;
		case 3: { NP a = ap(word("x")); use = call("list", {a, ap(numLit())}, LISTL); break; }
		case 4: {
			auto in = std::make_shared<Node>();
			in->k = LAMBDA;
			in->params = {"g"};
			std::vector<NP> c = {word("g"), word("x")};
			if(two) c.push_back(numLit());
			in->c = {call("apply", c)};
			use = call("apply", {in, word("f")}, t.next(2) ? LAMAPP : PREFIX);
			break;
		}
		}
		out->c = {use};
		NP f = fn(1 + two);
		return call("apply", {out, f, t.next(2) ? numLit() : numeric(d - 2)}, t.next(2) ? LAMAPP : PREFIX);
	}
	// functions kept as text in the bundle
	NP kept(int d)
	{
		int n = 1 + t.next(2);
		NP a = t.next(2) ? addr("/s") : address();
		std::vector<NP> c = {a};
		for(int i = 0; i < n; i++) c.push_back(numeric(d - 2));
		NP use = t.chance(1, 4) ? call("map", c) : call("apply", c, t.next(2) ? ADDRAPP : PREFIX);
		if(!cfg.side || quoted || t.chance(1, 3)) return use;
		return call("progn", {call("assign", {a, textFun(n)}, ASG), use});
	}
	NP list(int d)
	{
		std::vector<NP> c;
		int n = 1 + t.next(4);
		if(t.chance(1, 15)) n = 0;
		for(int i = 0; i < n; i++) c.push_back(t.chance(1, 6) ? any(d - 1) : numeric(d - 2));
		return call("list", c, LISTL);
	}
	NP index(int d) { return t.chance(1, 6) ? numeric(d - 1) : num(t.next(4)); }
	NP numeric(int d)
	{
		static const std::vector<const char *> ar = {"+", "-", "*", "/", "%", "^"};
		if(deep(d)) return leaf();
		switch(t.next(32)){
		case 27: return closure(d);
		case 28: case 29: return typed(d);
		case 30: { NP f = func(3, d - 1); NP a = numeric(d - 1), b = numeric(d - 1); return call("map", {f, a, b, numeric(d - 1)}); }
		case 31: switch(t.next(6)){ default: return call("getaddresses", {bundleish(d - 1)}); case 2: case 3: return call("emptybundle", {t.next(5) ? bundleish(d - 1) : numeric(d - 1)}); case 4: return call("value", {str(t.pick(PATTERNS))}); case 5: return tokens(); }
		case 0: case 1: return leaf();
		case 2: case 3: case 4: case 5: case 6: { const char *op = t.pick(ar); NP a = numeric(d - 1); return bin(op, a, numeric(d - 1)); }
		case 7: case 8: { 
			static const std::vector<const char *> f = {"sum", "length", "first", "last", "rest", "butlast", "reverse", "mean", "avg", "rev", "product", "cumsum", "min", "max", "range", "extrema", "median", "sort", "sortidx", "nonzero", "sign", "abs", "floor", "ceil", "round", "sqrt", "sin", "exp", "log", "plus1", "minus1", "not", "l2norm", "identity", "mtof", "ftom", "ilogb", "cbrt", "tanh", "acos"};
			return call(t.pick(f), {numeric(d - 1)}); }
		case 9: return list(d);
		case 10: { NP x = numeric(d - 1); NP i = index(d - 1); std::vector<NP> c = {x, i}; if(t.chance(1, 4)) c.push_back(index(d - 1)); return call("nth", c, NTH); }
		case 11: { NP a = t.chance(1, 4) ? numeric(d - 1) : t.chance(1, 5) ? call("-", {num(0), numLit()}, NEG) : boolean(d - 1), b = numeric(d - 1); return call("if", {a, b, numeric(d - 1)}, t.next(2) ? TERN : PREFIX); }
		case 12: return call("-", {num(0), numeric(d - 1)}, NEG);
		case 13: {
			static const std::vector<const char *> f = {"add", "sub", "mul", "div", "mod", "pow", "atan2", "fmod", "hypot", "dot", "nfill", "interleave", "list", "prog2", "progn", "prog1", "nth", "aseq", "bitand", "bitor", "min", "nextafter", "remainder"};
			const char *n = t.pick(f);
			if(!strcmp(n, "nfill")) return call(n, {num(t.next(5)), numeric(d - 1)});
			if(!strcmp(n, "aseq")){ NP a = num(t.next(8)); return call(n, {a, num(t.next(8))}); }
			if(!strcmp(n, "bitand") || !strcmp(n, "bitor")){ static const std::vector<const char *> ty = {"identity", "int8", "uint8", "int16", "uint16", "uint32", "int64", "uint64"}; NP a = num(t.next(64)), b = num(t.next(300)); const char *fa = t.pick(ty), *fb = t.pick(ty); if(strcmp(fa, "identity")) a = call(fa, {a}); if(strcmp(fb, "identity")) b = call(fb, {strchr(fb, '8') ? num(b->v.i % 120) : b}); return call(n, {a, t.chance(1, 10) ? numeric(d - 1) : b}); }
			if(!strcmp(n, "min")) return call(n, {numeric(d - 1)});
			NP a = numeric(d - 1);
			return call(n, {a, numeric(d - 1)});
		}
		case 14: { std::vector<NP> c = {func(1, d - 1)}; c.push_back(numeric(d - 1)); return call("map", c); }
		case 15: { NP f = func(2, d - 1); NP a = numeric(d - 1); return call("map", {f, a, numeric(d - 1)}); }
		case 16: { NP f = func(2, d - 1); std::vector<NP> c = {f, numeric(d - 1)}; if(t.next(2)) c.push_back(numeric(d - 2)); return call(t.next(2) ? "lreduce" : "rreduce", c); }
		case 17: { int n = 1 + t.next(2); NP f = func(n, d - 1); std::vector<NP> c = {f}; for(int i = 0; i < n; i++) c.push_back(numeric(d - 1)); return call("apply", c, f->k == LAMBDA && t.next(2) ? LAMAPP : PREFIX); }
		case 18: { NP a = address(); NP x = numeric(d - 1); return nullco(a, x); }
		case 19: return cfg.side ? assignish(d) : leaf();
		case 20: { static const std::vector<const char *> f = {"clip", "scale", "aseq", "list", "interleave"}; const char *n = t.pick(f);
			if(!strcmp(n, "clip")){ NP a = numeric(d - 1), b = numLit(); return call(n, {a, b, numLit()}); }
			if(!strcmp(n, "scale")){ NP a = numeric(d - 1), b = numLit(), c = numLit(), e = numLit(); return call(n, {a, b, c, e, numLit()}); }
			if(!strcmp(n, "aseq")){ NP a = num(t.next(8)), b = num(t.next(8)); NP s = numLit(); return call(n, {a, b, t.next(2) ? call("-", {num(0), s}, NEG) : s}); }
			NP a = numeric(d - 1), b = numeric(d - 2); return call(n, {a, b, numeric(d - 2)}); }
		case 21: { static const std::vector<const char *> f = {"int32", "float32", "float64", "int64", "uint8", "int8", "int16", "uint16", "uint32", "uint64", "bool", "typetags"}; return call(t.pick(f), {numeric(d - 1)}); }
		case 22: { static const std::vector<const char *> f = {"getmsgcount", "pi", "e", "twopi", "halfpi", "quarterpi", "oneoverpi", "twooverpi", "degtorad", "radtodeg", "lntwo", "lnten", "logtwoe", "logtene", "sqrttwo", "sqrthalf", "twelfth_root_of_2", "thirteenth_root_of_3"}; return call(t.pick(f), {}); }
		case 24: case 25: return text(d);
		case 26: return vec(d);
		default: return t.chance(1, 2) ? call("value", {addr("/s")}, t.next(2) ? BACKQ : PREFIX) : call("strlen", {string(d - 1)});
		}
	}
	// every pair of number types
	NP typedNum(int d)
	{
		static const std::vector<const char *> ty = {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "bool"};
		static const std::vector<std::pair<const char *, int64_t>> big = {{"0xffffffff", 4294967295ll}, {"0x80000000", 2147483648ll}, {"2147483647", 2147483647}, {"0x100000000", 4294967296ll}, {"0x7fffffffffffffff", INT64_MAX}, {"0xfffffffffffffff0", -16}};
		const char *f = t.pick(ty);
		NP x;
		if(strchr(f, '6') && t.chance(1, 3)){ auto &b = t.pick(big); x = lit(Val::I(strlen(b.first) > 10 && b.first[1] == 'x' ? 'H' : b.first[1] == 'x' ? 'I' : 'i', b.second), b.first); }
		else if(f[strlen(f) - 1] != '8' && *f != 'b' && t.chance(1, 3)) x = num(128 + t.next(t.chance(1, 2) ? 400 : 30000));   // more than a byte
		else x = num(t.chance(1, 4) ? 100 + t.next(27) : t.next(9));
		if(f[0] != 'u' && f[0] != 'b' && t.chance(1, 4)) x = call("-", {num(0), x}, NEG);
		return call(f, {t.chance(1, 6) ? numeric(d - 2) : x});
	}
	NP typed(int d)
	{
		static const std::vector<const char *> ar = {"+", "-", "*", "/", "%", "+", "-", "*", "/", "<", "<=", ">", ">=", "==", "!=", "&", "|"};
		const char *op = t.pick(ar);
		NP a = t.next(5) ? typedNum(d) : call("list", {typedNum(d), typedNum(d)}, LISTL);
		NP b = t.next(5) ? typedNum(d) : t.next(2) ? numeric(d - 2) : call("list", {typedNum(d), typedNum(d)}, LISTL);
		return bin(op, a, b);
	}
	// a function applied inside a function, its arguments named like its parameters
	NP closure(int d)
	{
		static const std::vector<std::string> P = {"p", "q", "r"};
		auto word = [](const std::string &p){ NP n = lit(Val::S(p), p); n->g = WORD; return n; };
		int np = 2 + t.next(2);
		auto save = params;
		auto in = std::make_shared<Node>(), out = std::make_shared<Node>();
		in->k = out->k = LAMBDA;
		for(int i = 0; i < np; i++){
			out->params.push_back(P[i]);
			if(std::find(params.begin(), params.end(), P[i]) == params.end()) params.push_back(P[i]);
		}
		int ni = 1 + t.next(np);
		for(int i = 0; i < ni; i++) in->params.push_back(P[(i + t.next(2)) % np]);
		for(size_t i = 1; i < in->params.size(); i++) for(size_t j = 0; j < i; j++) if(in->params[i] == in->params[j]){ in->params.resize(i); break; }
		if(cfg.side && t.chance(1, 4)){ NP a = address(); in->c.push_back(call("assign", {a, t.next(2) ? word(t.pick(params)) : numeric(d - 3)}, ASG)); }
		std::vector<NP> ls;
		for(auto &x : params) ls.push_back(word(x));
		in->c.push_back(t.next(2) ? call("list", ls, LISTL) : numeric(d - 2));
		std::vector<NP> ia = {in};
		for(size_t i = 0; i < in->params.size(); i++) ia.push_back(t.next(4) ? word(t.pick(params)) : numeric(d - 3));
		NP inner = call("apply", ia, t.next(2) ? LAMAPP : PREFIX);
		out->c.push_back(t.next(2) ? inner : call("list", {inner, word(t.pick(params))}, LISTL));
		params = save;
		std::vector<NP> oa = {out};
		for(int i = 0; i < np; i++) oa.push_back(t.next(2) ? numLit() : numeric(d - 2));
		return call("apply", oa, t.next(2) ? LAMAPP : PREFIX);
	}
	// text that is only split into tokens
	NP tokens()
	{
		static const std::vector<std::pair<const char *, Val>> T = {{"12", Val::I('i', 12)}, {"0", Val::I('i', 0)}, {"0.5", Val::F('d', 0.5)}, {"1e3", Val::F('d', 1000)}, {"0x10", Val::I('I', 16)}, {"/foo", Val::S("/foo")}, {"/a/b", Val::S("/a/b")}, {"foo", Val::S("foo")}, {"x1", Val::S("x1")},
			{"true", Val::Tag('T')}, {"false", Val::Tag('F')}, {"nil", Val::Tag('N')}, {"'a'", Val::I('c', 'a')}, {"lambda", Val::S("lambda")}};
		static const std::vector<const char *> O = {"+", "-", "*", "/", "%", "^", "(", ")", "[", "]", "[[", "]]", ",", "=", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "??", "??=", "++", "--", "+=", "-=", "*=", "/=", "%=", "^=", "!", "?", ":", "{", "}", ".", "&", "|"};
		int n = t.chance(1, 4) ? 55 + t.next(20) : t.chance(1, 6) ? 120 + t.next(15) : t.next(12);
		std::string s;
		std::vector<Val> v;
		uint64_t rot = t.next(1000);
		for(int i = 0; i < n; i++){
			uint64_t k = i < 6 ? t.next(100) : sim::mix64(rot + i) % 100;
			if(i) s += " ";
			if(k % 2){ auto &x = T[k / 2 % T.size()]; s += x.first; v.push_back(x.second); }
			else{ const char *x = O[k / 2 % O.size()]; s += x; v.push_back(Val::S(x)); }
		}
		NP r = call("tokenize", {str(s)});
		r->toks = v;
		r->hasToks = true;
		return r;
	}
	// functions of strings that give numbers
	NP text(int d)
	{
		switch(t.next(6)){
		default: { NP a = string(d - 1); std::vector<NP> c = {a, string(d - 1)}; if(t.chance(1, 3)) c.push_back(intLit()); return call("strcmp", c); }
		case 2: { NP a = str(t.pick(std::vector<std::string>{"a", "o", "oo", "/", "1", "", " "})); return call("strfind", {t.chance(1, 5) ? string(d - 1) : a, string(d - 1)}); }
		case 3: return call("strlen", {t.next(2) ? any(d - 1) : string(d - 1)});
		case 4: { static const std::vector<const char *> h = {"hton32", "ntoh32", "hton64", "ntoh64"}; const char *f = t.pick(h); return call(f, {t.next(2) ? cast(d - 1) : numeric(d - 1)}); }
		case 5: { std::vector<NP> pa, ad; int np = 1 + t.next(2), na = t.next(4); static const std::vector<std::string> PAT = {"/a", "/foo", "/*", "/?", "/f*/x", "/{a,foo}", "/[a-c]", "/foo/x", "/bar/baz/*", "/b*/baz"}; for(int i = 0; i < np; i++) pa.push_back(str(t.pick(PAT))); for(int i = 0; i < na; i++) ad.push_back(str(t.pick(ADDRS))); NP a = call("list", pa, LISTL); return call("match", {a, na ? call("list", ad, LISTL) : call("getaddresses", {})}); }
		}
	}
	NP cast(int d)
	{
		static const std::vector<const char *> ty = {"'d'", "'f'", "'i'", "'h'", "'c'", "'C'", "'u'", "'U'", "'I'", "'H'", "'s'"};
		auto ch = [&](){ const char *x = t.pick(ty); return lit(Val::I('c', x[1]), x); };
		std::vector<NP> c;
		int n = t.next(3);
		if(!n) return call("cast", {ch(), numeric(d - 1)});
		for(int i = 0; i <= n; i++) c.push_back(ch());
		NP l = call("list", c, LISTL);
		std::vector<NP> v;
		for(int i = 0; i <= n; i++) v.push_back(t.next(3) ? numLit() : boolLit());
		return call("cast", {l, call("list", v, LISTL)});
	}
	// vectors and matrices
	NP row(int n, int d)
	{
		std::vector<NP> c;
		for(int i = 0; i < n; i++) c.push_back(t.chance(1, 8) ? numeric(d - 2) : t.chance(1, 4) ? call("-", {num(0), numLit()}, NEG) : numLit());
		return call("list", c, LISTL);
	}
	NP vec(int d)
	{
		switch(t.next(5)){
		default: { NP a = row(3, d); NP b = row(t.chance(1, 10) ? 2 : 3, d); static const std::vector<const char *> ty = {"int8", "uint8", "int16", "uint16", "uint32", "int64", "uint64", "float32"}; if(t.next(2)){ const char *f = t.pick(ty); a = call(f, {a}); b = call(f, {b}); } return call("cross", {a, b}); }
		case 2: case 3: { int n = 1 + t.next(5); std::vector<NP> c; for(int i = 0; i < n; i++) c.push_back(row(t.chance(1, 20) ? n + 1 : n, d)); if(n > 1 && t.chance(1, 4)) c[n - 1] = c[0]; return call("det", c); }
		case 4: return cast(d);
		}
	}
	NP nullco(NP a, NP x) { return call("if", {call("bound", {a}), a, x}, NULLCO); }
	NP boolean(int d)
	{
		static const std::vector<const char *> cm = {"<", "<=", ">", ">=", "==", "!="};
		static const std::vector<const char *> cf = {"lt", "le", "gt", "ge", "eq", "ne"};
		if(deep(d)) return t.next(2) ? boolLit() : bin(t.pick(cm), leaf(), numLit());
		switch(t.next(14)){
		case 12: { NP a = time(); return bin(t.pick(cm), a, time()); }
		case 13: { NP a = bundleish(d - 1), b = t.next(3) ? bundleish(d - 1) : a; return bin(t.next(2) ? "==" : "!=", a, b); }
		case 0: case 1: case 2: { const char *op = t.pick(cm); NP a = numeric(d - 1); return bin(op, a, numeric(d - 1)); }
		case 3: { const char *op = t.next(2) ? "&&" : "||"; NP a = boolean(d - 1); return bin(op, a, boolean(d - 1)); }
		case 4: { const char *op = t.next(2) ? "&" : "|"; NP a = boolean(d - 1); return bin(op, a, t.chance(1, 4) ? numeric(d - 1) : boolean(d - 1)); }
		case 5: return call("!", {boolean(d - 1)}, NOT);
		case 6: case 7: { const char *f = t.next(2) ? "bound" : "exists"; switch(t.next(5)){ default: return call(f, {address()}); case 3: return call(f, {str(t.next(2) ? t.pick(PATTERNS) : t.pick(ADDRS))}); case 4: return call(f, {call("+", {str("/"), str(t.pick(ADDRS).substr(1))})}); } }
		case 8: { const char *op = t.pick(cm); NP a = string(d - 1); return bin(op, a, string(d - 1)); }
		case 9: { const char *f = t.pick(cf); NP a = numeric(d - 1); return call(f, {a, numeric(d - 1)}); }
		case 10: return call("emptybundle", {});
		default: return boolLit();
		}
	}
	NP string(int d)
	{
		if(deep(d)) return t.next(3) ? strLit() : addr("/s");
		switch(t.next(9)){
		default: return strLit();
		case 7: { NP s = string(d - 1); std::vector<NP> ix; int n = 1 + t.next(3); for(int i = 0; i < n; i++) ix.push_back(num(t.next(4))); return call("strchar", {call("list", ix, LISTL), s}); }
		case 8: if(t.next(2)) return call("readstring", {string(d - 1)}); return call("string", {t.next(2) ? numeric(d - 1) : boolean(d - 1)});
		case 2: return addr("/s");
		case 3: { NP a = string(d - 1); return bin("+", a, t.next(3) ? string(d - 1) : intLit()); }
		case 4: { NP s = t.chance(1, 5) ? any(d - 1) : str(t.next(2) ? "," : ""); NP a = t.chance(1, 4) ? any(d - 1) : string(d - 1); return call("join", {s, a, string(d - 1)}); }
		case 5: { NP a = boolean(d - 1), b = string(d - 1); return call("if", {a, b, string(d - 1)}, TERN); }
		case 6: { if(t.next(2)) return call("split", {str(t.pick(std::vector<std::string>{",", " ", "", "o", "/", "a,"})), string(d - 1)}); return call("getaddresses", {}); }
		}
	}
	NP any(int d)
	{
		switch(t.next(9)){
		default: return numeric(d);
		case 4: return boolean(d);
		case 5: return string(d);
		case 6: return nilLit();
		case 7: return cfg.broad ? broad(d) : t.next(2) ? odd(d) : numeric(d);
		case 8: return bundleish(d);
		}
	}
	NP time() { return t.next(3) ? address() : call("gettimetag", {}); }
	NP bundleish(int d)
	{
		static const std::vector<std::string> keys = {"/x", "/y", "/x/y"};
		if(deep(d) || !t.next(3)){
			NP a = address();
			return call("getbundlemember", {a, addr(t.pick(keys))}, DOT);
		}
		std::vector<NP> c;
		int n = t.next(3);
		for(int i = 0; i < n; i++){ c.push_back(str(t.pick(keys))); c.push_back(t.chance(1, 5) ? any(d - 1) : numeric(d - 1)); }
		return call("bundle", c, BUNDLEL);
	}
	NP assignish(int d)
	{
		static const std::vector<const char *> ops = {"+", "-", "*", "/", "%", "^"};
		switch(t.next(11)){
		case 9: { NP a = address(); return call("assign", {a, time()}, ASG); }
		case 10: { NP a = t.next(2) ? call("value", {addr("/s")}) : str(t.next(2) ? t.pick(TARGETS) : t.pick(ADDRS)); NP v = numeric(d - 1); return call("assign", {a, v}); }
		default: { NP a = address(); return call("assign", {a, any(d - 1)}, t.chance(1, 8) ? PREFIX : ASG); }
		case 3: { NP a = address(); const char *o = t.pick(ops); NP v = numeric(d - 1); NP n = call("assign", {a, call(!strcmp(o, "^") ? "pow" : o, {a, v}, BIN)}, OPASG); n->tok = std::string(o) + "="; return n; }
		case 4: { NP a = address(); bool inc = t.next(2); NP n = call("assign", {a, call(inc ? "plus1" : "minus1", {a})}, PREINC); n->tok = inc ? "++" : "--"; return n; }
		case 5: { NP a = address(); bool inc = t.next(2); NP n = call("prog1", {a, call("assign", {a, call(inc ? "plus1" : "minus1", {a})})}, POSTINC); n->tok = inc ? "++" : "--"; return n; }
		case 6: { NP a = address(); NP x = numeric(d - 1); return call("assign", {a, nullco(a, x)}, NULLAS); }
		case 7: {
			NP a = address();
			if(t.chance(1, 3)){
				std::vector<NP> s = {num(t.next(4)), num(t.next(5))};
				if(t.next(2)) s.push_back(num(1 + t.next(2)));
				NP v = numeric(d - 1);
				return call("assign_to_index", {a, call("aseq", s), v}, RNGASG);
			}
			NP i = index(d - 1);
			std::vector<NP> is = {i};
			while(t.chance(1, 3) && is.size() < 4) is.push_back(index(d - 1));
			NP ix = is.size() == 1 ? is[0] : call("list", is, LISTL);
			NP v = t.chance(1, 6) ? any(d - 1) : numeric(d - 1);
			return call("assign_to_index", {a, ix, v}, IDXASG);
		}
		case 8: { NP a = address(); NP k = addr(t.next(2) ? "/x" : "/y"); NP v = any(d - 1); return call("assigntobundlemember", {a, k, v}, DOTASG); }
		}
	}
	NP stmt(int d)
	{
		if(deep(d)){ NP a = address(); return call("assign", {a, leaf()}, ASG); }
		if(!cfg.broad && t.chance(1, 14)){ NP x = odd(d); if(t.next(2)) return exprTop(x); NP a = address(); return call("assign", {a, x}, ASG); }
		if(cfg.broad && t.chance(2, 5)){ NP x = broad(d); if(t.next(2)) return exprTop(x); NP a = address(); return call("assign", {a, x}, ASG); }
		switch(t.next(17)){
		case 15: return call("settimetag", {time()});
		case 16: return exprTop(t.next(3) ? typed(d) : tokens());
		default: return assignish(d);
		case 8: { std::vector<NP> c = {t.chance(1, 6) ? str(t.pick(ADDRS)) : address()}; while(c.size() < 4 && t.chance(1, 3)) c.push_back(address()); return call("delete", c); }
		case 9: { NP a = boolean(d - 1), b = stmt(d - 1); std::vector<NP> c = {a, b}; if(t.next(2)) c.push_back(stmt(d - 1)); return call("if", c); }
		case 10: { int n = 1 + t.next(3); std::vector<NP> c; for(int i = 0; i < n; i++) c.push_back(stmt(d - 1)); return call(n == 2 && t.next(2) ? "prog1" : "progn", c); }
		case 11: { NP a = call("value", {addr("/s")}); NP v = numeric(d - 1); return call("assign", {a, v}); }
		case 12: {
			if(quoted || !t.chance(1, 2)) return exprTop(any(d));
			Gen g2(t, cfg);
			g2.budget = 8;
			g2.quoted = true;
			std::vector<NP> s;
			int n = 1 + t.next(2);
			for(int i = 0; i < n; i++) s.push_back(t.chance(1, 8) ? call("assign", {addr(t.pick(ADDRS)), addr("/unbound")}, ASG) : g2.stmt(2));
			NP e = call("eval", {str(print(s, 0))});
			e->sub = s;
			return e;
		}
		case 13: return exprTop(any(d));
		case 14: return exprTop(vec(d));
		}
	}
	// the grammar wants an expression where a lone value will not do
	NP exprTop(NP n)
	{
		if(n->k == CALL) return n;
		if(n->k == ADDR){ NP p = call("progn", {n}, PROGN); return p; }
		if(n->k == LIT && n->v.t != 's' && t.next(2)){ NP p = call("progn", {n}, PROGN); return p; }
		return call("identity", {n});
	}
	// arguments that plain generation rarely lines up
	NP odd(int d)
	{
		switch(t.next(8)){
		case 6: return handed(d);
		case 7: return kept(d);
		case 4: {                         // members whose bundle or name is computed
			static const std::vector<std::string> keys = {"/x", "/y", "/x/y"};
			auto holder = [&]() -> NP {
				switch(t.next(5)){
				default: return address();
				case 1: case 2: { NP a = address(); return call("nth", {a, num(t.next(3))}, t.next(2) ? NTH : PREFIX); }
				case 3: return call("value", {t.next(2) ? address() : addr("/s")});
				case 4: return str(t.pick(ADDRS));
				}
			};
			auto name = [&]() -> NP {
				switch(t.next(5)){
				default: return addr(t.pick(keys));
				case 2: return str(t.pick(keys));
				case 3: return call("value", {t.next(2) ? str(t.pick(keys)) : addr("/s")});
				case 4: return t.next(2) ? addr("/s") : call("+", {str("/"), str(t.next(2) ? "x" : "y")});
				}
			};
			NP h = holder(), m = name();
			if(cfg.side && t.next(2)) return call("assigntobundlemember", {h, m, t.next(5) ? numeric(d - 1) : any(d - 1)});
			return call("getbundlemember", {h, m});
		}
		case 5:                           // questions about what is not quite an address, and counts below nothing
			switch(t.next(4)){
			case 0: { const char *f = t.next(2) ? "bound" : "exists"; NP a = address(); return call(f, {call("getbundlemember", {a, addr(t.next(3) ? "/x" : "/y")}, DOT)}); }
			case 1: {
				std::vector<NP> c;
				for(int n = (int)t.next(4); n; n--) c.push_back(t.next(5) ? str(t.pick(ADDRS)) : numLit());
				return call(t.next(2) ? "bound" : "exists", {call("list", c, LISTL)});
			}
			case 2: return call("nfill", {call("-", {num(0), numLit()}, NEG), numeric(d - 1)});
			default: {
				if(!cfg.side) return call("gettimetag", {});
				// the time of a bundle nothing is left in
				auto l = std::make_shared<Node>();
				l->k = LAMBDA;
				l->params = {"p"};
				NP p = lit(Val::S("p"), "p");
				p->g = WORD;
				std::vector<NP> all;
				for(auto &x : ADDRS) all.push_back(addr(x));
				l->c = {call("delete", all), call("settimetag", {p})};
				return call("apply", {l, address()}, LAMAPP);
			}
			}
		case 0: {                         // numbers and strings in one list
			std::vector<NP> c;
			for(int n = 2 + (int)t.next(4); n; n--) c.push_back(t.next(2) ? strLit() : t.next(2) ? numLit() : bin("-", num(0), numLit()));
			static const std::vector<const char *> s = {"sort", "sortidx", "sortidx", "sort", "nonzero", "reverse", "typetags", "cumsum", "min", "max"};
			return call(t.pick(s), {call("list", c, LISTL)});
		}
		case 1: case 3: {                         // text that repeats itself, and texts of many pieces
			std::string s;
			switch(t.next(4)){
			case 0: { std::string u = t.pick(std::vector<std::string>{"a", "ab", "aba", "/x"}); for(int n = 2 + (int)t.next(6); n; n--) s += u; return call("strfind", {str(u + (t.next(2) ? u : u.substr(0, 1))), str(s)}); }
			case 1: for(int n = (int)t.next(140); n; n--) s += t.next(5) ? "w," : "xyz,"; return call("split", {str(","), str(s)});
			case 2: {
				std::vector<NP> c = {str(t.next(2) ? "-" : "")};
				for(int n = 1 + (int)t.next(4); n; n--) c.push_back(call(t.next(2) ? "uint8" : "int8", {num(32 + t.next(90))}));
				return call("join", c);
			}
			default: {
				NP none = t.next(2) ? call("nfill", {num(0), num(1)}) : call("rest", {num(1)});
				NP a = t.next(2) ? none : boolean(d - 1), b = a == none ? boolean(d - 1) : none;
				return bin(t.next(2) ? "&&" : "||", a, b);
			}
			}
		}
		case 2: {                         // sequences about the ends of the 32 bit range
			auto far = [&](bool neg){ NP a = call("int64", {num(2147483640)}); NP b = bin("+", a, num(t.next(14))); if(!neg) return b; return bin("-", num(0), b); };
			bool neg = t.next(2);
			NP a = far(neg), b = far(neg);
			return call("aseq", {a, b});
		}
		}
		return leaf();
	}
	// anything the function table offers, with any arguments
	NP broad(int d)
	{
		static const std::vector<std::pair<const char *, int>> f = {
			{"strcmp", 2}, {"strcmp", 3}, {"strfind", 2}, {"strchar", 2}, {"split", 2}, {"join", 3}, {"strlen", 1}, {"string", 1}, {"blob", 1}, {"cast", 2}, {"typetags", 1}, {"hton32", 1}, {"ntoh32", 1}, {"hton64", 1}, {"ntoh64", 1},
			{"readstring", 1}, {"floattotime", 1}, {"match", 2}, {"quickhull", 1}, {"quickhull", 2}, {"bundle", 2}, {"bundle", 4}, {"cross", 2}, {"det", 1}, {"det", 2}, {"det", 3}, {"l2norm", 1}, {"dot", 2}, {"jn", 2}, {"yn", 2}, {"tokenize", 1},
			{"gamma", 1}, {"lgamma", 1}, {"erf", 1}, {"j0", 1}, {"y1", 1}, {"mtof", 2}, {"ftom", 2}, {"nfill", 2}, {"aseq", 2}, {"aseq", 3}, {"scale", 5}, {"clip", 3}, {"sort", 2}, {"cumsum", 2}, {"product", 2}, {"length", 3}, {"interleave", 3},
			{"bitand", 2}, {"bitor", 2}, {"gettimetag", 0}, {"settimetag", 1}, {"getaddresses", 1}, {"emptybundle", 1}, {"eval", 1}, {"getbundlemember", 2}, {"assigntobundlemember", 3}, {"value", 1}, {"assign", 2}, {"assign_to_index", 3}, {"delete", 1}, {"exists", 1}, {"bound", 1},
			{"reverse", 0}, {"sort", 1}, {"median", 1}, {"float32", 1}, {"uint64", 1}, {"bool", 1}, {"int8", 1}, {"phi", 0}, {"degtorad", 0}, {"if", 2}, {"not", 1}, {"&&", 2}, {"and", 2}, {"||", 2}, {"+", 2}, {"-", 2}, {"/", 2}, {"%", 2}, {"==", 2}, {"!=", 2}, {"<", 2}};
		static const std::vector<const char *> all = {"abs", "acos", "acosh", "add", "and", "andalso", "aseq", "asin", "asinh", "assign", "assign_to_index", "assigntobundlemember", "atan", "atan2", "atanh", "avg", "bitand", "bitor", "blob", "bool", "bound", "bundle", "butlast", "cast", "cbrt", "ceil", "char", "clip", "cos", "cosh", "cross", "cumsum", "degtorad", "delete", "det", "div", "dot", "e", "emptybundle", "eq", "erf", "erfc", "eval", "exists", "exp", "expm1", "extrema", "first", "float32", "float64", "floattotime", "floor", "fmod", "ftom", "gamma", "ge", "getaddresses", "getbundlemember", "getmsgcount", "gettimetag", "gt", "halfpi", "hton32", "hton64", "hypot", "identity", "if", "ilogb", "int16", "int32", "int64", "int8", "interleave", "j0", "j1", "jn", "join", "l2norm", "last", "le", "length", "lgamma", "list", "lnten", "lntwo", "log", "log10", "logb", "logtene", "logtwoe", "lreduce", "lt", "map", "match", "max", "mean", "median", "min", "minus1", "mod", "mtof", "mul", "ne", "nextafter", "nfill", "not", "nth", "ntoh32", "ntoh64", "oneoverpi", "or", "orelse", "phi", "pi", "plus1", "pow", "product", "prog1", "prog2", "progn", "quarterpi", "quickhull", "radtodeg", "range", "readstring", "remainder", "rest", "rev", "reverse", "round", "rreduce", "scale", "settimetag", "sign", "sin", "sinh", "sort", "split", "sqrt", "sqrthalf", "sqrttwo", "strcmp", "string", "strtotime", "sub", "sum", "tan", "tanh", "thirteenth_root_of_3", "tokenize", "twelfth_root_of_2", "twooverpi", "twopi", "typetags", "uint16", "uint32", "uint64", "uint8", "value", "y0", "y1", "yn"};
		if(t.chance(1, 6)) return odd(d);
		std::pair<const char *, int> p = t.pick(f);
		if(t.chance(1, 3)) p = {t.pick(all), (int)t.next(5)};
		std::vector<NP> c;
		for(int i = 0; i < p.second; i++) c.push_back(any(d - 1));
		if(!strcmp(p.first, "nfill") || !strcmp(p.first, "aseq")) for(size_t i = 0; i < c.size(); i++) if(!(i == 1 && p.first[0] == 'n')) c[i] = num(t.next(12));   // bounded lengths
		static const std::string ops = " && || + - / % == != < and ";
		std::string name = p.first;
		static const std::map<std::string, const char *> opn = {{"&&", "&&"}, {"||", "||"}, {"+", "+"}, {"-", "-"}, {"/", "/"}, {"%", "%"}, {"==", "=="}, {"!=", "!="}, {"<", "<"}};
		if(opn.count(name)) return bin(name.c_str(), c[0], c[1]);
		return call(name, c);
	}
};
std::vector<NP> program(Tape &t, const GenCfg &g)
{
	int n = 1 + (t.chance(1, 4) ? t.next(3) : 0);
	std::vector<NP> r;
	for(int i = 0; i < n; i++){
		Gen G(t, g);
		NP e = G.stmt(4);
		if(e->k != CALL) e = G.exprTop(e);
		r.push_back(e);
	}
	return r;
}

// ------------------------------------------------------------------ printing
// operators have other names in prefix form
static std::string word(const std::string &s)
{
	static const std::map<std::string, const char *> m = {{"+", "add"}, {"-", "sub"}, {"*", "mul"}, {"/", "div"}, {"%", "mod"}, {"!", "not"}};
	auto w = m.find(s);
	return w == m.end() ? s : w->second;
}
struct Printer {
	std::vector<std::string> tok;
	uint64_t st;
	explicit Printer(uint64_t s) : st(s) {}
	uint64_t rnd(uint64_t n) { if(!st) return 0; st = sim::mix64(st) | 1; return (st >> 11) % n; }
	void o(const std::string &s) { tok.push_back(s); }
	static int prec(const std::string &op)
	{
		if(op == "|" || op == "||") return 3;
		if(op == "&" || op == "&&") return 4;
		if(op == "==" || op == "!=") return 5;
		if(op == "<" || op == ">" || op == "<=" || op == ">=") return 6;
		if(op == "+" || op == "-") return 7;
		if(op == "*" || op == "/" || op == "%") return 8;
		return 9;   // ^
	}
	static int level(const NP &n)
	{
		if(n->k != CALL) return 100;
		switch(n->g){
		case BIN: return prec(n->tok);
		case NEG: case NOT: return 10;
		case NTH: return 11;
		case PREFIX: case LISTL: case BUNDLEL: case BACKQ: case QUOTE: return 20;
		case LAMAPP: return 20;
		default: return 0;
		}
	}
	void args(const std::vector<NP> &c, size_t from = 0)
	{
		for(size_t i = from; i < c.size(); i++){
			if(i > from) o(",");
			arg(c[i]);
		}
	}
	// in a place where any argument fits
	void arg(const NP &n)
	{
		bool par = n->k == CALL && n->g != PROGN && rnd(6) == 5;
		if(par) o("(");
		node(n);
		if(par) o(")");
	}
	void operand(const NP &n, int min, bool strict)
	{
		int l = level(n);
		bool par = strict ? l <= min : l < min;
		if(n->k == LAMBDA) par = false;
		if(n->k != CALL || n->g == PROGN) par = false;
		else if(!par && rnd(8) == 7) par = true;
		if(par) o("(");
		node(n);
		if(par) o(")");
	}
	void node(const NP &n)
	{
		switch(n->k){
		case LIT: o(n->tok); return;
		case ADDR: o(n->s); return;
		case LAMBDA:
			o("lambda"); o("(");
			if(n->params.size() == 1 && rnd(2)) o(n->params[0]);
			else{
				o("[");
				for(size_t i = 0; i < n->params.size(); i++){ if(i) o(","); o(n->params[i]); }
				o("]");
			}
			o(",");
			args(n->c);
			o(")");
			return;
		case CALL: break;
		}
		const auto &c = n->c;
		switch(n->g){
		case PREFIX:
			{
				o(word(n->s));
				o("("); args(c); o(")");
				return;
			}
		case BIN:
			{ int p = prec(n->tok); operand(c[0], p, false); o(n->tok); operand(c[1], p, true); return; }
		case NEG: o("-"); operand(c[1], 10, true); return;
		case NOT: o("!"); operand(c[0], 10, true); return;
		case TERN: operand(c[0], 3, false); o("?"); operand(c[1], 3, false); o(":"); operand(c[2], 3, false); return;
		case ASG: o(c[0]->s); o("="); arg(c[1]); return;
		case OPASG: o(c[0]->s); o(n->tok); arg(c[1]->c[1]); return;
		case PREINC: o(n->tok); o(c[0]->s); return;
		case POSTINC: o(c[0]->s); o(n->tok); return;
		case NULLCO: o(c[1]->s); o("??"); operand(c[2], 19, true); return;
		case NULLAS: o(c[0]->s); o("??="); operand(c[1]->c[2], 19, true); return;
		case LISTL: o("["); args(c); o("]"); return;
		case NTH: operand(c[0], 11, false); o("[["); args(c, 1); o("]]"); return;
		case IDXASG: o(c[0]->s); o("[["); if(c[1]->k == CALL && c[1]->g == LISTL && c[1]->c.size() > 1) args(c[1]->c); else args({c[1]}); o("]]"); o("="); arg(c[2]); return;
		case RNGASG: o(c[0]->s); o("[["); node(c[1]->c[0]); o(":"); if(c[1]->c.size() > 2){ node(c[1]->c[2]); o(":"); } node(c[1]->c[1]); o("]]"); o("="); arg(c[2]); return;
		case DOT: o(c[0]->s); o("."); o(c[1]->s); return;
		case DOTASG: o(c[0]->s); o("."); o(c[1]->s); o("="); arg(c[2]); return;
		case LAMAPP: o("("); node(c[0]); o(","); args(c, 1); o(")"); return;
		case ADDRAPP: o(c[0]->s); o("("); args(c, 1); o(")"); return;
		case BACKQ: o("`"); node(c[0]); o("`"); return;
		case BUNDLEL: o("{"); for(size_t i = 0; i + 1 < c.size(); i += 2){ if(i) o(","); o(c[i]->v.s); o(":"); arg(c[i + 1]); } o("}"); return;
		case QUOTE: o("quote(" + c[0]->v.s + ")"); return;
		case PROGN: node(c[0]); return;
		default: o("?"); return;
		}
	}
	std::string join()
	{
		static const std::string glue = "(),+*^%=<>&|?:!";
		std::string r;
		for(size_t i = 0; i < tok.size(); i++){
			if(i){
				const std::string &a = tok[i - 1], &b = tok[i];
				auto soft = [](const std::string &x){ return x.find_first_not_of(glue) == std::string::npos; };
				auto paren = [](const std::string &x){ return x == "(" || x == ")" || x == ","; };
				// two tokens may touch if exactly one of them is an operator, or one is a parenthesis or comma
				bool can = paren(a) || paren(b) || (soft(a) != soft(b));
				if(a == "/" || b == "/" || a == "-" || b == "-" || a == "lambda") can = false;
				if((a == "(" || a == ",") && (b == "-" || b == "/")) can = false;
				bool glued = can && rnd(2);
				if(!glued){
					switch(rnd(24)){
					default: r += " "; break;
					case 20: r += "\n"; break;
					case 21: r += "\t "; break;
					case 22: r += " # a comment, with (things] in it\n"; break;
					case 23: r += "  "; break;
					}
				}
			}
			r += tok[i];
		}
		if(rnd(8) == 7) r += " ";
		return r;
	}
};
std::string print(const std::vector<NP> &p, uint64_t style)
{
	Printer P(style ? sim::mix64(style) | 1 : 0);
	for(size_t i = 0; i < p.size(); i++){
		if(i) P.o(",");
		P.node(p[i]);
	}
	return P.join();
}

static void fmt1(const NP &n, const std::function<std::string(const Val &)> &atom, std::string &o)
{
	switch(n->k){
	case LIT: o += atom(n->v) + " "; return;
	case ADDR: o += n->s + " "; return;
	case LAMBDA:
		o += "(lambda (";
		for(size_t i = 0; i < n->params.size(); i++) o += (i ? ", " : "") + n->params[i];
		o += ") ";
		for(auto &c : n->c){
			if(c->k == CALL && c->g != PROGN) fmt1(c, atom, o);
			else{ o += "(prog1 "; fmt1(c, atom, o); o.back() = ')'; o += " "; }
		}
		o += ") ";
		return;
	case CALL:
		if(n->g == PROGN){ fmt1(n->c[0], atom, o); return; }
		o += "(" + (n->g == NULLAS ? std::string("=") : n->g == PREFIX ? word(n->s) : n->s) + " ";
		for(auto &c : n->c) fmt1(c, atom, o);
		o.back() = ')';
		o += " ";
		return;
	}
}
std::string formatted(const std::vector<NP> &p, const std::function<std::string(const Val &)> &atom)
{
	std::string o;
	for(auto &n : p){
		if(n->k == CALL && n->g == PROGN){ o += "(progn "; fmt1(n, atom, o); o.back() = ')'; o += " "; }
		else fmt1(n, atom, o);
		o += "\n";
	}
	return o;
}
// ------------------------------------------------------------------ data
Bndl genData(sim::Rng &r)
{
	Bndl b;
	static const std::vector<std::string> strs = {funTexts()[0].first, funTexts()[3].first, "foo", "hello", "/a", "/b", "/d", "x1", "1.5", "", "/f*", "/?", "/{a,b}", "/foo"};
	static const std::vector<uint64_t> times = {1, 0x8000000000000000ull, 0xe000000012345678ull, 0xe000000012345679ull, 0xe000000100000000ull};
	bool bundley = r.chance(1, 4);
	auto val = [&](){
		switch(bundley && r.chance(1, 3) ? 15 : r.below(17)){
		case 16: return Val::T(r.pick(times));
		default: return Val::I('i', r.chance(1, 12) ? r.pick(std::vector<int64_t>{2147483647, -2147483648ll, 100000}) : r.range(-4, 9));
		case 6: case 7: return Val::F('f', r.pick(std::vector<double>{0.5, -1.25, 0, 3, 100.75}));
		case 8: case 9: return Val::F('d', r.pick(std::vector<double>{0.1, -2.5, 1e10, 0, 7}));
		case 10: return Val::S(r.pick(strs));
		case 11: return Val::Tag(r.chance(1, 2) ? 'T' : 'F');
		case 12: return Val::Tag(r.chance(1, 4) ? 'N' : 'T');
		case 13: return Val::I('h', r.chance(1, 6) ? r.pick(std::vector<int64_t>{4611686018427387904ll, -5000000000ll}) : r.range(-9, 9));
		case 14: { char t = r.pick(std::vector<char>{'c', 'C', 'u', 'U', 'I', 'H'}); return Val::I(t, r.range(0, 100)); }
		case 15: { Bndl s; if(r.chance(2, 3)){ Msg m("/x"); if(r.chance(5, 6)) m.v.push_back(Val::I('i', r.range(0, 9))); s.m.push_back(m); } if(r.chance(1, 2)){ Msg m("/y"); m.v.push_back(Val::F('f', 2.5)); m.v.push_back(Val::S("why")); s.m.push_back(m); } return Val::B(s); }
		}
	};
	if(r.chance(1, 4)) b.tt = r.pick(times);
	int dense = r.chance(1, 2) ? 10 : r.chance(1, 8) ? 1 : 7;
	for(auto &a : ADDRS){
		if(!r.chance(dense, 10)) continue;
		Msg m(a);
		int n = r.chance(1, 8) ? 0 : r.chance(1, 12) ? 5 + r.below(12) : 1 + r.below(4);
		if(a == "/s" && r.chance(3, 4)) m.v.push_back(Val::S(r.pick(strs)));
		else for(int i = 0; i < n; i++) m.v.push_back(val());
		b.m.push_back(m);
		if(r.chance(1, 12)){ Msg d(a); d.v.push_back(val()); b.m.push_back(d); }
	}
	for(size_t i = b.m.size(); i > 1; i--) std::swap(b.m[i - 1], b.m[r.below(i)]);
	return b;
}

// ------------------------------------------------------------------ reference interpreter
struct Unk { const char *why; };
struct Err { bool unbound = false; };
typedef std::vector<Val> L;
struct O { L v; bool null = false; O() {} O(L x) : v(std::move(x)) {} O(const Val &x) : v{x} {} };
static O none() { O o; o.null = true; return o; }
typedef std::map<std::string, L> Env;

static bool isFl(char t) { return t == 'f' || t == 'd'; }
static bool isNum(const Val &v) { return v.isInt() || strchr("fdTF", v.t); }
static double D(const Val &v)
{
	switch(v.t){
	case 'H': return (double)(uint64_t)v.i;
	case 'f': case 'd': return v.f;
	case 'T': return 1;
	case 'F': case 'N': return 0;
	case 's': return strtod(v.s.c_str(), nullptr);
	}
	if(v.isInt()) return (double)v.i;
	throw Unk{"number of a non-number"};
}
static int64_t toI(const Val &v, double lo, double hi)
{
	if(v.isInt()) return v.i;
	switch(v.t){
	case 'T': return 1;
	case 'F': case 'N': return 0;
	case 'f': case 'd': if(!(v.f > lo - 1 && v.f < hi)) throw Unk{"float outside the integer's range"}; return (int64_t)v.f;
	case 's': { errno = 0; long x = strtol(v.s.c_str(), nullptr, 10); if(errno || x > INT32_MAX || x < INT32_MIN) throw Unk{"long number in a string"}; return x; }
	}
	throw Unk{"integer of a non-number"};
}
static int32_t I32(const Val &v) { return (int32_t)toI(v, -2147483648.0, 2147483648.0); }
static bool Bo(const Val &v)
{
	switch(v.t){
	case 'T': return true;
	case 'F': case 'N': case 's': case 'b': case '.': case 't': return false;
	case 'f': case 'd': return v.f != 0;
	}
	return v.i != 0;
}
static Val mkI(char t, int64_t x) { return Val::I(t, x); }
static Val B_(bool b) { return Val::Tag(b ? 'T' : 'F'); }
static int rank(char t)
{
	static const char *order = "TFcCuUiIhHfds";
	const char *p = strchr(order, t);
	return p && t ? (int)(p - order) + 1 : 0;
}
static Val smallest(double x)
{
	if(x >= -2147483648. && x <= 2147483647.) return mkI('i', (int32_t)x);
	if(x >= 0 && x <= 4294967295.) return mkI('I', (uint32_t)x);
	if(x >= -9223372036854775808. && x < 9223372036854775808.) return mkI('h', (int64_t)x);
	if(x >= 0 && x < 18446744073709551616.) return mkI('H', (int64_t)(uint64_t)x);
	return Val::F('d', x);
}
static std::string strOf(const Val &v)
{
	if(v.t == 's') return v.s;
	if(v.t == 'c' || v.t == 'C'){ if(!v.i) throw Unk{"NUL in a string"}; return std::string("'") + (char)v.i + "'"; }
	if(v.isInt()) return v.t == 'H' ? sim::sprintf_("%" PRIu64, (uint64_t)v.i) : sim::sprintf_("%" PRId64, v.i);
	throw Unk{"string form"};
}
// as text, also of truth values and nil
static std::string strOf2(const Val &v)
{
	if(v.t == 'T') return "true";
	if(v.t == 'F') return "false";
	if(v.t == 'N') return "nil";
	return strOf(v);
}
// string() and cast to 's': a printable character stands for itself, any other for its code
static std::string strCast(const Val &v)
{
	if(v.t == 'c' || v.t == 'C') return v.i >= 32 && v.i < 127 ? std::string(1, (char)v.i) : sim::sprintf_("%d", (int)v.i);
	return strOf2(v);
}
static char intType(const Val &a, const Val &b)
{
	char t = rank(a.t) > rank(b.t) ? a.t : b.t;
	return t == 'T' || t == 'F' ? 'i' : t;
}
static uint64_t bits(const Val &v) { return v.isInt() ? (uint64_t)v.i : v.t == 'T'; }
static Val add(const Val &a, const Val &b)
{
	if(a.t == 's' && b.t == 's') return Val::S(a.s + b.s);
	if((a.t == 's' && isNum(b)) || (b.t == 's' && isNum(a))) return Val::S(strOf(a) + strOf(b));
	if(a.t == 't' || b.t == 't') throw Unk{"time arithmetic"};
	if(!isNum(a) || !isNum(b)) throw Err();
	if(isFl(a.t) || isFl(b.t)) return Val::F('d', D(a) + D(b));
	return mkI(intType(a, b), (int64_t)(bits(a) + bits(b)));
}
static Val sub(const Val &a, const Val &b)
{
	if(isNum(a) && isNum(b)){
		if(isFl(a.t) || isFl(b.t)) return Val::F('d', D(a) - D(b));
		char t = strchr("hH", a.t) || strchr("hH", b.t) ? 'h' : 'i';
		return mkI(t, (int64_t)(bits(a) - bits(b)));
	}
	if(a.t == 't' || b.t == 't') throw Unk{"time arithmetic"};
	throw Err();
}
static Val mul(const Val &a, const Val &b)
{
	if(!isNum(a) || !isNum(b)) throw Err();
	if(isFl(a.t) || isFl(b.t)) return Val::F('d', D(a) * D(b));
	return mkI(intType(a, b), (int64_t)(bits(a) * bits(b)));
}
static Val divide(const Val &a, const Val &b)
{
	if(!isNum(a) || !isNum(b)) throw Err();
	if(isFl(a.t) || isFl(b.t)){
		if(D(b) == 0) return Val::S("Inf");
		return Val::F('d', D(a) / D(b));
	}
	char t = intType(a, b);
	Val x = mkI(t, (int64_t)bits(a)), y = mkI(t, (int64_t)bits(b));
	if(y.i == 0) return Val::S("Inf");
	if(t == 'H') return mkI(t, (int64_t)((uint64_t)x.i / (uint64_t)y.i));
	if(y.i == -1) return mkI(t, (int64_t)(0 - (uint64_t)x.i));
	return mkI(t, x.i / y.i);
}
static Val modulo(const Val &a, const Val &b)
{
	if(!isNum(a) || !isNum(b)) throw Unk{"remainder of non-numbers"};
	double x = D(a), m = D(b);
	if(m == 0) return a;
	double r = x - fabs(m) * floor(x / fabs(m));
	if(isFl(a.t) || isFl(b.t)) return Val::F('d', r);
	if(!(r >= -2147483648.0 && r <= 2147483647.0)) throw Unk{"large remainder"};
	return mkI('i', (int32_t)r);
}
static Val cmpv(const std::string &op, const Val &a, const Val &b)
{
	auto by = [&](double x, double y){
		if(op == "<") return B_(x < y);
		if(op == "<=") return B_(x <= y);
		if(op == ">") return B_(x > y);
		if(op == ">=") return B_(x >= y);
		if(op == "==") return B_(x == y);
		return B_(x != y);
	};
	if(a.t == 's' && b.t == 's') return by(strcmp(a.s.c_str(), b.s.c_str()), 0);
	if(isNum(a) && isNum(b)) return by(D(a), D(b));
	bool order = op != "==" && op != "!=";
	if(order && ((a.t == 's' && isNum(b)) || (b.t == 's' && isNum(a)))) return by(a.t == 's', b.t == 's');
	if(a.t == 't' || b.t == 't'){
		if(a.t == 't' && b.t == 't'){
			uint64_t x = a.i, y = b.i;
			return by(x < y ? -1 : x > y, 0);
		}
		throw Unk{"time comparison"};
	}
	if(op == "==" && a.t == 'N' && b.t == 'N') return B_(true);
	if(op == "==" && (a.t == 'N' || b.t == 'N')) return B_(false);
	if(!order && a.t == '.' && b.t == '.') return B_((enc(*a.b) == enc(*b.b)) == (op == "=="));
	throw Err();
}
static Val op2(const std::string &f, const Val *a, const Val *b)
{
	if(f == "+" || f == "-" || f == "*" || f == "/"){
		if(!a) return *b;
		if(!b) return *a;
		if(f == "+") return add(*a, *b);
		if(f == "-") return sub(*a, *b);
		if(f == "*") return mul(*a, *b);
		return divide(*a, *b);
	}
	if(f == "%"){
		if(!a) return mkI('i', 0);
		if(!b) return *a;
		return modulo(*a, *b);
	}
	if(f == "&") return B_(a && b && Bo(*a) && Bo(*b));
	if(f == "|") return B_((a && Bo(*a)) || (b && Bo(*b)));
	if(!a || !b) return B_(false);
	return cmpv(f, *a, *b);
}
static const std::map<std::string, std::string> &alias()
{
	static const std::map<std::string, std::string> m = {{"add", "+"}, {"sub", "-"}, {"mul", "*"}, {"div", "/"}, {"mod", "%"}, {"lt", "<"}, {"le", "<="}, {"gt", ">"}, {"ge", ">="}, {"eq", "=="}, {"ne", "!="}, {"and", "&"}, {"or", "|"},
		{"andalso", "&&"}, {"orelse", "||"}, {"rev", "reverse"}, {"avg", "mean"}, {"not", "!"}, {"=", "assign"}, {"++", "plus1"}, {"--", "minus1"}};
	return m;
}
typedef double (*F1)(double);
typedef double (*F2)(double, double);
static const std::map<std::string, F1> M1 = {{"abs", fabs}, {"acos", acos}, {"asin", asin}, {"atan", atan}, {"ceil", ceil}, {"cos", cos}, {"cosh", cosh}, {"exp", exp}, {"floor", floor}, {"log", log}, {"log10", log10}, {"sin", sin}, {"sinh", sinh}, {"sqrt", sqrt}, {"tan", tan}, {"tanh", tanh}, {"erf", erf}, {"erfc", erfc}, {"gamma", tgamma}, {"j0", j0}, {"j1", j1}, {"lgamma", lgamma}, {"y0", y0}, {"y1", y1}, {"acosh", acosh}, {"asinh", asinh}, {"atanh", atanh}, {"cbrt", cbrt}, {"expm1", expm1}, {"logb", logb}, {"round", round}};
static const std::map<std::string, F2> M2 = {{"atan2", atan2}, {"fmod", fmod}, {"pow", pow}, {"hypot", hypot}, {"nextafter", nextafter}, {"remainder", remainder}};
static const std::map<std::string, char> CASTS = {{"float32", 'f'}, {"float64", 'd'}, {"int8", 'c'}, {"char", 'c'}, {"int16", 'u'}, {"int32", 'i'}, {"int64", 'h'}, {"uint8", 'C'}, {"uint16", 'U'}, {"uint32", 'I'}, {"uint64", 'H'}};

struct Interp {
	Bndl &b;
	bool top = false;                    // the value asked for is the one returned
	explicit Interp(Bndl &x) : b(x) {}
	const Msg *find(const std::string &a) { for(auto &m : b.m) if(m.addr == a) return &m; return nullptr; }
	// the first message a pattern matches completely
	const Msg *findPat(const std::string &p)
	{
		if(p.size() < 2 || p[0] != '/') return find(p);
		for(auto &m : b.m){ size_t po; if(om::match(p, m.addr, &po) == 3) return &m; }
		return nullptr;
	}
	O arg(const NP &n, const Env *env)
	{
		switch(n->k){
		case LIT:
			if(env && n->v.t == 's'){
				auto i = env->find(n->v.s);
				if(i != env->end()){
					for(auto &x : i->second) if(x.t == 'r') throw Unk{"a function as a value"};
					return O(i->second);
				}
			}
			return O(n->v);
		case ADDR: { const Msg *m = find(n->s); if(!m){ Err e; e.unbound = true; throw e; } return O(m->v); }
		case CALL: return run(n, env);
		case LAMBDA: throw Unk{"a function as a value"};
		}
		throw Unk{"?"};
	}
	O run(const NP &n, const Env *env)
	{
		std::string f = n->s;
		auto al = alias().find(f);
		if(al != alias().end()) f = al->second;
		const auto &c = n->c;
		if(f == "apply") return apply(c, env);
		if(f == "map") return mapf(c, env);
		if(f == "lreduce" || f == "rreduce") return reduce(f == "lreduce", c, env);
		if(f == "assign") return assign(c, env);
		if(f == "assign_to_index") return assignIdx(c, env);
		if(f == "if"){
			O t = arg(c[0], env);
			bool yes = !t.v.empty() && t.v[0].t != 'b' && t.v[0].t != '.' && t.v[0].t != 't' && I32(t.v[0]) != 0;
			if(!t.v.empty() && strchr("b.t", t.v[0].t)) throw Unk{"test of a non-number"};
			O r;
			if(yes) r = arg(c[1], env);
			else if(c.size() > 2) r = arg(c[2], env);
			r.null = false;
			return r;
		}
		if(f == "emptybundle"){
			if(!c.empty()){
				O a = arg(c[0], env);
				return O(B_(a.v.empty() || a.v[0].t != '.' || a.v[0].b->m.empty()));
			}
			return O(B_(b.m.empty()));
		}
		if(f == "bound" || f == "exists") return existsf(f == "bound", c, env);
		if(f == "getaddresses"){
			L r;
			if(!c.empty()){
				O a = arg(c[0], env);
				if(a.null) return none();
				if(a.v.empty()) throw Unk{"addresses of nothing"};
				if(a.v[0].t != '.') throw Err();
				for(auto &m : a.v[0].b->m) r.push_back(Val::S(m.addr));
				return O(r);
			}
			for(auto &m : b.m) r.push_back(Val::S(m.addr));
			return O(r);
		}
		if(f == "delete"){
			for(auto &x : c){
				std::string a;
				if(x->k == ADDR) a = x->s;
				else if(x->k == LIT && x->v.t == 's') a = x->v.s;
				else continue;
				for(size_t i = 0; i < b.m.size();) if(b.m[i].addr == a) b.m.erase(b.m.begin() + i); else i++;
			}
			return none();
		}
		if(f == "getmsgcount") return O(mkI('i', b.m.size()));
		if(f == "value"){
			O a = arg(c[0], env);
			if(a.null) return none();
			if(a.v.empty() || a.v[0].t != 's') return none();
			const Msg *m = findPat(a.v[0].s);
			return m ? O(m->v) : none();
		}
		if(f == "eval"){
			if(n->sub.empty()) throw Unk{"text to evaluate"};
			bool t = top;
			top = false;
			for(auto &e : n->sub){
				try{ run(e, nullptr); }
				catch(Err &){
					if(!t) throw Unk{"code of a failed evaluation"};
					Val v = mkI('i', 1);
					v.s = "code";                 // any code but 0
					return O(v);
				}
			}
			top = t;
			return O(mkI('i', 0));
		}
		if(f == "tokenize"){
			if(!n->hasToks) throw Unk{"tokens"};
			return O(n->toks);
		}
		if(f == "gettimetag") return O(Val::T(b.tt));
		if(f == "settimetag"){
			O a = arg1(c[0], env);
			if(a.v.empty()) throw Err();
			if(a.v[0].t != 't') throw Unk{"time of a non-time"};
			b.tt = a.v[0].i;
			return none();
		}
		if(f == "getbundlemember") return member(c, env);
		if(f == "assigntobundlemember") return assignMember(c, env);
		if(f == "&&" || f == "||"){
			O l = arg(c[0], env);
			if(l.null) return none();
			if(l.v.empty()) throw Unk{"logic on an empty list"};
			char lt = l.v[0].t;
			if(lt != 'T' && lt != 'F') throw Err();
			if((f == "&&") == (lt == 'F')) return O(B_(f == "||"));
			O r = arg(c[1], env);
			if(r.null) return none();
			if(r.v.empty()) throw Unk{"logic on an empty list"};
			if(r.v[0].t != 'T' && r.v[0].t != 'F') throw Err();
			return O(r.v[0]);
		}
		std::vector<O> a;
		bool t = top;
		top = false;
		for(auto &x : c) a.push_back(arg(x, env));
		top = t;
		return normal(f, a);
	}
	O arg1(const NP &n, const Env *env) { try{ return arg(n, env); } catch(Err &){ throw Err(); } }
	// what a parameter stands for: a value, or a function
	L funArg(const NP &x, const Env *env)
	{
		if(x->k == LAMBDA) return {Val::I('r', (int64_t)(intptr_t)x.get())};
		if(env && x->k == LIT && x->v.t == 's'){
			auto i = env->find(x->v.s);
			if(i != env->end()) return i->second;
		}
		return arg(x, env).v;
	}
	O apply(const std::vector<NP> &c, const Env *env)
	{
		const NP &fn = c[0];
		if(fn->k == LAMBDA){
			Env e;
			if(env) e = *env;
			for(size_t i = 0; i < fn->params.size() && i + 1 < c.size(); i++) e[fn->params[i]] = funArg(c[i + 1], env);
			O r;
			for(auto &x : fn->c) r = arg(x, &e);
			return r;
		}
		std::string name;
		if(fn->k == LIT){
			if(fn->v.t != 's') throw Err();
			name = fn->v.s;
			int rq, op;
			if(env && !arity(name, rq, op)){
				auto i = env->find(name);
				if(i != env->end() && i->second.size() == 1 && i->second[0].t == 'r'){
					std::vector<NP> cc = c;
					cc[0] = NP(NP(), (Node *)(intptr_t)i->second[0].i);
					return apply(cc, env);
				}
			}
		}else{
			O a = arg(fn, env);
			if(a.v.size() != 1 || a.v[0].t != 's') throw Err();
			name = a.v[0].s;
			for(auto &x : funTexts()) if(x.first == name){
				std::vector<NP> cc = c;
				cc[0] = x.second;
				return apply(cc, env);
			}
			if(name.empty() || name[0] == '/' || name.find_first_of("( ") != std::string::npos) throw Unk{"function text"};
		}
		int req, opt;
		if(!arity(name, req, opt)){ if(fn->k == LIT) throw Unk{"function name"}; throw Unk{"function text"}; }
		int argc = (int)c.size() - 1;
		if(argc < req || (opt >= 0 && argc > req + opt)) throw Err();
		auto n = std::make_shared<Node>();
		n->k = CALL;
		n->s = name;
		n->c.assign(c.begin() + 1, c.end());
		return run(n, env);
	}
	static bool arity(const std::string &f, int &req, int &opt)
	{
		static const std::map<std::string, std::pair<int, int>> m = {{"abs", {1, 0}}, {"floor", {1, 0}}, {"sqrt", {1, 0}}, {"sign", {1, 0}}, {"plus1", {1, 0}}, {"identity", {1, 0}}, {"not", {1, 0}}, {"first", {1, 0}}, {"float64", {1, 0}}, {"int32", {1, 0}}, {"string", {1, 0}},
			{"clip", {3, 0}}, {"strcmp", {2, 1}}, {"length", {1, 0}}, {"sum", {1, 0}}, {"add", {2, 0}}, {"sub", {2, 0}}, {"mul", {2, 0}}, {"div", {2, 0}}, {"+", {2, 0}}, {"*", {2, 0}}, {"-", {2, 0}}, {"mod", {2, 0}}, {"list", {0, -1}}, {"max", {1, 0}}, {"lt", {2, 0}}, {"pow", {2, 0}}, {"eq", {2, 0}}, {"atan2", {2, 0}}, {"interleave", {2, -1}}};
		auto i = m.find(f);
		if(i == m.end()) return false;
		req = i->second.first;
		opt = i->second.second;
		return true;
	}
	O mapf(const std::vector<NP> &c, const Env *env)
	{
		std::vector<L> a;
		size_t min = SIZE_MAX;
		for(size_t i = 1; i < c.size(); i++){ a.push_back(arg(c[i], env).v); min = std::min(min, a.back().size()); }
		L out;
		for(size_t i = 0; i < min; i++){
			std::vector<NP> cc = {c[0]};
			for(auto &x : a) cc.push_back(lit(x[i], ""));
			O r = apply(cc, env);
			out.insert(out.end(), r.v.begin(), r.v.end());
		}
		return O(out);
	}
	O reduce(bool left, const std::vector<NP> &c, const Env *env)
	{
		L a = arg(c[1], env).v;
		O acc = none();
		int n = (int)a.size(), start = left ? 0 : n - 1, delta = left ? 1 : -1;
		if(c.size() == 3){
			O s = arg(c[2], env);
			if(s.v.empty()) throw Err();
			acc = O(s.v[0]);
		}else if(n > 0){
			acc = O(a[start]);
			start += delta;
		}
		for(int i = start; left ? i < n : i >= 0; i += delta){
			if(acc.v.empty()) throw Err();
			NP x = lit(acc.v[0], ""), y = lit(a[i], "");
			acc = apply({c[0], left ? x : y, left ? y : x}, env);
		}
		return acc;
	}
	static bool goodAddr(const std::string &a)
	{
		if(a.size() < 2 || a[0] != '/') return false;
		for(auto &x : ADDRS) if(a == x) return true;
		for(auto &x : TARGETS) if(a == x) return true;
		if(a == "/x" || a == "/y" || a == "/x/y") return true;
		throw Unk{"odd address"};
	}
	void store(const std::string &a, const L &v)
	{
		for(auto &m : b.m) if(m.addr == a){ m.v = v; return; }
		b.m.push_back(Msg(a, v));
	}
	O assign(const std::vector<NP> &c, const Env *env)
	{
		std::string a;
		if(c[0]->k == ADDR) a = c[0]->s;
		else{
			O t;
			bool have = false;
			if(c[0]->k == CALL && c[0]->s == "value" && c[0]->c[0]->k == ADDR){
				try{ t = arg(c[0]->c[0], env); have = true; } catch(Err &){}
			}
			if(!have) t = arg(c[0], env);
			if(t.v.empty() || t.v[0].t != 's') throw Err();
			a = t.v[0].s;
		}
		if(!goodAddr(a)) throw Err();
		O v = arg(c[1], env);
		for(auto &x : v.v) if(x.t == 'r') throw Unk{"a function stored"};
		store(a, v.v);
		return v;
	}
	O assignIdx(const std::vector<NP> &c, const Env *env)
	{
		if(c[0]->k != ADDR) throw Err();
		const Msg *m = find(c[0]->s);
		if(!m) throw Err();
		L out = m->v;
		L ix = arg(c[1], env).v;
		L data = arg(c[2], env).v;
		int n = (int)out.size();
		if(ix.empty() || data.empty()) throw Err();
		auto idx = [&](const Val &v){ if(strchr("bt.", v.t)) throw Unk{"index"}; return I32(v); };
		if(ix.size() == 1 && data.size() > 1){
			int i = idx(ix[0]);
			if(i < 0 || i >= n) throw Err();
			out[i] = data[0];
		}else if(ix.size() > 1 && data.size() == 1){
			for(auto &v : ix){ int i = idx(v); if(i >= 0 && i < n) out[i] = data[0]; }
		}else{
			for(size_t k = 0; k < std::min(ix.size(), data.size()); k++){ int i = idx(ix[k]); if(i >= 0 && i < n) out[i] = data[k]; }
		}
		store(c[0]->s, out);
		return O(out);
	}
	O existsf(bool bound, const std::vector<NP> &c, const Env *env)
	{
		const NP &x = c[0];
		std::string a;
		if(x->k == ADDR) a = x->s;
		else if(x->k == LIT){
			O v = arg(x, env);
			if(x->v.t != 's' || v.v.empty() || v.v[0].t != 's') throw Err();
			a = v.v[0].s;
		}else if(x->k == CALL && (x->s == "getbundlemember")){
			try{ O v = run(x, env); return O(B_(!bound || !(v.v.empty()))); }
			catch(Err &){ return O(B_(false)); }
		}else if(x->k == CALL){
			O v;
			try{ v = run(x, env); } catch(Err &){ throw Err(); }
			if(v.v.size() != 1 || v.v[0].t != 's' || v.v[0].s.empty() || v.v[0].s[0] != '/') throw Err();
			a = v.v[0].s;
		}else throw Unk{"exists"};
		if(a.empty()) throw Unk{"exists of an empty string"};
		bool any = false, has = false;
		for(auto &m : b.m){ size_t po; if(a.size() > 1 && a[0] == '/' && om::match(a, m.addr, &po) == 3){ any = true; if(!m.v.empty()) has = true; } }
		return O(B_(bound ? has : any));
	}
	// the bundle a list holds, or the one bound to the address it holds
	bool bundleOf(const L &v, Bndl &out, bool &unbound)
	{
		unbound = false;
		if(v.empty()) return false;
		if(v[0].t == 's'){
			const Msg *m = findPat(v[0].s);
			if(!m){ unbound = true; return false; }
			if(m->v.empty()) throw Unk{"member of an empty message"};
			if(m->v[0].t != '.') return false;
			out = *m->v[0].b;
			return true;
		}
		if(v[0].t != '.') return false;
		out = *v[0].b;
		return true;
	}
	O member(const std::vector<NP> &c, const Env *env)
	{
		O x = arg1(c[0], env);
		if(x.null) throw Err();
		Bndl in;
		bool unb;
		if(!bundleOf(x.v, in, unb)){ Err e; e.unbound = unb; throw e; }
		Interp sub(in);
		if(c[1]->k == ADDR) return sub.arg(c[1], env);
		if(c[1]->k == LAMBDA) throw Unk{"a function as a member"};
		// the name is worked out in the bundle at hand, then looked up in the member
		O nm = arg(c[1]->k == CALL && c[1]->s == "value" ? c[1]->c[0] : c[1], env);
		if(nm.v.empty() || nm.v[0].t != 's') throw Unk{"name of a member"};
		const Msg *m = sub.findPat(nm.v[0].s);
		if(!m){ Err e; e.unbound = true; throw e; }
		return O(m->v);
	}
	// what holds the bundle, or the name of the member, is computed
	O assignMember2(const std::vector<NP> &c, const Env *env)
	{
		O x;
		try{ x = arg(c[0], env); } catch(Err &){ throw Err(); }
		if(x.null) throw Err();
		Bndl in;
		bool unb;
		if(!bundleOf(x.v, in, unb)) throw Err();
		O v = arg(c[2], env);
		std::vector<NP> vs;
		for(auto &y : v.v) vs.push_back(lit(y, ""));
		Interp sub(in);
		std::string name;
		if(c[1]->k == ADDR) name = c[1]->s;
		else{
			if(c[1]->k != LIT) throw Unk{"computed name"};
			O nm = sub.arg(c[1], env);
			if(nm.v.empty() || nm.v[0].t != 's') throw Err();
			name = nm.v[0].s;
		}
		if(!goodAddr(name)) throw Err();
		sub.store(name, v.v);
		Val nb = Val::B(in);
		if(c[0]->k == CALL && c[0]->s == "nth") return assignIdx({c[0]->c[0], c[0]->c[1], lit(nb, "")}, env);
		if(c[0]->k == CALL){
			if(x.v[0].t != 's') throw Err();
			if(!goodAddr(x.v[0].s)) throw Err();
			store(x.v[0].s, {nb});
			return O(nb);
		}
		if(c[0]->k == LAMBDA) throw Unk{"a function holding a bundle"};
		x.v[0] = nb;
		if(c[0]->k == ADDR){ store(c[0]->s, x.v); return x; }
		O t = arg(c[0], env);
		if(t.v.empty() || t.v[0].t != 's') throw Err();
		if(!goodAddr(t.v[0].s)) throw Err();
		store(t.v[0].s, x.v);
		return x;
	}
	O assignMember(const std::vector<NP> &c, const Env *env)
	{
		O x;
		if(c[0]->k != ADDR || c[1]->k != ADDR) return assignMember2(c, env);
		if(!find(c[0]->s)){
			b.m.push_back(Msg(c[0]->s, {Val::B(Bndl())}));
			x = O(Val::B(Bndl()));
		}else x = arg(c[0], env);
		Bndl in;
		bool unb;
		if(!bundleOf(x.v, in, unb)) throw Err();
		L v = arg(c[2], env).v;
		Interp sub(in);
		sub.store(c[1]->s, v);
		x.v[0] = Val::B(in);
		store(c[0]->s, x.v);
		return x;
	}
	static Val castTo(char t, const Val &v)
	{
		if(!isNum(v) && v.t != 'N') throw Unk{"cast of a non-number"};
		if(t == 'd') return Val::F('d', D(v));
		if(t == 'f'){ if(v.isInt() || v.t == 'd') return Val::F('f', v.t == 'd' ? (float)v.f : v.t == 'H' ? (float)(uint64_t)v.i : (float)v.i); return Val::F('f', (float)D(v)); }
		double lo, hi;
		switch(t){
		case 'c': lo = -128; hi = 128; break;
		case 'C': lo = 0; hi = 256; break;
		case 'u': lo = -32768; hi = 32768; break;
		case 'U': lo = 0; hi = 65536; break;
		case 'i': lo = -2147483648.; hi = 2147483648.; break;
		case 'I': lo = 0; hi = 4294967296.; break;
		case 'h': lo = -9e18; hi = 9e18; break;
		default: lo = 0; hi = 9e18; break;
		}
		return mkI(t, toI(v, lo, hi));
	}
	O normal(const std::string &f, std::vector<O> &a)
	{
		static const std::string two = " + - * / % < <= > >= == != & | ";
		if(two.find(" " + f + " ") != std::string::npos){
			const L &x = a[0].v, &y = a[1].v;
			L r;
			auto at = [](const L &l, size_t i) -> const Val * { return i < l.size() ? &l[i] : nullptr; };
			size_t mx = std::max(x.size(), y.size()), mn = std::min(x.size(), y.size());
			if(x.size() == 1) for(size_t i = 0; i < mx; i++) r.push_back(op2(f, &x[0], at(y, i)));
			else if(y.size() == 1) for(size_t i = 0; i < mx; i++) r.push_back(op2(f, at(x, i), &y[0]));
			else for(size_t i = 0; i < mn; i++) r.push_back(op2(f, &x[i], &y[i]));
			return O(r);
		}
		auto m1 = M1.find(f);
		if(m1 != M1.end()){
			if(a[0].v.empty()) throw Err();
			L r;
			for(auto &v : a[0].v) r.push_back(Val::F('d', m1->second(D(v))));
			return O(r);
		}
		auto m2 = M2.find(f);
		if(m2 != M2.end()){
			const L &x = a[0].v, &y = a[1].v;
			size_t mx = std::max(x.size(), y.size()), mn = std::min(x.size(), y.size());
			auto at = [](const L &l, size_t i){ return i < l.size() ? D(l[i]) : 0.0; };
			L r;
			size_t n = x.size() == 1 || y.size() == 1 ? mx : mn;
			for(size_t i = 0; i < n; i++) r.push_back(Val::F('d', m2->second(x.size() == 1 ? D(x[0]) : at(x, i), x.size() != 1 && y.size() == 1 ? D(y[0]) : at(y, i))));
			return O(r);
		}
		auto ct = CASTS.find(f);
		if(ct != CASTS.end()){
			L r;
			for(auto &v : a[0].v) r.push_back(castTo(ct->second, v));
			return O(r);
		}
		const L &x = a.empty() ? *(new L()) : a[0].v;
		L r;
		if(f == "bool"){ for(auto &v : x){ if(!isNum(v)) throw Unk{"truth of a non-number"}; r.push_back(B_(Bo(v))); } return O(r); }
		if(f == "string"){ for(auto &v : x) r.push_back(Val::S(strCast(v))); return O(r); }
		if(f == "identity" || f == "prog1") return O(x);
		if(f == "prog2") return O(a[1].v);
		if(f == "progn") return O(a.back().v);
		if(f == "plus1" || f == "minus1"){
			int s = f == "plus1" ? 1 : -1;
			for(auto &v : x){
				if(v.t == 'f') r.push_back(Val::F('f', (float)((float)v.f + (float)s)));
				else if(v.t == 'd') r.push_back(Val::F('d', v.f + s));
				else if(v.isInt()) r.push_back(mkI(v.t, (int64_t)((uint64_t)v.i + (uint64_t)(int64_t)s)));
				else if(v.t == 'T' || v.t == 'F') r.push_back(mkI('i', (v.t == 'T') + s));
				else throw Err();
			}
			return O(r);
		}
		if(f == "nth"){
			bool blob = x.size() == 1 && x[0].t == 'b';
			for(size_t k = 1; k < a.size(); k++) for(auto &v : a[k].v){
				if(strchr("bt.", v.t)) throw Unk{"index"};
				int i = I32(v);
				if(i < 0 || i >= (int)(blob ? x[0].s.size() : x.size())) throw Err();
				r.push_back(blob ? mkI('c', x[0].s[i]) : x[i]);
			}
			return O(r);
		}
		if(f == "sum" || f == "product"){
			double v = f == "sum" ? 0 : 1;
			bool fl = false;
			for(auto &o : a) for(auto &q : o.v){ if(isFl(q.t)) fl = true; if(f == "sum") v += D(q); else v *= D(q); }
			return O(fl ? Val::F('d', v) : smallest(v));
		}
		if(f == "cumsum"){
			int big = 0;
			char bt = 'i';
			for(auto &o : a) for(auto &q : o.v){ char t = q.isInt() || isFl(q.t) ? q.t : 'i'; if(rank(t) > big){ big = rank(t); bt = t; } }
			if(isFl(bt)){
				double s = 0;
				float sf = 0;
				for(auto &o : a) for(auto &q : o.v){
					if(bt == 'd'){ s += D(q); r.push_back(Val::F('d', s)); }
					else{ sf += (float)D(q); r.push_back(Val::F('f', sf)); }
				}
				return O(r);
			}
			uint64_t s = 0;
			for(auto &o : a) for(auto &q : o.v){ if(q.t == 's' || q.t == '.' || q.t == 'b' || q.t == 't') throw Unk{"sum of non-numbers"}; s += bits(q); r.push_back(mkI(bt, (int64_t)s)); }
			return O(r);
		}
		if(f == "length"){ int n = 0; for(auto &o : a) n += o.v.size(); return O(mkI('i', n)); }
		if(f == "mean"){ double s = 0; for(auto &v : x) s += D(v); return O(Val::F('d', s / x.size())); }
		if(f == "median"){
			if(x.empty()) return O(Val::F('d', NAN));
			std::vector<double> d;
			for(auto &v : x){ d.push_back(D(v)); if(std::isnan(d.back())) throw Unk{"order of NaN"}; }
			std::sort(d.begin(), d.end());
			size_t n = d.size();
			return O(Val::F('d', n % 2 ? d[n / 2] : (d[n / 2 - 1] + d[n / 2]) / 2.));
		}
		if(f == "reverse"){ r.assign(x.rbegin(), x.rend()); return O(r); }
		if(f == "sort" || f == "sortidx"){
			struct K { Val v; int i; double d; };
			std::vector<K> k;
			int i = 0;
			for(auto &o : a){ for(auto &v : o.v){ double d = v.t == 's' ? 0 : D(v); if(std::isnan(d)) throw Unk{"order of NaN"}; k.push_back(K{v, i++, d}); } if(f == "sortidx") break; }
			if(f == "sortidx" && k.empty()) return none();
			auto cmp = [](const K &p, const K &q){
				if(p.v.t == 's' && q.v.t == 's') return strcmp(p.v.s.c_str(), q.v.s.c_str());
				if(p.v.t == 's') return 1;
				if(q.v.t == 's') return -1;
				return p.d < q.d ? -1 : p.d > q.d;
			};
			std::stable_sort(k.begin(), k.end(), [&](const K &p, const K &q){ return cmp(p, q) < 0; });
			for(size_t j = 1; j < k.size(); j++) if(!cmp(k[j - 1], k[j]) && (f == "sortidx" || k[j - 1].v != k[j].v)) throw Unk{"order of equal elements"};
			for(auto &q : k) r.push_back(f == "sort" ? q.v : mkI('i', q.i));
			return O(r);
		}
		if(f == "nonzero"){ for(size_t i = 0; i < x.size(); i++) if(Bo(x[i])) r.push_back(mkI('i', i)); return O(r); }
		if(f == "list"){
			for(auto &o : a) r.insert(r.end(), o.v.begin(), o.v.end());
			return r.empty() ? none() : O(r);
		}
		if(f == "nfill"){
			if(x.empty()) throw Unk{"count"};
			if(strchr("bt.", x[0].t)) throw Unk{"count"};
			int n = std::max(0, I32(x[0]));
			if((int64_t)n * (int64_t)a[1].v.size() > 100000) throw Unk{"long list"};
			for(int i = 0; i < n; i++) r.insert(r.end(), a[1].v.begin(), a[1].v.end());
			return r.empty() ? none() : O(r);
		}
		if(f == "aseq"){
			for(auto &o : a) if(o.v.empty()) throw Err();
			bool dbl = false;
			for(auto &o : a) if(isFl(o.v[0].t)) dbl = true;
			double s = D(x[0]), e = D(a[1].v[0]);
			if(s == e) return O(x[0]);
			auto sg = [](double d){ return d == 0 ? 0 : d < 0 ? -1 : 1; };
			double st = sg(e - s);
			if(a.size() > 2) st = D(a[2].v[0]);
			if(std::isnan(s) || std::isnan(e) || std::isnan(st)) throw Unk{"NaN"};
			if(st == 0 || sg(e - s) != sg(st)) throw Err();
			double lo = std::min(s, e), hi = std::max(s, e), cnt = (hi - lo) / fabs(st);
			if(!(cnt < INT32_MAX)) throw Err();
			if(cnt > 100000) throw Unk{"long list"};
			if(!dbl && (lo < INT32_MIN || hi > INT32_MAX)) dbl = true;
			int n = (int)cnt + 1;
			for(int i = 0; i < n; i++){ r.push_back(dbl ? Val::F('d', s) : mkI('i', (int32_t)s)); s += st; }
			return O(r);
		}
		if(f == "first") return x.empty() ? none() : O(x.front());
		if(f == "last") return x.empty() ? none() : O(x.back());
		if(f == "rest"){ if(x.empty()) return none(); r.assign(x.begin() + 1, x.end()); return O(r); }
		if(f == "butlast"){ if(x.empty()) return none(); r.assign(x.begin(), x.end() - 1); return O(r); }
		if(f == "interleave"){
			size_t mn = x.size();
			for(auto &o : a) mn = std::min(mn, o.v.size());
			for(size_t j = 0; j < mn; j++) for(auto &o : a) r.push_back(o.v[j]);
			return O(r);
		}
		if(f == "!"){
			for(auto &v : x) switch(v.t){
			case 'i': case 'I': case 'h': case 'H': r.push_back(mkI('i', !(int32_t)v.i)); break;
			case 'f': case 'd': r.push_back(mkI('i', !v.f)); break;
			case 's': case 'b': case '.': r.push_back(v); break;
			case 'T': r.push_back(B_(false)); break;
			case 'F': case 'N': r.push_back(B_(true)); break;
			default: r.push_back(B_(false));
			}
			return O(r);
		}
		if(f == "dot"){
			double s = 0;
			for(size_t i = 0; i < std::min(x.size(), a[1].v.size()); i++) s += D(x[i]) * D(a[1].v[i]);
			return O(Val::F('d', s));
		}
		if(f == "l2norm"){ double s = 0; for(auto &v : x){ double d = D(v); s += pow(d, 2.); } return O(Val::F('d', sqrt(s))); }
		if(f == "strcmp"){
			if(x.empty() || a[1].v.empty()) throw Err();
			std::string s = strOf2(x[0]), u = strOf2(a[1].v[0]);
			int k;
			if(a.size() == 3){
				if(a[2].v.empty()) throw Unk{"how many characters"};
				int64_t n = I32(a[2].v[0]);
				k = n < 0 ? strcmp(s.c_str(), u.c_str()) : strncmp(s.c_str(), u.c_str(), n);
			}else k = strcmp(s.c_str(), u.c_str());
			Val v = mkI('i', k < 0 ? -1 : k > 0);
			v.s = "sign";                       // only the sign is promised
			return O(v);
		}
		if(f == "strfind"){
			if(x.empty() || a[1].v.empty()) throw Err();
			std::string sub = strOf2(x[0]), s = strOf2(a[1].v[0]);
			if(sub.empty()) return none();
			for(size_t q = s.find(sub); q != s.npos; q = s.find(sub, q + sub.size())) r.push_back(mkI('h', q));
			return O(r);
		}
		if(f == "strchar"){
			for(auto &v : a[1].v){
				std::string s = strOf2(v), w;
				for(auto &i : x){
					if(strchr("bt.", i.t)) throw Unk{"index"};
					int64_t q = I32(i);
					if(q < 0 || q >= (int64_t)s.size()) throw Err();
					w += s[q];
				}
				r.push_back(Val::S(w));
			}
			return O(r);
		}
		if(f == "cast"){
			const L &y = a[1].v;
			if(x.empty()) throw Unk{"cast to nothing"};
			for(size_t i = 0; i < y.size(); i++){
				const Val &tv = x.size() == 1 && y.size() > 1 ? x[0] : i < x.size() ? x[i] : throw Unk{"cast to nothing"};
				char tt = 0;
				if(tv.t == 's') throw Unk{"type given as a string"};
				if(!tv.isInt()) throw Unk{"type"};
				tt = (char)(int8_t)tv.i;
				if(!tt || !strchr("cCuUiIhHfdsb", tt)) throw Err();
				if(tt == 'b') throw Unk{"blob"};
				r.push_back(tt == 's' ? Val::S(strCast(y[i])) : castTo(tt, y[i]));
			}
			return O(r);
		}
		if(f == "cross"){
			const L &y = a[1].v;
			if(x.size() != 3 || y.size() != 3) throw Err();
			int big = 0;
			char bt = 0;
			for(auto l : {&x, &y}) for(auto &q : *l){ char t = strchr("NTFcCuUiIhHfds", q.t) ? q.t : 'i'; int rk = t == 'N' ? 1 : t == 'F' || t == 'T' ? 2 : rank(t) + 1; if(rk > big){ big = rk; bt = t; } }
			if(!strchr("cCuUiIhHfd", bt)) throw Err();
			if(bt == 'd' || bt == 'f'){
				double u[3], w[3];
				for(int i = 0; i < 3; i++){ u[i] = D(x[i]); w[i] = D(y[i]); if(bt == 'f'){ u[i] = (float)u[i]; w[i] = (float)w[i]; } }
				for(int i = 0; i < 3; i++){
					int j = (i + 1) % 3, k = (i + 2) % 3;
					// one expression, evaluated in the type of the components
					if(bt == 'd') r.push_back(Val::F('d', i == 1 ? u[2] * w[0] - u[0] * w[2] : u[j] * w[k] - u[k] * w[j]));
					else{ float p1 = (float)u[j] * (float)w[k], p2 = (float)u[k] * (float)w[j]; r.push_back(Val::F('f', p1 - p2)); }
				}
				return O(r);
			}
			for(int i = 0; i < 3; i++){
				int j = (i + 1) % 3, k = (i + 2) % 3;
				auto N = [&](const Val &v){ if(strchr("s.bt", v.t)) throw Unk{"cross of non-numbers"}; return bits(castTo(bt, v)); };
				r.push_back(mkI(bt, (int64_t)(N(x[j]) * N(y[k]) - N(x[k]) * N(y[j]))));
			}
			return O(r);
		}
		if(f == "det"){
			size_t n = a.size();
			if(n == 1){ if(x.empty()) throw Unk{"determinant of nothing"}; return O(Val::F('d', D(x[0]))); }
			std::vector<std::vector<double>> M(n);
			for(size_t i = 0; i < n; i++){ if(a[i].v.size() != n) throw Err(); for(auto &v : a[i].v) M[i].push_back(D(v)); }
			// by cofactors, with a tolerance: the library eliminates
			std::function<double(const std::vector<std::vector<double>> &, double &)> cof = [&](const std::vector<std::vector<double>> &m, double &mag) -> double {
				if(m.size() == 1){ mag = fabs(m[0][0]); return m[0][0]; }
				double s = 0;
				mag = 0;
				for(size_t cI = 0; cI < m.size(); cI++){
					std::vector<std::vector<double>> k;
					for(size_t i = 1; i < m.size(); i++){ std::vector<double> row; for(size_t j = 0; j < m.size(); j++) if(j != cI) row.push_back(m[i][j]); k.push_back(row); }
					double km, d = cof(k, km);
					s += (cI % 2 ? -1 : 1) * m[0][cI] * d;
					mag += fabs(m[0][cI]) * km;
				}
				return s;
			};
			double mag, d = cof(M, mag);
			double big = 0;
			for(auto &m : M) for(double q : m) big = std::max(big, fabs(q));
			if(!(big < 1e40) || !std::isfinite(d)) throw Unk{"large determinant"};
			bool exact = n <= 3 && mag < 9e15;
			for(auto &m : M) for(double q : m) if(q != floor(q)) exact = false;
			Val v = Val::F('d', d);
			if(exact) return O(v);
			if(!top) throw Unk{"rounding"};
			v.s = "about";
			if(mag > 1e15) throw Unk{"rounding"};
			v.i = (int64_t)ceil(mag);
			return O(v);
		}
		if(f == "hton32" || f == "ntoh32" || f == "hton64" || f == "ntoh64"){
			bool w = f[4] == '6';
			for(auto &v : a[0].v){
				char t = v.t;
				if(!t || !strchr(w ? "cuihCUIH" : "cuiCUI", t)) throw Err();
				bool sg = strchr("cuih", t);
				uint64_t u = (uint64_t)v.i;
				if(w) r.push_back(mkI(sg ? 'h' : 'H', (int64_t)__builtin_bswap64(u)));
				else r.push_back(mkI(sg ? 'i' : 'I', sg ? (int64_t)(int32_t)__builtin_bswap32((uint32_t)u) : (int64_t)__builtin_bswap32((uint32_t)u)));
			}
			return O(r);
		}
		if(f == "readstring"){
			if(x.size() > 1) throw Err();
			if(x.empty() || x[0].t != 's') throw Err();
			return O(x[0]);
		}
		if(f == "match"){
			for(auto &pt : x){
				if(pt.t != 's') throw Err();
				if(pt.s.empty() || pt.s[0] != '/') throw Unk{"not a pattern"};
				Bndl o;
				Msg pm("/pattern"), fu("/full"), pa("/partial"), un("/unmatched");
				pm.v.push_back(pt);
				for(auto &ad : a[1].v){
					if(ad.t != 's') continue;
					if(ad.s.empty() || ad.s[0] != '/') throw Unk{"not an address"};
					size_t po = 0;
					int m = om::match(pt.s, ad.s, &po);
					if(m == 3) fu.v.push_back(ad);
					else if(m == 1 && po > 0) pa.v.push_back(ad);
					else un.v.push_back(ad);
				}
				o.m = {pm, fu, pa, un};
				r.push_back(Val::B(o));
			}
			return O(r);
		}
		{
			static const std::map<std::string, double> K = {{"halfpi", M_PI_2}, {"quarterpi", M_PI_4}, {"oneoverpi", M_1_PI}, {"twooverpi", M_2_PI}, {"degtorad", 0.017453}, {"radtodeg", 57.29578}, {"lntwo", M_LN2}, {"lnten", M_LN10}, {"logtwoe", M_LOG2E}, {"logtene", M_LOG10E}, {"sqrttwo", M_SQRT2}, {"sqrthalf", M_SQRT1_2}, {"twelfth_root_of_2", 1.059463094359295}, {"thirteenth_root_of_3", 1.088182243463317}};
			auto k = K.find(f);
			if(k != K.end()) return O(Val::F('d', k->second));
		}
		if(f == "min" || f == "max" || f == "extrema" || f == "range"){
			if(x.empty()) return none();
			double mn = HUGE_VAL, mx = -HUGE_VAL;
			size_t imn = 0, imx = 0;
			bool got = false;
			for(size_t i = 0; i < x.size(); i++){ double d = D(x[i]); if(d <= mn){ mn = d; imn = i; got = true; } if(d >= mx){ mx = d; imx = i; got = true; } }
			if(f == "min") return O(x[imn]);
			if(f == "max") return O(x[imx]);
			if(f == "extrema") return O(L{x[imn], x[imx]});
			if(!got) throw Unk{"range of NaN"};
			return O(isFl(x[imn].t) || isFl(x[imx].t) ? Val::F('d', mx - mn) : smallest(mx - mn));
		}
		if(f == "clip"){
			if(a[1].v.empty() || a[2].v.empty()) throw Unk{"clip to nothing"};
			double mn = D(a[1].v[0]), mx = D(a[2].v[0]);
			bool fl = isFl(a[1].v[0].t) || isFl(a[2].v[0].t);
			for(auto &v : x){
				if(strchr("sTFNb.", v.t)){ r.push_back(v); continue; }
				double d = D(v);
				if(d < mn) d = mn;
				if(d > mx) d = mx;
				if(isFl(v.t) || fl) r.push_back(Val::F('d', d));
				else{ if(!(d >= -2147483648. && d < 2147483648.)) throw Unk{"range"}; r.push_back(mkI('i', (int32_t)d)); }
			}
			return O(r);
		}
		if(f == "scale"){
			double p[5] = {0};
			bool fl = false;
			for(int i = 1; i < 5; i++){ if(a[i].v.empty()) throw Unk{"scale by nothing"}; p[i] = D(a[i].v[0]); if(isFl(a[i].v[0].t)) fl = true; }
			double m = (p[4] - p[3]) / (p[2] - p[1]), o = p[3] - m * p[1];
			for(auto &v : x){
				if(strchr("sTFNb.", v.t)){ r.push_back(v); continue; }
				double d = p[4] == p[3] ? p[3] : m * D(v) + o;
				if(isFl(v.t) || fl) r.push_back(Val::F('d', d));
				else{ if(!(d > -2147483649. && d < 2147483648.)) throw Unk{"range"}; r.push_back(mkI('i', (int32_t)d)); }
			}
			return O(r);
		}
		if(f == "mtof" || f == "ftom"){
			double base = a.size() > 1 && !a[1].v.empty() ? D(a[1].v[0]) : 440;
			for(auto &v : x){
				if(strchr("sTFNb.", v.t)){ r.push_back(v); continue; }
				double d = D(v);
				r.push_back(Val::F('d', f == "mtof" ? base * exp(.05776226504666210911810267678817 * (d - 69)) : (69 + (17.31234049066756088831909617202611 * log(d / base)))));
			}
			return O(r);
		}
		if(f == "sign"){ for(auto &v : x){ double d = D(v); r.push_back(mkI('i', d == 0 ? 0 : d < 0 ? -1 : 1)); } return O(r); }
		if(f == "ilogb"){ for(auto &v : x) r.push_back(mkI('i', ilogb(D(v)))); return O(r); }
		if(f == "typetags"){ for(auto &v : x) r.push_back(mkI('c', v.t)); return O(r); }
		if(f == "pi") return O(Val::F('d', 3.14159265358979323846));
		if(f == "twopi") return O(Val::F('d', 2 * 3.14159265358979323846));
		if(f == "e") return O(Val::F('d', 2.7182818284590452354));
		if(f == "strlen"){ for(auto &v : x) r.push_back(mkI('h', strOf2(v).size())); return O(r); }
		if(f == "join"){
			std::string sep = x.empty() ? "" : strOf2(x[0]), s;
			std::vector<std::string> parts;
			for(size_t k = 1; k < a.size(); k++) for(auto &v : a[k].v){ if((v.t == 'c' || v.t == 'C') && !v.i) throw Unk{"NUL in a string"}; parts.push_back(v.t == 'c' || v.t == 'C' ? std::string(1, (char)v.i) : strOf2(v)); }
			for(size_t i = 0; i < parts.size(); i++) s += parts[i] + (i + 1 < parts.size() ? sep : "");
			return O(Val::S(s));
		}
		if(f == "split"){
			if(x.empty() || a[1].v.empty()) throw Err();
			std::string sep = strOf2(x[0]), s = strOf2(a[1].v[0]);
			if(sep.empty()){ for(char ch : s) r.push_back(mkI('c', ch)); return O(r); }
			size_t i = 0;
			while(i < s.size()){
				size_t j = s.find_first_not_of(sep, i);
				if(j == std::string::npos) break;
				size_t k = s.find_first_of(sep, j);
				if(k == std::string::npos) k = s.size();
				r.push_back(Val::S(s.substr(j, k - j)));
				i = k;
			}
			return O(r);
		}
		if(f == "bundle"){
			Bndl out;
			for(size_t i = 0; i + 1 < a.size(); i += 2){
				if(a[i].v.size() != 1 || a[i].v[0].t != 's') throw Unk{"bundle"};
				goodAddr(a[i].v[0].s);
				out.m.push_back(Msg(a[i].v[0].s, a[i + 1].v));
			}
			if(a.size() % 2) throw Unk{"bundle"};
			return O(Val::B(out));
		}
		if(f == "bitand" || f == "bitor"){
			if(x.empty() || a[1].v.empty()) throw Unk{"bits"};
			const Val &u = x[0], &w = a[1].v[0];
			if(!u.isInt() || !w.isInt()) throw Err();
			return O(mkI(rank(u.t) < rank(w.t) ? w.t : u.t, f == "bitand" ? u.i & w.i : u.i | w.i));
		}
		throw Unk{"function"};
	}
};
Res eval(const NP &n, Bndl &b)
{
	Res r;
	try{
		Interp I(b);
		I.top = n->s == "det" || n->s == "eval";
		O o = I.run(n, nullptr);
		r.v = o.v;
		r.null = o.null;
	}catch(Err &){ r.st = 1; }
	catch(Unk &u){ r.st = 2; r.why = u.why; }
	return r;
}
static bool sameV(const Val &a, const Val &b)
{
	if(a.t != b.t) return false;
	if(b.t == 'i' && b.s == "code") return a.i != 0;
	if(b.t == 'i' && b.s == "sign") return (a.i < 0 ? -1 : a.i > 0) == b.i;
	if(b.t == 'd' && b.s == "about") return fabs(a.f - b.f) <= 1e-9 * ((double)b.i + 1);
	if(isFl(a.t)) return a.f == b.f || (std::isnan(a.f) && std::isnan(b.f));
	if(a.t == '.'){ return same(*a.b, *b.b); }
	return a == b;
}
bool same(const L &a, const L &b)
{
	if(a.size() != b.size()) return false;
	for(size_t i = 0; i < a.size(); i++) if(!sameV(a[i], b[i])) return false;
	return true;
}
bool same(const Bndl &a, const Bndl &b)
{
	if(a.tt != b.tt || a.m.size() != b.m.size()) return false;
	for(size_t i = 0; i < a.m.size(); i++) if(a.m[i].addr != b.m[i].addr || !same(a.m[i].v, b.m[i].v)) return false;
	return true;
}
std::string text(const L &v)
{
	std::string s = "[";
	for(size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + om::text(v[i]);
	return s + "]";
}
}
