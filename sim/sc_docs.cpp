// L20: what the library says about its own functions — the category list, the functions of a category and the
// documentation of a function — against the function records themselves and against the parser that enforces them.
// The tables behind the answers are built on first use and kept; every run starts in a process that has none yet.
#include "om.h"
extern "C" {
#include "osc_expr_rec.h"
t_osc_err osc_expr_parser_parseExpr(char *ptr, t_osc_expr **f, void *context);
}
using namespace sim;
using namespace om;
namespace {
struct Str {                                 // a string of the caller's
	char *p;
	explicit Str(const std::string &s) : p(arena::callerBytes(s.c_str(), s.size() + 1)) {}
	Str(const Str &) = delete;
	~Str() { arena::callerFree(p); }
	operator char *() { return p; }
};
bool okAddr(const std::string &s) { return s.size() > 1 && s[0] == '/' && s.back() != '/' && s.find("//") == std::string::npos && s.find('\0') == std::string::npos; }
// every function the library has, in no particular role but that of a name to ask for
const std::vector<std::string> names = {
	"+", "-", "*", "/", "<", "<=", ">", ">=", "==", "!=", "&", "|", "&&", "||", "%", "=", "++", "--", "+=", "-=", "*=", "/=", "%=", "??", "add", "sub",
	"mul", "div", "lt", "le", "gt", "ge", "eq", "ne", "and", "or", "andalso", "orelse", "mod", "assign", "plus1", "minus1", "abs", "acos", "asin",
	"atan", "atan2", "ceil", "cos", "cosh", "exp", "floor", "fmod", "log", "log10", "pow", "sin", "sinh", "sqrt", "tan", "tanh", "erf", "erfc", "gamma",
	"hypot", "j0", "j1", "jn", "lgamma", "y0", "y1", "yn", "acosh", "asinh", "atanh", "cbrt", "expm1", "ilogb", "logb", "nextafter", "remainder",
	"round", "nth", "assign_to_index", "product", "sum", "cumsum", "length", "avg", "mean", "median", "reverse", "rev", "sort", "list", "nfill", "aseq",
	"interleave", "first", "last", "rest", "butlast", "!", "not", "dot", "cross", "det", "l2norm", "min", "max", "range", "extrema", "clip", "scale",
	"mtof", "ftom", "sign", "if", "strcmp", "split", "join", "bound", "exists", "emptybundle", "getaddresses", "delete", "getmsgcount", "identity",
	"eval", "tokenize", "prog1", "prog2", "progn", "apply", "map", "lreduce", "rreduce", "quote", "value", "lambda", "gettimetag", "settimetag",
	"getbundlemember", "assigntobundlemember", "bitand", "bitor", "pi", "twopi", "halfpi", "quarterpi", "oneoverpi", "twooverpi", "degtorad", "radtodeg",
	"e", "lntwo", "lnten", "logtwoe", "logtene", "sqrttwo", "sqrthalf", "float32", "float64", "int8", "char", "int16", "int32", "int64", "uint8",
	"uint16", "uint32", "uint64", "bool", "string", "blob", "cast", "typetags", "hton32", "ntoh32", "hton64", "ntoh64", "readstring", "strtotime",
	"floattotime", "match", "quickhull", "bundle", "phi", "twelfth_root_of_2", "thirteenth_root_of_3",
};
const char *renamed[][2] = {{"+", "add"}, {"-", "sub"}, {"*", "mul"}, {"/", "div"}, {"%", "mod"}, {"++", "inc"}, {"--", "dec"}, {"+=", "addassign"}, {"-=", "subassign"}, {"*=", "mulassign"}, {"/=", "divassign"}, {"%=", "modassign"}};
std::string plain(const std::string &n)
{
	for(auto &r : renamed) if(n == r[0]) return r[1];
	return n;
}
t_osc_expr_rec *rec(const std::string &n)
{
	Str s(n);
	t_osc_expr_rec *r = osc_expr_lookupFunction(s);
	return r;
}
std::vector<std::string> cats(t_osc_expr_rec *r)
{
	std::vector<std::string> v;
	for(char **q = osc_expr_rec_getCategories(r); q && *q; q++) if(**q) v.push_back(*q);
	return v;
}
std::string types(int t)
{
	static const struct { int bit; const char *n; } k[] = {{0x1, "number"}, {0x2, "list"}, {0x4, "string"}, {0x8, "atom"}, {0x10, "expression"}, {0x20, "OSC address"}, {0x40, "boolean"}, {0x80, "function"}};
	std::string s;
	for(auto &x : k) if(t & x.bit) s += (s.empty() ? "" : ", ") + std::string(x.n);
	return s;
}
Msg words(const std::string &addr, const std::vector<std::string> &v)
{
	Msg m;
	m.addr = addr;
	for(auto &s : v){ m.v.push_back(Val::S(s)); }
	return m;
}
Msg number(const std::string &addr, int64_t n)
{
	Msg m;
	m.addr = addr;
	Val x;
	x.t = 'i';
	x.i = n;
	m.v.push_back(x);
	return m;
}
// the documentation of a function, from its record
Bndl docOf(t_osc_expr_rec *r)
{
	Bndl b;
	int nr = osc_expr_rec_getNumRequiredArgs(r), no = osc_expr_rec_getNumOptionalArgs(r);
	b.m.push_back(words("/doc/function/name", {osc_expr_rec_getName(r)}));
	b.m.push_back(words("/doc/function/signature", {osc_expr_rec_getSignature(r)}));
	b.m.push_back(words("/doc/function/docstring", {osc_expr_rec_getDocstring(r)}));
	b.m.push_back(number("/doc/function/num_required_args", nr));
	b.m.push_back(number("/doc/function/num_optional_args", no));
	for(int k = 0; k < 2; k++){
		char **n = k ? osc_expr_rec_getOptionalArgsNames(r) : osc_expr_rec_getRequiredArgsNames(r);
		int *t = k ? osc_expr_rec_getOptionalArgsTypes(r) : osc_expr_rec_getRequiredArgsTypes(r);
		int cnt = k ? (no < 0 ? -no : no) : nr;
		for(int i = 0; n && i < cnt; i++){
			if(!n[i]) continue;
			b.m.push_back(words(sprintf_("/doc/function/arg/%s/name/%d", k ? "optional" : "required", i + 1), {n[i]}));
			b.m.push_back(words(sprintf_("/doc/function/arg/%s/types/%d", k ? "optional" : "required", i + 1), {types(t[i])}));
		}
	}
	std::vector<std::string> all;
	for(char **q = osc_expr_rec_getCategories(r); q && *q; q++) all.push_back(*q);
	b.m.push_back(words("/doc/function/categories", all));
	return b;
}
void sameDoc(const Bndl &got, const Bndl &want, const std::string &f)
{
	// every field once, in whatever order
	if(got.m.size() != want.m.size()) failv("documentation", "the documentation of %s has %zu fields instead of %zu: %s", esc(f).c_str(), got.m.size(), want.m.size(), text(got).c_str());
	for(auto &w : want.m){
		int n = 0;
		for(auto &g : got.m) if(g.addr == w.addr){
			n++;
			if(encMsg(g) != encMsg(w)) failv("documentation", "%s of %s is %s, its record says %s", w.addr.c_str(), esc(f).c_str(), esc(encMsg(g)).c_str(), esc(encMsg(w)).c_str());
		}
		if(n != 1) failv("documentation", "%s of %s is given %d times", w.addr.c_str(), esc(f).c_str(), n);
	}
}
bool under(const std::string &cat, const std::string &prefix)
{
	return cat == prefix || (cat.size() > prefix.size() && !cat.compare(0, prefix.size(), prefix) && cat[prefix.size()] == '/');
}
struct Lib {
	Ctx &c;
	bool haveCats = false, haveFuncs = false;
	std::vector<std::string> known;              // categories seen so far
	std::string kept;                            // the category list as it was first given
	arena::Mark mk;
	explicit Lib(Ctx &x) : c(x), mk(arena::mark()) {}
	void balanced() { arena::checkNoLeaks(mk, "the answers about functions"); }
	std::vector<std::string> list()
	{
		t_osc_bndl_s *b;
		if(haveCats) b = osc_expr_getCategories();
		else{
			balanced();                              // the table is kept
			b = osc_expr_getCategories();
			haveCats = true;
			mk = arena::mark();
		}
		if(!b) failv("categories", "there is no list of categories");
		std::string bytes(osc_bundle_s_getPtr(b), osc_bundle_s_getLen(b));
		if(kept.empty()) kept = bytes;
		if(bytes != kept) failv("categories", "the list of categories changed: %s, before %s", esc(bytes).c_str(), esc(kept).c_str());
		Bndl m;
		std::string why;
		if(!fromBytes((long)bytes.size(), bytes.data(), m, why)) failv("categories", "the list of categories is not a well-formed bundle: %s", esc(bytes).c_str());
		std::vector<std::string> v;
		const std::string pre = "/doc/category/list";
		for(auto &x : m.m){
			if(x.addr.compare(0, pre.size() + 1, pre + "/")) failv("categories", "'%s' among the categories", esc(x.addr).c_str());
			if(!x.v.empty()) failv("categories", "the entry of '%s' has arguments", esc(x.addr).c_str());
			std::string k = x.addr.substr(pre.size());
			for(auto &o : v) if(o == k) failv("categories", "'%s' is listed twice", k.c_str());
			v.push_back(k);
		}
		return v;
	}
	Bndl functions(const std::string &ask, bool &any)
	{
		Str s(ask);
		long n = -77;
		char *p = nullptr;
		int e;
		if(haveFuncs) e = osc_expr_getFunctionsForCategory(s, &n, &p);
		else{
			// the table is kept, the answer is not
			balanced();
			Str none("/no/such/category");
			long n0 = 0;
			char *p0 = nullptr;
			osc_expr_getFunctionsForCategory(none, &n0, &p0);
			mk = arena::mark();
			haveFuncs = true;
			if(p0 && n0 > 16) failv("functions", "functions in a category that does not exist");
			osc_mem_free(p0);
			e = osc_expr_getFunctionsForCategory(s, &n, &p);
		}
		if(ask != (char *)s) failv("functions", "the name of the category was changed to '%s'", esc((char *)s).c_str());
		if(e) failv("functions", "asking for the functions of '%s' returns %#x", esc(ask).c_str(), (unsigned)e);
		Bndl b;
		any = false;
		if(p){
			std::string bytes(p, (size_t)n);
			memset(p, 0x5a, (size_t)n);           // the answer is the caller's to write to
			osc_mem_free(p);
			std::string why;
			if(!fromBytes((long)bytes.size(), bytes.data(), b, why)) failv("functions", "the functions of '%s' are not a well-formed bundle: %s", esc(ask).c_str(), esc(bytes).c_str());
			any = !b.m.empty();
		}else if(n != -77) failv("functions", "a length of %ld and no functions for '%s'", n, esc(ask).c_str());
		return b;
	}
	void checkFunctions(const std::string &cat, bool full)
	{
		bool any;
		Bndl b = functions(full ? "/doc/category" + cat : cat, any);
		c.logf("%s %zu", cat.c_str(), b.m.size());
		std::map<std::string, int> want, got;
		for(auto &n : names){
			t_osc_expr_rec *r = rec(n);
			if(!r) failv("lookup", "there is no function '%s'", esc(n).c_str());
			for(auto &k : cats(r)) if(under(k, cat)) want["/doc/category" + k + "/" + plain(n) + " " + n]++;
		}
		for(auto &m : b.m){
			if(m.v.size() != 1 || m.v[0].t != 's') failv("functions", "the entry %s does not hold one name", esc(encMsg(m)).c_str());
			got[m.addr + " " + m.v[0].s]++;
			t_osc_expr_rec *r = rec(m.v[0].s);
			if(!r) failv("functions", "'%s' lists '%s', which is not a function", cat.c_str(), esc(m.v[0].s).c_str());
			bool in = false;
			for(auto &k : cats(r)) in = in || (under(k, cat) && m.addr == "/doc/category" + k + "/" + plain(m.v[0].s));
			if(!in) failv("functions", "'%s' lists '%s' as %s", cat.c_str(), esc(m.v[0].s).c_str(), esc(m.addr).c_str());
		}
		for(auto &w : want) if(got[w.first] != w.second) failv("functions", "'%s' lists %s %d times instead of %d", cat.c_str(), esc(w.first).c_str(), got[w.first], w.second);
		for(auto &g : got) if(g.second > 1 && !want.count(g.first)) failv("functions", "'%s' lists %s %d times", cat.c_str(), esc(g.first).c_str(), g.second);
		if(any) probe("functions of a category");
	}
	void doc(const std::string &f)
	{
		t_osc_bndl_u *b = nullptr;
		Str s(f);
		int e = osc_expr_getDocForFunction(s, &b);
		t_osc_expr_rec *r = rec(f);
		c.logf("doc %s %#x", f.c_str(), (unsigned)e);
		if(!r){
			if(!e || b) failv("documentation", "documentation of '%s', which is not a function", esc(f).c_str());
			probe("documentation of an unknown function asked for");
			return;
		}
		if(e || !b) failv("documentation", "no documentation of '%s': %#x", esc(f).c_str(), (unsigned)e);
		sameDoc(fromBndlU(b), docOf(r), f);
		// it is the caller's: what is done to it shows nowhere else
		t_osc_msg_u *m = osc_bundle_u_getFirstMsg(b);
		if(m){ Str t("/doc/function/spoilt"); osc_message_u_setAddress(m, t); osc_message_u_appendInt32(m, 1); }
		osc_bundle_u_free(b);
	}
};
bool ident(const std::string &n) { return !n.empty() && isalpha((unsigned char)n[0]) && n != "quote" && n != "lambda"; }

void gen(Rng &r, Plan &p, int tier)
{
	arena::genPolicy(r, p);
	int n = (int)r.range(3, tier ? 40 : 18);
	for(int i = 0; i < n; i++){
		static const char *const ks[] = {"cats", "functions", "functions", "doc", "doc", "doc", "arity", "arity", "unknown", "rec", "every", "other"};
		p.op(ks[r.below(12)], {(int64_t)r.below(1000), (int64_t)r.below(12), (int64_t)r.below(1000), (int64_t)r.below(1000)}, r.chance(1, 2) ? genAddr(r) : genStr(r, false));
	}
}
void run(const Plan &p, Ctx &c)
{
	Lib L(c);
	for(size_t i = 0; i < p.ops.size(); i++){
		const Op &o = p.ops[i];
		c.at(i, o);
		uint64_t k = (uint64_t)o.A(0);
		const std::string &f = names[k % names.size()];
		if(o.k == "cats"){
			auto v = L.list();
			c.logf("%zu categories", v.size());
			c.nontrivial();
		}else if(o.k == "functions"){
			// a category of some function, or all the categories below the same root
			t_osc_expr_rec *r = rec(f);
			if(!r) failv("lookup", "there is no function '%s'", esc(f).c_str());
			auto v = cats(r);
			if(v.empty()) continue;                  // for the parser's own use
			std::string cat = v[(uint64_t)o.A(2) % v.size()];
			if(o.A(1) % 4 == 0) cat = cat.substr(0, cat.find('/', 1));
			L.checkFunctions(cat, o.A(1) % 3 == 0);
			c.nontrivial();
		}else if(o.k == "doc"){
			L.doc(f);
			c.nontrivial();
		}else if(o.k == "unknown"){
			std::string s = okAddr(o.s) && !o.s.empty() ? o.s : "/nowhere";
			L.doc(s);
			bool any;
			L.functions(s + "/nowhere", any);
			if(any) failv("functions", "there are functions in '%s'", esc(s + "/nowhere").c_str());
			std::string far = "/far";
			while((int64_t)far.size() < 4 + o.A(2) % 600) far += "/away";
			L.functions(far, any);
			if(any) failv("functions", "there are functions in '%s'", esc(far).c_str());
			if(far.size() > 120) probe("category name longer than any the library has");
		}else if(o.k == "arity"){
			if(!ident(f)) continue;
			t_osc_expr_rec *r = rec(f);
			if(!r) failv("lookup", "there is no function '%s'", esc(f).c_str());
			int nr = osc_expr_rec_getNumRequiredArgs(r), no = osc_expr_rec_getNumOptionalArgs(r);
			int n = (int)((uint64_t)o.A(1) % 3 == 0 ? (uint64_t)o.A(2) % 12 : (uint64_t)std::max(0, nr - 1 + (int)((uint64_t)o.A(2) % (uint64_t)(3 + (no < 0 ? 2 : no)))));
			static const char *const args[] = {"1", "2.5", "\"x\"", "/a", "[1, 2]", "1 + 2", "abs(3)"};
			std::string t = "/z = " + f + "(";
			for(int j = 0; j < n; j++) t += (j ? ", " : "") + std::string(args[(uint64_t)(o.A(3) + j * 3) % 7]);
			t += ")";
			Str s(t);
			t_osc_expr *e = nullptr;
			int err = osc_expr_parser_parseExpr(s, &e, nullptr);
			bool want = n >= nr && (no < 0 || n <= nr + no);
			if(want != (!err && e)) failv("arity", "%s is %s, the function takes %d arguments and %d more", t.c_str(), want ? "refused" : "accepted", nr, no);
			if(!want && e) failv("arity", "an expression from the refused %s", t.c_str());
			if(e) osc_expr_free(e);
			probe(want ? "number of arguments accepted" : "number of arguments refused");
			c.logf("%s %d", t.c_str(), want);
			c.nontrivial();
		}else if(o.k == "every"){
			// the list, the categories and the functions agree with each other
			auto v = L.list();
			std::map<std::string, int> used;
			for(auto &n : names){
				t_osc_expr_rec *r = rec(n);
				if(!r) failv("lookup", "there is no function '%s'", esc(n).c_str());
				if(n != osc_expr_rec_getName(r)) failv("lookup", "asked for '%s', got '%s'", esc(n).c_str(), esc(osc_expr_rec_getName(r)).c_str());
				for(auto &k : cats(r)) used[k]++;
			}
			for(auto &k : v) if(!used.count(k)){
				bool any;
				L.functions(k, any);
				if(!any) failv("categories", "'%s' is listed and has no functions", k.c_str());
			}
			for(auto &u : used) if(std::find(v.begin(), v.end(), u.first) == v.end()) failv("categories", "'%s' has functions and is not listed", u.first.c_str());
			c.nontrivial();
		}else if(o.k == "rec"){
			// a record of the caller's own, and a copy of it
			std::string nm = o.s.empty() ? "f" : o.s.substr(0, o.s.find('\0'));
			std::string sig = "/result = f(" + nm + ")";
			int nr = (int)((uint64_t)o.A(1) % 5), no = (int)((uint64_t)o.A(2) % 3);
			std::vector<std::string> rn, on;
			std::vector<int> rt, ot;
			for(int j = 0; j < nr; j++){ rn.push_back(nm + std::string((size_t)((uint64_t)(o.A(3) + j * 7) % 19), (char)(97 + j)) + std::to_string(j)); rt.push_back((int)(o.A(3) + j) & 0x1ff); }
			for(int j = 0; j < no; j++){ on.push_back("o" + std::to_string(j)); ot.push_back((int)(o.A(3) * 3 + j) & 0x1ff); }
			t_osc_expr_rec *r = osc_expr_rec_alloc();
			if(!r) failv("record", "no record");
			{
				// everything the record is given is copied
				Str a(nm), b(sig);
				osc_expr_rec_setName(r, a);
				osc_expr_rec_setSignature(r, b);
				std::vector<std::unique_ptr<Str>> hold;
				std::vector<char *> q;
				for(auto &s : rn){ hold.emplace_back(new Str(s)); q.push_back(*hold.back()); }
				std::vector<int> t = rt;
				if(nr) osc_expr_rec_setRequiredArgs(r, nr, q.data(), t.data());
				for(auto &x : t) x = -1;
				q.clear();
				for(auto &s : on){ hold.emplace_back(new Str(s)); q.push_back(*hold.back()); }
				t = ot;
				if(no) osc_expr_rec_setOptionalArgs(r, no, q.data(), t.data());
				for(auto &x : t) x = -1;
			}
			for(int k = 0; k < 2; k++){
				t_osc_expr_rec *q = r, *cp = nullptr;
				if(k){
					osc_expr_rec_copy(&cp, r, nullptr);
					if(!cp) failv("record", "no copy of the record");
					osc_expr_rec_free(r, nullptr);
					q = cp;
				}
				if(nm != osc_expr_rec_getName(q) || sig != osc_expr_rec_getSignature(q)) failv("record", "the record of '%s' says '%s' and '%s'", esc(nm).c_str(), esc(osc_expr_rec_getName(q)).c_str(), esc(osc_expr_rec_getSignature(q)).c_str());
				if(osc_expr_rec_getNumRequiredArgs(q) != nr || osc_expr_rec_getNumOptionalArgs(q) != no) failv("record", "a record of %d and %d arguments says %d and %d", nr, no, osc_expr_rec_getNumRequiredArgs(q), osc_expr_rec_getNumOptionalArgs(q));
				for(int j = 0; j < nr; j++) if(rn[j] != osc_expr_rec_getRequiredArgsNames(q)[j]) failv("record", "required argument %d is '%s' instead of '%s'", j, esc(osc_expr_rec_getRequiredArgsNames(q)[j]).c_str(), esc(rn[j]).c_str());
				for(int j = 0; j < no; j++) if(on[j] != osc_expr_rec_getOptionalArgsNames(q)[j]) failv("record", "optional argument %d is '%s' instead of '%s'", j, esc(osc_expr_rec_getOptionalArgsNames(q)[j]).c_str(), esc(on[j]).c_str());
				if(!k){
					for(int j = 0; j < nr; j++) if(rt[j] != osc_expr_rec_getRequiredArgsTypes(q)[j]) failv("record", "required argument %d has types %x instead of %x", j, osc_expr_rec_getRequiredArgsTypes(q)[j], rt[j]);
					for(int j = 0; j < no; j++) if(ot[j] != osc_expr_rec_getOptionalArgsTypes(q)[j]) failv("record", "optional argument %d has types %x instead of %x", j, osc_expr_rec_getOptionalArgsTypes(q)[j], ot[j]);
				}else osc_expr_rec_free(q, nullptr);
			}
			probe("record copied and its original freed");
		}else if(o.k == "other"){
			// other uses of the same memory
			std::vector<void *> v;
			for(int j = 0; j < 1 + (int)((uint64_t)o.A(1) % 9); j++) v.push_back(osc_mem_alloc(16 + (size_t)((uint64_t)(o.A(2) * (j + 1)) % 900)));
			for(auto x : v){ if(x) memset(x, 0xa5, 16); osc_mem_free(x); }
		}
		stateHash(mix64(L.haveCats + 2 * L.haveFuncs) ^ fnv(o.k.data(), o.k.size()) ^ mix64(k % names.size()));
	}
	L.balanced();
}
Reg reg(Scenario{"L20", gen, run, 12000, 300000,
	"a list, a documentation or a number of arguments was compared with the function records, in a process that had built none of the kept tables at the start",
	"osc_expr.c osc_expr_rec.c osc_expr_func.h, the expression scanner and parser, bundles and messages, osc_match.c, compiled from /repo",
	"the allocator is simulated; every run starts in a process where the kept tables do not exist",
	"the records of the functions, read through their public accessors, say what the functions are: the documentation, the lists and the parser are held against them"});
}
