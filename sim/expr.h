// Expression programs: generator (from a decision tape), printer and reference interpreter.
#pragma once
#include "om.h"
namespace ex {
enum Kind { LIT, ADDR, CALL, LAMBDA };
enum Sugar { PREFIX, BIN, NEG, NOT, TERN, ASG, OPASG, PREINC, POSTINC, NULLCO, NULLAS, LISTL, NTH, IDXASG, RNGASG, DOT, DOTASG, LAMAPP, ADDRAPP, BACKQ, BUNDLEL, QUOTE, WORD, PROGN };
struct Node;
typedef std::shared_ptr<Node> NP;
struct Node {
	Kind k = LIT;
	Sugar g = PREFIX;
	std::string s;                   // function name, address, operator
	std::string tok;                 // source text of a literal
	om::Val v;
	std::vector<NP> c;
	std::vector<std::string> params; // LAMBDA
	std::vector<NP> sub;             // eval("..."): what the text parses to
	std::vector<om::Val> toks;       // tokenize("..."): the tokens the text is made of
	bool hasToks = false;
};
// decisions: when the tape is used up every choice is the simplest one
struct Tape {
	const std::vector<int64_t> &a;
	size_t i = 0;
	explicit Tape(const std::vector<int64_t> &x) : a(x) {}
	uint64_t next(uint64_t n) { return i < a.size() && n ? (uint64_t)a[i++] % n : 0; }
	bool chance(int num, int den) { return next(den) >= (uint64_t)(den - num); }
	template <class T> const T &pick(const std::vector<T> &v) { return v[next(v.size())]; }
};
struct GenCfg { bool broad = false; bool side = true; };
std::vector<NP> program(Tape &t, const GenCfg &g);               // one to three expressions
std::string formatted(const std::vector<NP> &p, const std::function<std::string(const om::Val &)> &atom);   // what osc_expr_format gives for it
std::string print(const std::vector<NP> &p, uint64_t style);      // style 0: plainest form
om::Bndl genData(sim::Rng &r);                                    // bundle contents expressions work on

struct Res { int st = 0; bool null = false; std::vector<om::Val> v; std::string why; };   // st 0 value, 1 failure, 2 unspecified
Res eval(const NP &n, om::Bndl &b);
bool same(const std::vector<om::Val> &a, const std::vector<om::Val> &b);   // NaN equals NaN
bool same(const om::Bndl &a, const om::Bndl &b);
std::string text(const std::vector<om::Val> &v);
}
