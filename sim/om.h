// Independent OSC model: values, messages, bundles, wire codec; builders and readers for libo objects.
#pragma once
#include "core.h"
#include <memory>
extern "C" {
#include "osc.h"
#include "osc_mem.h"
#include "osc_error.h"
#include "osc_atom_u.h"
#include "osc_atom_s.h"
#include "osc_array.h"
#include "osc_atom_array_u.h"
#include "osc_atom_array_s.h"
#include "osc_message_u.h"
#include "osc_message_s.h"
#include "osc_message_iterator_u.h"
#include "osc_message_iterator_s.h"
#include "osc_bundle_u.h"
#include "osc_bundle_s.h"
#include "osc_bundle_iterator_u.h"
#include "osc_bundle_iterator_s.h"
#include "osc_timetag.h"
#include "osc_typetag.h"
#include "osc_strfmt.h"
#include "osc_util.h"
}
namespace om {
using sim::Rng;
struct Bndl;
typedef std::shared_ptr<Bndl> BP;
// i: integers (all widths, already truncated to the type), f: float/double, s: string or blob bytes, t: i holds 64 bits
struct Val {
	char t = 'N';
	int64_t i = 0;
	double f = 0;
	std::string s;
	BP b;
	static Val I(char t, int64_t v);
	static Val F(char t, double v);
	static Val S(const std::string &s) { Val v; v.t = 's'; v.s = s; return v; }
	static Val Blob(const std::string &s) { Val v; v.t = 'b'; v.s = s; return v; }
	static Val T(uint64_t tt) { Val v; v.t = 't'; v.i = (int64_t)tt; return v; }
	static Val B(const Bndl &b);
	static Val Tag(char t) { Val v; v.t = t; return v; }
	bool isInt() const;
};
struct Msg {
	std::string addr;
	std::vector<Val> v;
	Msg() {}
	Msg(const std::string &a, std::vector<Val> x = {}) : addr(a), v(std::move(x)) {}
};
struct Bndl {
	uint64_t tt = 0;
	std::vector<Msg> m;
};
bool operator==(const Val &, const Val &);
bool operator==(const Msg &, const Msg &);
bool operator==(const Bndl &, const Bndl &);
inline bool operator!=(const Val &a, const Val &b) { return !(a == b); }
inline bool operator!=(const Msg &a, const Msg &b) { return !(a == b); }
inline bool operator!=(const Bndl &a, const Bndl &b) { return !(a == b); }

std::string be32(uint32_t v);
std::string be64(uint64_t v);
uint32_t rd32(const std::string &s, size_t o);
uint64_t rd64(const std::string &s, size_t o);
std::string pad(const std::string &s);                 // OSC string: NUL-terminated, padded to 4
std::string enc(const Val &v);
std::string encMsg(const Msg &m);                      // without the size
std::string enc(const Bndl &b);
bool decMsg(const std::string &s, Msg &out, std::string &why);
bool dec(const std::string &s, Bndl &out, std::string &why);   // strict
std::string text(const Val &v);
std::string text(const Msg &m);
std::string text(const Bndl &b);
std::string tags(const Msg &m);

// random material
struct GenOpt {
	int depth = 2;            // nesting of bundles
	bool blobs = true, nested = true, timetags = true, strings = true;
	int maxArgs = 4, maxMsgs = 4;
	bool patterns = false;
	bool plainStrings = false;
	bool longAddr = false;
	bool bulk = true;         // now and then a bundle of very many messages
	bool nestedTime = false;  // nested/outer bundles carry time tags
};
extern bool g_noBulk;         // threads keep to small bundles: every access of theirs is a scheduling point
int64_t genInt(Rng &r, char t);
double genFloat(Rng &r, char t);
std::string genStr(Rng &r, bool plain);
std::string genAddr(Rng &r);
Val genVal(Rng &r, const GenOpt &o);
Msg genMsg(Rng &r, const GenOpt &o);
Bndl genBndl(Rng &r, const GenOpt &o);

// reference OSC pattern matching: 0 none, 1 address used up, 2 pattern used up, 3 both
int match(const std::string &pattern, const std::string &address, size_t *po = nullptr, size_t *ao = nullptr);
std::string genPattern(Rng &r, const std::string &base);     // a well-formed pattern related to an address
std::string genBadPattern(Rng &r, const std::string &base);

// values and messages packed in plan operations
std::vector<int64_t> packA(const Val &v);
std::string packS(const Val &v);
bool unpack(int64_t t, int64_t i, const std::string &s, Val &out);     // false: not a value (a minimised plan)
bool unpackVal(const sim::Op &o, size_t at, Val &out);
bool unpackBndl(const std::string &s, Bndl &out, bool keepTime);
bool unpackMsg(const std::string &s, Msg &out);
void dropTime(Bndl &b);

// libo side
t_osc_timetag toTT(uint64_t v);
uint64_t fromTT(t_osc_timetag t);
void setAtom(t_osc_atom_u *a, const Val &v);                 // overwrite an existing atom
void setAtomS(t_osc_atom_s *a, const Val &v);               // any type but blobs and bundles; strings: only into memory that holds them
t_osc_atom_u *newAtom(const Val &v);
void addVal(t_osc_msg_u *m, const Val &v, int how = 0);      // append through the typed calls
t_osc_atom_u *putVal(t_osc_msg_u *m, const Val &v, int where, int pos);  // where 0 append, 1 prepend, 2 insert at pos
t_osc_msg_u *toMsgU(const Msg &m, int how = 0);
t_osc_bndl_u *toBndlU(const Bndl &b, int how = 0);
Val fromAtomU(t_osc_atom_u *a);
Val fromAtomS(t_osc_atom_s *a);
Msg fromMsgU(t_osc_msg_u *m);
Msg fromMsgS(t_osc_msg_s *m);
Bndl fromBndlU(t_osc_bndl_u *b);
bool fromBytes(long len, const char *p, Bndl &out, std::string &why);   // independent decode
}
