#pragma once
#include "core.h"
namespace sim {
enum { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_ERROR = 3 };
enum { MAXCOUNTERS = 256, EDGEMAX = 1 << 16 };
static const uint64_t SETBITS = 1ull << 27;
struct Slot {
	volatile int state;
	char sig[160];
	char detail[4096];
	uint64_t trace, ops, simtime, edges, opi, pc;
	int nontriv;
};
struct Counter { int state; char name[60]; uint64_t n; };
struct Shared {
	volatile int stop;
	uint64_t nstates, nplans, nedges;
	Counter faults[MAXCOUNTERS], probes[MAXCOUNTERS];
	unsigned char edges[EDGEMAX];
	uint32_t edgepc[EDGEMAX];                // offset in the executable, for the coverage listing
	unsigned char states[SETBITS / 8];
	unsigned char plans[SETBITS / 8];
	unsigned char traces[SETBITS / 8];
};
extern Shared *g_sh;
extern Slot *g_slot;
extern Ctx *g_ctx;
extern bool g_symbolize;
std::string resolvePcs(const std::string &s);
bool bitsetInsert(unsigned char *bits, uint64_t h);
void prepareRuns();                              // this process only forks runs from here on
void runPlan(const Plan &p, const Scenario &s, Slot *slot);
}
