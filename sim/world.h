// The broad API program and the plans of the other scenarios, for the properties that replay whole histories.
#pragma once
#include "core.h"
namespace world {
void gen(sim::Rng &r, sim::Plan &p, int tier);
void run(const sim::Plan &p, sim::Ctx &c);
std::string genSub(sim::Rng &r, sim::Plan &p, int tier, const std::vector<int> &which);
void runSub(const sim::Plan &p, sim::Ctx &c);
const char *subName(int64_t k);
void warm();               // builds the tables the library keeps once they are built
bool isDocs(int64_t k);    // the workload that reads them
}
