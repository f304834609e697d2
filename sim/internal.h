#ifndef SIM_INTERNAL_H
#define SIM_INTERNAL_H
#include "sim.h"
namespace sim {
extern bool in_run;
extern uint64_t steps_;
void step();
const Scenario* scenario();
}
namespace world { void init_process(); }
namespace sched { void blocked(); bool on_stack(const void* p); }
#endif
