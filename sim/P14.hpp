#include "core.hpp"
#include "scr.hpp"
void wrappers14(sim::Run&);
struct PlanScope { sim::scr::Plan p; PlanScope() { sim::scr::plan = &p; } ~PlanScope() { sim::scr::plan = 0; } };
