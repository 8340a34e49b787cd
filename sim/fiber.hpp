// Cooperative fibers under the simulator's scheduler: client threads of the simulated
// process.  A seeded choice picks the next client and how long it may run; instrumented
// code is preempted at any basic block (see preempt_quantum), seams yield explicitly.
#ifndef SIM_FIBER_HPP
#define SIM_FIBER_HPP
#include "core.hpp"
#include <functional>
namespace sim {
struct Sched {
    Run& r; u64 switches, max_switches, quantum_max; int policy; bool preempt;
    explicit Sched(Run& rr);
    ~Sched();
    int add(std::function<void()> f);
    void run();                        // until every fiber has finished; rethrows the first Violation
    static int self();                 // index of the running fiber, -1 outside
    static bool active();
    static void yield();               // a seam blocks: somebody else may run
    static u64 blocks();               // basic blocks executed under instrumentation
};
// while one of these is alive in a fiber, instrumented code it runs may be preempted
struct Preemptible { int me; bool was; Preemptible(); ~Preemptible(); };
}
#endif
