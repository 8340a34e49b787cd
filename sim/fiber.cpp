#include "fiber.hpp"
#include <ucontext.h>
#include <sys/mman.h>
#include <cxxabi.h>
#include <cstdlib>
#include <cstdio>
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }
namespace sim {
namespace {
const std::size_t STACK = 8u << 20; enum { MAXF = 16 };
struct EhGlobals { void* caught; unsigned uncaught; };
struct Fiber { ucontext_t ctx; std::function<void()> f; bool started, done; EhGlobals eh; Violation v; bool violated, budget; Fiber() : started(false), done(false), violated(false), budget(false) { eh.caught = 0; eh.uncaught = 0; } };
void* g_stack[MAXF]; Fiber* g_f[MAXF]; int g_n = 0, g_cur = -1; ucontext_t g_main; EhGlobals g_maineh; Sched* g_s = 0;
volatile long g_countdown = 0; volatile bool g_allow[MAXF]; u64 g_blocks = 0;
EhGlobals* eh() { return reinterpret_cast<EhGlobals*>(__cxxabiv1::__cxa_get_globals()); }
void entry() {
    Fiber* f = g_f[g_cur];
    try { f->f(); } catch (Violation& e) { f->violated = true; f->v = e; } catch (BudgetExceeded&) { f->budget = true; }
    catch (std::exception& e) { f->violated = true; f->v.cls = "unexpected-exception"; f->v.msg = cat("client ", g_cur, ": unexpected exception: ", e.what()); }
    catch (...) { f->violated = true; f->v.cls = "unexpected-exception"; f->v.msg = cat("client ", g_cur, ": unexpected exception"); }
    f->done = true; f->eh = *eh(); *eh() = g_maineh; g_cur = -1; setcontext(&g_main);
}
void to_main() {
    Fiber* f = g_f[g_cur]; int me = g_cur; f->eh = *eh(); *eh() = g_maineh; g_cur = -1;
    swapcontext(&f->ctx, &g_main);
    g_cur = me; g_maineh = *eh(); *eh() = f->eh;
}
}
Sched::Sched(Run& rr) : r(rr), switches(0), max_switches(4000), quantum_max(0), policy(0), preempt(false) { for (int i = 0; i < g_n; ++i) delete g_f[i]; g_n = 0; g_cur = -1; g_s = this; for (int i = 0; i < MAXF; ++i) g_allow[i] = false; g_blocks = 0; }
Sched::~Sched() { for (int i = 0; i < g_n; ++i) delete g_f[i]; g_n = 0; g_s = 0; }
int Sched::add(std::function<void()> f) {
    if (g_n >= MAXF) std::abort();
    if (!g_stack[g_n]) { g_stack[g_n] = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mprotect(g_stack[g_n], 4096, PROT_NONE); }
    Fiber* x = new Fiber; x->f = std::move(f); getcontext(&x->ctx); x->ctx.uc_stack.ss_sp = g_stack[g_n]; x->ctx.uc_stack.ss_size = STACK; x->ctx.uc_link = 0; makecontext(&x->ctx, entry, 0); g_f[g_n] = x; return g_n++;
}
void Sched::run() {
    int last = -1;
    for (;;) {
        int live[MAXF], n = 0; for (int i = 0; i < g_n; ++i) if (!g_f[i]->done) live[n++] = i;
        if (!n) break;
        int next = live[0];
        if (n > 1 && switches < max_switches) {
            // simplest choice: keep the client that was running
            int order[MAXF], m = 0; for (int i = 0; i < n; ++i) if (live[i] == last) order[m++] = last; for (int i = 0; i < n; ++i) if (live[i] != last) order[m++] = live[i];
            next = order[r.pick(m)];
        } else if (n > 1) { next = live[0]; for (int i = 0; i < n; ++i) if (live[i] > last) { next = live[i]; break; } }     // beyond the recorded part: round robin
        if (preempt && n > 1 && switches < max_switches) { u64 q; switch (r.pick(3)) { case 0: q = quantum_max; break; case 1: q = 1 + r.pick(quantum_max); break; default: q = 1 + r.pick(quantum_max < 12 ? quantum_max : 12); } g_countdown = (long)q; } else g_countdown = 1l << 60;
        if (next != last) { ++switches; ++r.sim_steps; r.ev(next); }
        last = next; g_maineh = *eh(); g_cur = next; Fiber* f = g_f[next];
        if (!f->started) { f->started = true; *eh() = f->eh; swapcontext(&g_main, &f->ctx); }
        else swapcontext(&g_main, &f->ctx);
        if (f->done && (f->violated || f->budget)) { bool b = f->budget; Violation v = f->v; g_cur = -1; if (b) throw BudgetExceeded(); throw v; }
    }
}
int Sched::self() { return g_cur; }
bool Sched::active() { return g_cur >= 0; }
void Sched::yield() { if (g_cur >= 0) to_main(); }
u64 Sched::blocks() { return g_blocks; }
Preemptible::Preemptible() : me(g_cur), was(me >= 0 && g_allow[me]) { if (me >= 0) g_allow[me] = true; } Preemptible::~Preemptible() { if (me >= 0) g_allow[me] = was; }
}
extern "C" void __sanitizer_cov_trace_pc() {
    using namespace sim;
    if (g_cur < 0) return;
    if (!g_allow[g_cur]) return;
    ++g_blocks;
    if (--g_countdown <= 0) { g_countdown = 1l << 60; to_main(); }
}
// Initialisation guards of function-local statics: a client that meets a guard held by
// another client waits by yielding (as a thread would block).
extern "C" int __cxa_guard_acquire(unsigned char* g) {
    for (;;) { if (g[0]) return 0; if (!g[1]) { g[1] = 1; return 1; } if (!sim::Sched::active()) std::abort(); sim::Sched::yield(); }
}
extern "C" void __cxa_guard_release(unsigned char* g) { g[0] = 1; g[1] = 0; }
extern "C" void __cxa_guard_abort(unsigned char* g) { g[1] = 0; }
