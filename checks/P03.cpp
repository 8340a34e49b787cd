// P03: discard(z) is exactly z draws, from any state.
#include "hist.hpp"
using namespace sim;
namespace {
void warm(Run& r, Hist& h, unsigned i, unsigned n) {
    for (unsigned k = 0; k < n; ++k) switch (r.pick(6)) {
        case 0: case 1: h.draw(i, h.burst()); break; case 2: h.discard(i, h.discard_amount()); break;
        case 3: h.bulk(i, r.pick(60)); break; case 4: h.reseed(i, false); break; default: h.carry_over(i, i, StreamCfg::random(r)); }
}
u64 jump_size(Run& r, const Hist& h) {
    // sizes far beyond what could be drawn one by one
    switch (r.pick(5)) { case 0: return r.pick64(); case 1: return ~0ull - r.pick(3); case 2: return 1ull << r.range(16, 63); case 3: return (1ull << r.range(16, 62)) + r.pick(h.spec.state + 3); default: return r.pick(1ull << 40); }
}
// the same seeded sequence advanced by two routes
void routes(Run& r) {
    static unsigned long long thr[] = { 100, 10000000ull, 1, 1500 };
    const EngSpec& sp = pick_engine(r);
    sim_mt_threshold = sp.state > 20 && (sp.flags & ENG_MT) && !r.chance(0.3) ? 10000000ull : thr[r.pick(4)];
    Hist h(r, sp, 2);
    h.reseed(0, false); warm(r, h, 0, (unsigned)r.pick(5));
    bool far = h.s[0].m->can_jump() && ((sp.flags & ENG_FASTJUMP) || (!std::strncmp(sp.name, "mt521", 5) && sim_mt_threshold <= 10000000ull)) && r.chance(0.5);
    unsigned legs = 1 + (unsigned)r.pick(4);
    for (unsigned l = 0; l < legs; ++l) {
        h.s[1].e.reset(h.s[0].e->clone()); h.s[1].m.reset(h.s[0].m->clone()); h.s[1].known = true; h.s[1].pos = h.s[0].pos; h.s[1].id = h.s[0].id;
        if (far && r.chance(0.6)) {
            u64 z = jump_size(r, h), cut = r.pick(z); SIM_PROBE("jump of up to 2^64 compared with the model");
            if (!(sp.flags & ENG_FASTJUMP) && z < 20000000) z += 20000000;
            h.discard(0, z); h.probe(0, h.probe_len(), "jump-differs", cat("after discard(", z, ")"));
            if (!(sp.flags & ENG_FASTJUMP) && cut < 20000000) cut = 20000000;
            if (z - cut > z) cut = 0;
            if (!(sp.flags & ENG_FASTJUMP) && z - cut < 20000000) { if (z - cut > 200000) cut = z; }
            h.discard(1, cut); h.discard(1, z - cut);
            if (!h.s[0].e->eq(*h.s[1].e)) r.fail("discards-do-not-add", cat(sp.name, ": discard(", cut, ") then discard(", z - cut, ") differs from discard(", z, ")"));
        } else {
            u64 z = h.discard_amount();
            h.discard(0, z);
            u64 left = z; unsigned parts = 0;
            while (left) {       // the other route: draws, smaller discards and restores in any mix
                u64 k = parts++ > 6 ? left : r.pick(left + 1); if (k == 0 && parts > 3) k = left;
                switch (r.pick(5)) { case 0: case 1: h.draw(1, k); break; case 2: case 3: h.discard(1, k); break; default: h.carry_over(1, 1, StreamCfg::random(r)); h.draw(1, k); }
                left -= k;
            }
            if (!h.s[0].e->eq(*h.s[1].e) || h.s[0].e->ne(*h.s[1].e)) r.fail("discard-state-differs", cat(sp.name, ": discard(", z, ") and the same number of single draws/smaller discards end in engines that compare different"));
            h.probe(0, h.probe_len(), "discard-differs", cat("after discard(", z, ")"));
            SIM_PROBE("discard compared with draws");
        }
        if (r.pick(2)) h.draw(0, h.burst());
    }
}
// an independent client skips ahead to stay in step with a producer, across restarts
void follower(Run& r) {
    const EngSpec& sp = pick_engine(r, 20000);
    sim_mt_threshold = (sp.flags & ENG_MT) && r.chance(0.1) ? 60 : 10000000ull;
    Hist h(r, sp, 2); h.reseed(0, false);
    std::string start = h.save_text(0, StreamCfg()); std::unique_ptr<ref::Model> m0(h.s[0].m->clone()); u64 pos0 = h.s[0].pos;
    u64 published = 0; unsigned ops = 1 + (unsigned)r.pick(8);
    for (unsigned o = 0; o < ops; ++o) {
        u64 b = r.pick(2) ? h.burst() : h.discard_amount(); if (r.pick(2)) h.draw(0, b); else h.discard(0, b); published += b;
        if (r.chance(0.5)) {        // the follower crashed: restore the original checkpoint and skip
            SIM_FAULT("follower-crash"); r.step(cat("follower restarts from the initial checkpoint and skips ", published));
            with_in(StreamCfg(), start, [&](auto& is) { h.s[1].e->load(is); if (is.fail()) r.fail("restore-fails", "follower could not read the checkpoint"); });
            h.s[1].m.reset(m0->clone()); h.s[1].known = true; h.s[1].pos = pos0;
            h.discard(1, published);
            if (!h.s[0].e->eq(*h.s[1].e)) r.fail("follower-lost", cat(sp.name, ": restore + discard(", published, ") does not catch up with ", published, " draws"));
            h.probe(1, h.probe_len(), "follower-differs", "follower after skipping");
        }
    }
}
}
int main(int argc, char** argv) {
    CheckInfo c; c.property = "P03";
    c.technique_rule = "One case is one seeded simulation of one engine type: a random history brings the engine to an arbitrary internal position, then discard(z) is compared with draws, with splits of z into smaller discards/draws/restores, with the reference model, and (for engines that can jump) with an exact algebraic jump for z up to 2^64-1; crashed followers restart from old checkpoints and skip ahead. Every case performs at least one discard; cases are distinct when their shape signature differs.";
    c.worlds = { { "two-routes", routes, 3 }, { "follower", follower, 1 } };
    c.real = { "all engines and adaptors of boost/random", "detail/polynomial.hpp jump-ahead of mersenne_twister (threshold lowered through its own macro)" };
    c.stub = { "seed sources", "checkpoint streams" };
    c.assumptions = { "reference models in sim/ref.hpp are correct; GF(2) matrix powers give the exact jump of a 521-bit mersenne_twister; larger mersenne_twister jumps are compared with stepping" };
    c.quick_runs = 4000000; c.thorough_runs = 400000000; c.quick_secs = 60; c.thorough_secs = 1500;
    return run_main(argc, argv, c);
}
