// P02: engines follow their published recurrence through any history.
#include "hist.hpp"
using namespace sim;
namespace {
void cluster(Run& r) {
    static unsigned long long thr[] = { 10000000ull, 100, 3000 };
    sim_mt_threshold = thr[r.pick(3)];
    unsigned nn = 1 + (unsigned)r.pick(2);
    std::vector<std::unique_ptr<Hist> > nodes;
    for (unsigned k = 0; k < nn; ++k) {
        nodes.emplace_back(new Hist(r, pick_engine(r), 1 + (unsigned)r.pick(3)));
        Hist& h = *nodes.back();
        if (h.s[0].m->min() != h.s[0].e->min_v() || h.s[0].m->max() != h.s[0].e->max_v()) if (!(h.spec.flags & ENG_REAL)) r.fail("range", cat(h.spec.name, ": min()/max() are ", h.s[0].e->min_v(), "/", h.s[0].e->max_v(), ", documented ", h.s[0].m->min(), "/", h.s[0].m->max()));
    }
    unsigned ops = 2 + (unsigned)r.pick(26);
    for (unsigned o = 0; o < ops; ++o) {
        Hist& h = *nodes[r.pick(nn)]; unsigned i = (unsigned)r.pick(h.s.size());
        switch (r.pick(14)) {
        case 0: case 1: case 2: case 3: h.ensure(i); h.draw(i, h.burst()); break;
        case 4: h.ensure(i); h.discard(i, h.discard_amount()); break;
        case 5: case 6: h.ensure(i); h.bulk(i, r.size_biased(h.spec.state < 700 ? 900 : 60)); break;
        case 7: case 8: case 9: h.reseed(i, true); break;
        case 10: { unsigned j = (unsigned)r.pick(h.s.size()); h.copy(i, j); break; }
        case 11: h.carry_over(i, (unsigned)r.pick(h.s.size()), StreamCfg::random(r)); break;
        case 12: h.spoiled_load(i); h.reseed(i, r.chance(0.3)); break;
        default: { h.ensure(i); SIM_FAULT("client-crash"); r.step(cat("#", i, " destroyed and replaced")); h.s[i].e.reset(h.spec.make()); h.s[i].m.reset(h.spec.model()); h.s[i].id = 0; h.s[i].pos = 0; if (r.pick(2)) h.reseed(i, true); }
        }
    }
    for (auto& h : nodes) for (unsigned b = 0; b < h->s.size(); ++b) { h->ensure(b); h->draw(b, r.chance(0.2) ? h->spec.state + 5 : 3 + r.pick(12)); }
}
}
int main(int argc, char** argv) {
    CheckInfo c; c.property = "P02";
    c.technique_rule = "One case is one seeded simulation: 1-2 engine types with up to three objects each, put through a scheduled mix of seeding in every form (including sources that throw or run dry), draws, discards, bulk generation, copies, moves, swaps, checkpoint restores, restores from truncated/damaged/failing input followed by re-seeding, and client crashes; every drawn value is compared with an independent model of the published recurrence. Every case draws values; two cases are distinct when their shape signature (engine types, operation kinds, faults) differs.";
    c.worlds = { { "engine-cluster", cluster, 1 } };
    c.real = { "all engines and adaptors of boost/random (57 instantiations, incl. every predefined engine)", "seed_seq, seeding helpers, bulk generation, stream operators" };
    c.stub = { "seed sources (sequence, range)", "checkpoint streams", "allocator contents" };
    c.assumptions = { "reference models in sim/ref.hpp are correct", "an engine whose seed or restore failed is only re-seeded, restored, assigned or destroyed, not drawn from" };
    c.quick_runs = 4000000; c.thorough_runs = 400000000; c.quick_secs = 60; c.thorough_secs = 1500;
    return run_main(argc, argv, c);
}
