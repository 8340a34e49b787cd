// P09: distributions stay in their support and make progress on hostile entropy.
#include "dist.hpp"
using namespace sim;
namespace {
// value classification of one draw under one tape
void one(Run& r, const DistSpec& sp, IDist& d, const V& p, const IParam* ip, Tape& t, u64& at, int kind, bool fair_required) {
    Reader rd(t, at); rd.budget = 20000; Val x; x.n = 0;
    try { x = ip ? d.draw_p(rd, kind, *ip) : d.draw(rd, kind); }
    catch (BudgetExceeded&) {
        at = rd.idx; SIM_PROBE("budget exhausted"); r.ev(77);
        if (fair_required && kind_bits[kind] >= 24) r.fail("no-progress", cat(sp.name, show(p), " on ", kind_name[kind], ": a draw did not finish within ", rd.budget, " entropy values after the source recovered"));
        return;
    }
    at = rd.idx; r.ev(x.hash(), rd.idx);
    if (!inside(sp.fam, p, x, sp.num)) r.fail("outside-support", cat(sp.name, show(p), " on ", kind_name[kind], ": delivered ", x.str()));
    for (ld y : x.v) if (std::isinf((double)y) && finite_law(sp, p)) r.fail("infinite", cat(sp.name, show(p), " on ", kind_name[kind], ": delivered ", x.str()));
    if (!(sp.flags & D_NOMINMAX)) {
        ld lo = d.min_v().v[0], hi = d.max_v().v[0];
        if (!ip && (x.v[0] < lo || x.v[0] > hi)) r.fail("outside-minmax", cat(sp.name, show(p), " on ", kind_name[kind], ": delivered ", x.str(), ", min() is ", lo, ", max() is ", hi));
    }
}
void hostile(Run& r) {
    const DistSpec& sp = r.among(dists()); r.sig(name_hash(sp.name));
    unsigned np = 1 + (unsigned)r.pick(3); std::unique_ptr<IDist> d(sp.make()), proto(sp.make()); std::unique_ptr<IParam> ip;
    for (unsigned k = 0; k < np; ++k) {
        V p; gen_params(r, sp.fam, r.pick(2) ? L_WIDE : L_MODERATE, sp.num, p); int kind = (int)r.pick(NKINDS); r.step(cat(sp.name, show(p), " on ", kind_name[kind])); r.sig(kind);
        ip.reset(proto->make_param(p)); if (r.pick(2)) d->set(*ip); else d.reset(proto->make_vals(p));
        unsigned nt = 1 + (unsigned)r.pick(4);
        for (unsigned z = 0; z < nt; ++z) {
            Tape t = Tape::hostile(r); u64 at = 0; bool ex = r.chance(0.2); u64 n = 1 + r.pick(6);
            for (u64 q = 0; q < n; ++q) one(r, sp, *d, p, ex ? ip.get() : 0, t, at, kind, true);
        }
    }
}
// one extreme word dropped into the middle of otherwise ordinary entropy, at every position of a draw
void single_spike(Run& r) {
    const DistSpec& sp = r.among(dists()); r.sig(name_hash(sp.name));
    std::unique_ptr<IDist> d(sp.make()), proto(sp.make());
    V p; gen_params(r, sp.fam, r.pick(2) ? L_WIDE : L_MODERATE, sp.num, p); int kind = (int)r.pick(NKINDS); r.step(cat(sp.name, show(p), " on ", kind_name[kind])); r.sig(kind);
    d.reset(proto->make_vals(p)); u64 seed = r.pick64(); static const EntKind ks[] = { ENT_MIN, ENT_MAX, ENT_NEARMIN, ENT_NEARMAX, ENT_CONST, ENT_SLOW };
    EntKind ek = ks[r.pick(6)]; u64 c = r.pick64(), len = 1 + r.pick(3), reach = 2 + r.pick(12);
    for (u64 at = 0; at < reach; ++at) {
        Tape t; t.seed = seed; t.segs.push_back(Seg{ ENT_FAIR, at, 0 }); t.segs.push_back(Seg{ ek, len, c }); SIM_FAULT("entropy-spike"); u64 pos = 0; r.sig(ek);
        one(r, sp, *d, p, 0, t, pos, kind, true); one(r, sp, *d, p, 0, t, pos, kind, true);
    }
}
// an engine that delivers one value forever, and then recovers; and long fair service (no value may ever leave the support)
void stuck_engine(Run& r) {
    const DistSpec& sp = r.among(dists()); r.sig(name_hash(sp.name)); std::unique_ptr<IDist> d(sp.make()), proto(sp.make());
    V p; gen_params(r, sp.fam, r.pick(2) ? L_WIDE : L_MODERATE, sp.num, p); int kind = (int)r.pick(NKINDS); r.step(cat(sp.name, show(p), " on ", kind_name[kind], ", stuck engine")); r.sig(kind);
    d.reset(proto->make_vals(p)); Tape t; t.seed = r.pick64(); static const EntKind ks[] = { ENT_MIN, ENT_MAX, ENT_CONST, ENT_ALT, ENT_NEARMAX, ENT_NEARMIN };
    t.segs.push_back(Seg{ ks[r.pick(6)], 200 + r.pick(3000), r.pick64() }); SIM_FAULT("entropy-stuck-long"); u64 at = 0;
    for (int q = 0; q < 3; ++q) one(r, sp, *d, p, 0, t, at, kind, true);
    u64 n = 20 + r.pick(400); Tape f(r.pick64()); at = 0; for (u64 q = 0; q < n; ++q) one(r, sp, *d, p, 0, f, at, kind, true);
}
}
int main(int argc, char** argv) {
    CheckInfo c; c.property = "P09";
    c.technique_rule = "One case is one seeded simulation of a distribution with generated parameters (moderate to extreme within the documented domain) served by one of twelve engine shapes whose output is under fault injection: stuck at minimum, maximum or a constant, alternating extremes, bursts near the ends, single spikes at each position of a draw, then recovery. Every delivered value is checked for NaN, support and min()/max(), and each draw must end within 20000 entropy values after recovery. Every case draws; cases are distinct when their shape signature differs.";
    c.worlds = { { "hostile-entropy", hostile, 4 }, { "single-spike", single_spike, 3 }, { "stuck-engine", stuck_engine, 1 } };
    c.real = { "all distributions of boost/random (91 instantiations) and the helpers beneath them" };
    c.stub = { "engines (entropy tapes in twelve result types and ranges)" };
    c.assumptions = { "progress is only demanded of engines with at least 24 bits per value" };
    c.quick_runs = 40000000; c.thorough_runs = 4000000000ull; c.quick_secs = 50; c.thorough_secs = 1500;
    return run_main(argc, argv, c);
}
