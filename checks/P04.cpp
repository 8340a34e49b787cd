// P04: equal engines are interchangeable; equal histories compare equal.
#include "hist.hpp"
#include <cctype>
using namespace sim;
namespace {
struct W {
    Run& r; Hist& h; const EngSpec& sp;
    W(Run& run, Hist& hist) : r(run), h(hist), sp(hist.spec) {}
    // the verdict of == must be supported by the futures; != must be its negation; both symmetric
    void judge(unsigned i, unsigned j, bool must_be_equal, const std::string& how) {
        const IEng& a = *h.s[i].e; const IEng& b = *h.s[j].e;
        bool e = a.eq(b), e2 = b.eq(a), n = a.ne(b), n2 = b.ne(a);
        r.ev(e); r.sig(e);
        if (e != e2 || n != n2) r.fail("asymmetric", cat(sp.name, ": == or != is not symmetric (", how, ")"));
        if (e == n) r.fail("ne-not-negation", cat(sp.name, ": != is not the negation of == (", how, ")"));
        if (!a.eq(a) || a.ne(a)) r.fail("not-reflexive", cat(sp.name, ": an engine does not compare equal to itself (", how, ")"));
        if (must_be_equal && !e) r.fail("equal-history-unequal", cat(sp.name, ": engines at the same point of the same sequence compare different (", how, ")"));
        if (e) {
            std::unique_ptr<IEng> x(a.clone()), y(b.clone()); u64 L = h.s[0].m->lookahead(); if (L > 60000) L = 60000;
            for (u64 k = 0; k < L; ++k) { u64 p = x->draw(), q = y->draw(); if (p != q && !h.canonical_equal(p, q)) r.fail("equal-engines-diverge", cat(sp.name, ": engines compared equal but draw ", k, " differs: ", p, " / ", q, " (", how, ")")); }
            r.sim_steps += 2 * L;
            if (x->ne(*y)) r.fail("equal-engines-drift", cat(sp.name, ": equal engines no longer compare equal after the same number of draws (", how, ")"));
            SIM_PROBE("equal pair: futures verified");
        } else SIM_PROBE("unequal pair judged");
    }
};
// bring slot `to` to the point slot `from` is at, by another route
void other_routes(Run& r) {
    const EngSpec& sp = pick_engine(r); sim_mt_threshold = (sp.flags & ENG_MT) && sp.state < 20 ? 100 : 10000000ull;
    Hist h(r, sp, 3); W w(r, h);
    h.reseed(0, false); h.s[1].e.reset(h.s[0].e->clone()); h.s[1].m.reset(h.s[0].m->clone()); h.s[1].known = true;
    u64 at[2] = { 0, 0 }; unsigned ops = 1 + (unsigned)r.pick(10);
    for (unsigned o = 0; o < ops; ++o) {
        unsigned i = (unsigned)r.pick(2);
        switch (r.pick(8)) {
        case 0: case 1: case 2: { u64 n = h.burst(); h.draw(i, n); at[i] += n; break; }
        case 3: { u64 n = h.discard_amount(); h.discard(i, n); at[i] += n; break; }
        case 4: h.carry_over(i, i, StreamCfg::random(r)); break;
        case 5: { r.step(cat("#", i, " travels through copy and move")); r.sig(71); std::unique_ptr<IEng> t(h.s[i].e->clone()); h.s[i].e->move_assign(*t); break; }
        case 6: { r.step("swap with a third engine and back"); r.sig(72); h.s[i].e->swap(*h.s[2].e); h.s[2].e->draw(); h.s[i].e->swap(*h.s[2].e); at[i] += 1; h.s[i].m->next(); break; }
        default: if (at[0] == at[1]) w.judge(0, 1, true, "same number of draws"); else w.judge(0, 1, false, cat(at[0], " against ", at[1], " draws"));
        }
    }
    unsigned lag = at[0] < at[1] ? 0 : 1; u64 d = at[1 - lag] - at[lag];
    // stop just short first: engines one apart must not be taken for equal
    if (d > 1 && r.pick(2)) { if (r.pick(2)) h.draw(lag, d - 1); else h.discard(lag, d - 1); w.judge(0, 1, false, "one draw apart"); d = 1; }
    if (r.pick(2)) h.draw(lag, d); else h.discard(lag, d);
    w.judge(0, 1, true, "after different routes to the same point");
    if (r.pick(2)) { h.bulk(0, 1 + r.pick(40)); h.s[1].e->assign(*h.s[0].e); w.judge(0, 1, true, "after assignment"); }
    // interchangeable: a checkpoint of one restores the other
    if (r.pick(2)) { std::string t = h.save_text(0, StreamCfg()); with_in(StreamCfg(), t, [&](auto& is) { h.s[2].e->load(is); if (is.fail()) r.fail("restore-fails", sp.name); }); w.judge(2, 1, true, "checkpoint of an equal engine"); }
    // a copy is independent of its origin
    h.s[2].e.reset(h.s[0].e->clone()); h.s[2].e->draw(); h.s[2].e->draw(); w.judge(0, 1, true, "after drawing from a copy");
}
// states differing in a single component, made from checkpoints
void near_misses(Run& r) {
    const EngSpec& sp = pick_engine(r, 5000); sim_mt_threshold = 10000000ull;
    Hist h(r, sp, 2); W w(r, h);
    h.reseed(0, false); unsigned warm = (unsigned)r.pick(3);
    for (unsigned k = 0; k < warm; ++k) if (r.pick(2)) h.draw(0, h.burst()); else h.discard(0, h.discard_amount());
    std::string text = h.save_text(0, StreamCfg());
    unsigned tries = 1 + (unsigned)r.pick(6);
    for (unsigned t = 0; t < tries; ++t) {
        std::vector<std::pair<std::size_t, std::size_t> > tok;      // digit runs
        for (std::size_t p = 0; p < text.size();) { if (std::isdigit((unsigned char)text[p])) { std::size_t q = p; while (q < text.size() && std::isdigit((unsigned char)text[q])) ++q; tok.push_back({ p, q }); p = q; } else ++p; }
        if (tok.empty()) return;
        std::size_t k; switch (r.pick(4)) { case 0: k = tok.size() - 1; break; case 1: k = 0; break; case 2: k = tok.size() - 1 - r.pick(tok.size() < 4 ? tok.size() : 4); break; default: k = r.pick(tok.size()); }
        std::string s = text.substr(tok[k].first, tok[k].second - tok[k].first), n; u64 v = std::strtoull(s.c_str(), 0, 10);
        if (tok.size() > 1 && r.chance(0.25)) {     // exchange two neighbouring components instead
            std::size_t q = k ? k - 1 : 1; std::size_t lo = k < q ? k : q, hi = k < q ? q : k;
            std::string a = text.substr(tok[lo].first, tok[lo].second - tok[lo].first), b = text.substr(tok[hi].first, tok[hi].second - tok[hi].first);
            n = text.substr(0, tok[lo].first) + b + text.substr(tok[lo].second, tok[hi].first - tok[lo].second) + a + text.substr(tok[hi].second);
            if (a == b) continue; r.sig(81);
        } else { u64 nv = v > 1 ? (v > 4 && r.chance(0.3) ? v - 1 - r.pick(v < 1000 ? v - 2 : 1000) : v - 1) : v ^ 1; n = text.substr(0, tok[k].first) + str(nv) + text.substr(tok[k].second); r.sig(82); }
        r.step(cat("component ", k, " of ", tok.size(), " changed in a checkpoint"));
        bool ok = true; with_in(StreamCfg(), n, [&](auto& is) { h.s[1].e->load(is); ok = !is.fail(); });
        if (!ok) { SIM_PROBE("altered checkpoint rejected"); h.s[1].e->seed(); continue; }
        SIM_FAULT("checkpoint-component-altered"); w.judge(0, 1, false, cat("checkpoints differing in component ", k, " of ", tok.size()));
        if (!h.s[0].e->eq(*h.s[1].e)) {      // the difference must also survive further identical draws, unless the futures are identical
            u64 d = r.pick(2) ? r.pick(6) : h.burst(); std::unique_ptr<IEng> a(h.s[0].e->clone()), b(h.s[1].e->clone());
            for (u64 z = 0; z < d; ++z) { a->draw(); b->draw(); }
            if (a->eq(*b)) { u64 L = h.s[0].m->lookahead(); for (u64 z = 0; z < L; ++z) { u64 p = a->draw(), q = b->draw(); if (p != q && !h.canonical_equal(p, q)) r.fail("equal-engines-diverge", cat(sp.name, ": engines compared equal after ", d, " draws but draw ", z, " from there differs")); } }
        }
    }
}
// many engines of one seeded family, compared pairwise
void family(Run& r) {
    const EngSpec& sp = pick_engine(r, 1300); sim_mt_threshold = 10000000ull;
    unsigned n = 2 + (unsigned)r.pick(3); Hist h(r, sp, n); W w(r, h);
    SeedWords sw = SeedWords::random(r); u64 base = h.rand_seed_value();
    std::vector<u64> seedv(n), at(n);
    for (unsigned i = 0; i < n; ++i) {
        seedv[i] = r.pick(3) ? base : base + r.pick(3); SimSeq q(sw);
        bool seq = sw.style == 0 && false; (void)seq;
        if (r.pick(2)) h.s[i].e->seed(seedv[i]); else h.s[i].e.reset(h.s[i].e->make_int(seedv[i]));
        h.s[i].m->seed(seedv[i]); at[i] = 0; r.step(cat("#", i, " seeded with ", seedv[i]));
    }
    unsigned ops = (unsigned)r.pick(10);
    for (unsigned o = 0; o < ops; ++o) { unsigned i = (unsigned)r.pick(n); u64 k = r.pick(3) ? r.pick(5) : h.burst(); if (r.pick(2)) h.draw(i, k); else h.discard(i, k); at[i] += k; if (r.chance(0.2)) h.carry_over(i, i, StreamCfg()); }
    for (unsigned i = 0; i < n; ++i) for (unsigned j = i + 1; j < n; ++j) w.judge(i, j, seedv[i] == seedv[j] && at[i] == at[j], cat("seed ", seedv[i], " after ", at[i], " against seed ", seedv[j], " after ", at[j]));
}
}
int main(int argc, char** argv) {
    CheckInfo c; c.property = "P04";
    c.technique_rule = "One case is one seeded simulation over a population of engines of one type: engines are moved to the same point by different scheduled routes (draws, discards, bulk, restores, moves, swaps), to points one draw apart, or to states differing in one checkpoint component; every verdict of == and != is judged against the futures of both engines. Every case judges at least one pair; cases are distinct when their shape signature differs.";
    c.worlds = { { "other-routes", other_routes, 3 }, { "near-misses", near_misses, 2 }, { "family", family, 1 } };
    c.real = { "all engines and adaptors of boost/random: ==, !=, stream operators, draws, discard" };
    c.stub = { "seed sources", "checkpoint text (altered in one component)" };
    c.assumptions = { "futures are compared over the number of draws that determine the state" };
    c.quick_runs = 4000000; c.thorough_runs = 400000000; c.quick_secs = 50; c.thorough_secs = 1500;
    return run_main(argc, argv, c);
}
