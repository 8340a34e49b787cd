// P13: quasi-random generators: exact sequence, skip, restore and exhaustion.
#include "qrng.hpp"
#include "io.hpp"
#include <stdexcept>
#include <cmath>
using namespace sim;
namespace {
struct Q { std::unique_ptr<IQ> q; std::unique_ptr<QModel> m; };
template<class F> int outcome(F f) { try { f(); return 0; } catch (std::range_error&) { return 1; } catch (std::invalid_argument&) { return 2; } catch (std::ios_base::failure&) { return 3; } }
const char* oname(int o) { static const char* n[] = { "succeeded", "threw range_error", "threw invalid_argument", "threw ios failure" }; return n[o]; }
struct World1 {
    Run& r; const QSpec& sp; std::vector<Q> s; bool big;
    World1(Run& rr, const QSpec& spec, unsigned n) : r(rr), sp(spec), s(n), big(false) { r.sig(name_hash(sp.name)); r.step(cat(n, " x ", sp.name)); for (auto& x : s) { std::size_t d = dim(); x.q.reset(sp.make(d)); x.m.reset(new QModel(sp, d)); r.step(cat("dimension ", d)); SIM_CHECK(x.q->dimension() == d, "wrong-dimension", cat(sp.name, ": dimension() is ", x.q->dimension(), " for ", d)); } }
    std::size_t dim() { u64 k = r.pick(16); std::size_t hi = sp.max_dim; if (k == 15 && !big && r.pick(4) == 0) { big = true; return hi - r.pick(4); } if (k >= 14 && !big) { big = true; return 1 + r.pick(sp.fam == Q_FAURE ? 400 : hi); } if (k >= 10) return 1 + r.pick(64); return 1 + r.pick(8); }
    void check(unsigned i, ld v, const char* cls) {
        Q& x = s[i]; ld w = x.m->next(); if (!(v >= x.q->min_v() && v <= x.q->max_v())) r.fail("out-of-range", cat(sp.name, "(", x.m->dim, "): value ", v, " outside [min(), max()]"));
        if (sp.tol == 0 ? v != w : !(std::fabs(v - w) <= sp.tol * 4)) r.fail(cls, cat(sp.name, "(", x.m->dim, "): component ", x.m->c - 1, " of vector ", x.m->n, " is ", v, ", the construction gives ", w));
    }
    void draw(unsigned i, u64 n) {
        Q& x = s[i]; r.step(cat("draw ", n, " from #", i)); r.sig(1);
        for (u64 k = 0; k < n; ++k) {
            ++r.sim_steps;
            if (x.m->at_end()) { SIM_FAULT("sequence-exhausted"); int o = outcome([&] { x.q->draw(); }); if (o != 1) r.fail("exhaustion", cat(sp.name, "(", x.m->dim, "): drawing past the last vector ", oname(o), ", documented: range_error")); return; }
            ld v = 0; int o = outcome([&] { v = x.q->draw(); }); if (o) r.fail("early-exhaustion", cat(sp.name, "(", x.m->dim, "): drawing after component ", x.m->c, " of vector ", x.m->n, " ", oname(o)));
            r.ev(dbits(v)); check(i, v, "wrong-value");
        }
    }
    void bulk(unsigned i, u64 n) {
        Q& x = s[i]; u128 left = ((u128)sp.last + 1) * x.m->dim - x.m->pos(); bool over = n > left; r.step(cat("generate ", n, " from #", i)); r.sig(2); std::vector<ld> o(n + 1, -1); r.sim_steps += n;
        int oc = outcome([&] { x.q->generate(o.data(), n); }); if (oc != (over ? 1 : 0)) r.fail("exhaustion", cat(sp.name, "(", x.m->dim, "): generate(", n, ") with ", (u64)left, " values left ", oname(oc)));
        if (o[n] != -1) r.fail("bulk-overrun", cat(sp.name, ": generate wrote past the end")); if (over) SIM_FAULT("sequence-exhausted");
        for (u64 k = 0; k < (over ? (u64)left : n); ++k) { r.ev(dbits(o[k])); check(i, o[k], "wrong-bulk"); }
    }
    u64 jump() { u64 d = s[0].m->dim; switch (r.pick(8)) { case 0: return r.pick(4); case 1: return r.pick(2 * d + 2); case 2: return d * r.pick(40) + r.pick(d + 1); case 3: return r.pick(5000); case 4: return r.pick64(); case 5: return (1ull << r.pick(64)) - r.pick(2); case 6: return ~0ull - r.pick(3 * d); default: return r.pick(1ull << 40); } }
    u64 near_end(unsigned i) { Q& x = s[i]; u128 left = ((u128)sp.last + 1) * x.m->dim - x.m->pos(); u128 z = left + 3; u64 back = r.pick(3 * x.m->dim + 6); z = z > back ? z - back : 0; return z > ~0ull ? ~0ull : (u64)z; }
    void discard(unsigned i, u64 z) {
        Q& x = s[i]; r.step(cat("#", i, " discard ", z, " at component ", x.m->c, " of vector ", x.m->n)); r.sig(3); u64 n = x.m->n; std::size_t c = x.m->c; bool ok = x.m->discard(z); if (!ok) SIM_FAULT("discard-out-of-range");
        int o = outcome([&] { x.q->discard(z); }); if (o != (ok ? 0 : 1)) r.fail("discard-range", cat(sp.name, "(", x.m->dim, "): discard(", z, ") at component ", c, " of vector ", n, " ", oname(o), ", expected it ", ok ? "to succeed" : "to throw range_error"));
    }
    void seed(unsigned i, u64 k) {
        Q& x = s[i]; if (k > sp.seedmax) k = sp.seedmax; r.step(cat("#", i, " seed ", k)); r.sig(4); bool ok = x.m->seed(k); if (!ok) SIM_FAULT("seed-out-of-range");
        int o = outcome([&] { x.q->seed(k); }); if (o != (ok ? 0 : 1)) r.fail("seed-range", cat(sp.name, "(", x.m->dim, "): seed(", k, ") ", oname(o), ", expected it ", ok ? "to succeed" : "to throw range_error"));
    }
    u64 seed_value() { switch (r.pick(7)) { case 0: return r.pick(10); case 1: return r.pick(1000); case 2: return (1ull << r.pick(64)) - r.pick(3); case 3: return sp.last + 2 - r.pick(6); case 4: return sp.last / 2 + r.pick(4); case 5: return r.pick64() & sp.last; default: return r.pick64(); } }
    std::string text(unsigned i, const StreamCfg& c) { if (c.wide) { SimOut<wchar_t> b; b.set_chunk(c.chunk); std::wostream o(&b); c.apply(o, true); s[i].q->save(o); o.flush(); if (!o.good()) r.fail("save-failed", sp.name); return narrow_s(b.data); } SimOut<char> b; b.set_chunk(c.chunk); std::ostream o(&b); c.apply(o, true); s[i].q->save(o); o.flush(); if (!o.good()) r.fail("save-failed", sp.name); return b.data; }
    template<class F> void with(const StreamCfg& c, const std::string& t, F f) { if (c.wide) { SimIn<wchar_t> b(widen_s<wchar_t>(t)); b.chunk = c.chunk; std::wistream i(&b); c.apply(i, false); f(i); } else { SimIn<char> b(t); b.chunk = c.chunk; std::istream i(&b); c.apply(i, false); f(i); } }
    void restore(unsigned i, unsigned j) {
        StreamCfg c = StreamCfg::random(r); r.step(cat("#", j, " restored from a checkpoint of #", i, " at component ", s[i].m->c, " of vector ", s[i].m->n, " ", c.describe())); r.sig(5); std::string t = text(i, c) + " #"; r.ev(t);
        with(c, t, [&](auto& is) { int o = outcome([&] { s[j].q->load(is); }); if (o || is.fail()) r.fail("restore-fails", cat(sp.name, "(", s[i].m->dim, "): operator>> failed on its own checkpoint ", t, ": ", oname(o))); char ch = 0; typename std::decay<decltype(is)>::type::char_type cc = 0; is >> cc; ch = (char)cc; if (ch != '#') r.fail("stream-not-continued", cat(sp.name, ": data after the checkpoint lost")); });
        if (i != j) s[j].m.reset(new QModel(*s[i].m)); same(i, j, "a restored generator");
    }
    void same(unsigned i, unsigned j, const char* what) { if (!s[i].q->eq(*s[j].q) || !s[j].q->eq(*s[i].q) || s[i].q->ne(*s[j].q)) r.fail("not-equal", cat(sp.name, "(", s[i].m->dim, "): ", what, " compares different at component ", s[i].m->c, " of vector ", s[i].m->n)); if (s[j].q->dimension() != s[j].m->dim) r.fail("wrong-dimension", cat(sp.name, ": ", what, " has dimension ", s[j].q->dimension(), ", expected ", s[j].m->dim)); }
    void bad_restore(unsigned i) {       // text that describes no generator
        Q& x = s[i]; std::size_t d = x.m->dim; u64 kind = r.pick(6); std::string t;
        switch (kind) { case 0: t = "0 5 0"; break; case 1: t = cat(sp.max_dim + 1 + r.pick(5), " 5 0"); break; case 2: t = sp.last == ~0ull ? "2 18446744073709551616 0" : sp.last == sp.seedmax ? cat(d, " ", sp.last, "0 0") : cat(d, " ", sp.last + 1, " 0"); break; case 3: t = cat(d, " ", sp.last, " ", d + 1 + r.pick(4)); break; case 4: t = cat(d, " x"); break; default: t = cat(d, " 7"); }
        r.step(cat("#", i, " restored from ", t)); SIM_FAULT("checkpoint-damaged"); r.sig(6); StreamCfg c = StreamCfg::random(r, false);
        with(c, t, [&](auto& is) { int o = outcome([&] { x.q->load(is); }); if (!o && !is.fail()) r.fail("bad-restore-accepted", cat(sp.name, ": operator>> accepted ", t)); });
        SIM_PROBE("continued after a failed restore");       // and x continues from where it was (model untouched)
    }
    void bad_dim() { std::size_t d = r.pick(2) ? 0 : sp.max_dim + 1 + r.pick(3); r.step(cat("construct with dimension ", d)); SIM_FAULT("unsupported-dimension"); int o = outcome([&] { std::unique_ptr<IQ> q(sp.make(d)); }); if (o == 0) r.fail("bad-dimension", cat(sp.name, ": dimension ", d, " was accepted")); }
    void copy(unsigned i, unsigned j) {
        u64 k = r.pick(6); r.step(cat("#", j, " <- #", i, " way ", k)); r.sig(7); if (i == j) { s[i].q->assign(*s[i].q); return; }
        switch (k) { case 0: s[j].q->assign(*s[i].q); break; case 1: s[j].q.reset(s[i].q->clone()); break; case 2: { std::unique_ptr<IQ> t(s[i].q->clone()); s[j].q->move_assign(*t); break; } case 3: { std::unique_ptr<IQ> t(s[i].q->clone()); s[j].q.reset(t->move_out()); break; }
            case 4: { std::unique_ptr<IQ> t(s[i].q->make(s[i].m->dim)); u64 n = s[i].m->n; t->seed(n); std::size_t c = s[i].m->c; for (std::size_t q = 0; q < c; ++q) t->draw(); s[j].q = std::move(t); break; }      // by another route
            default: s[i].q->swap(*s[j].q); std::swap(s[i].m, s[j].m); return; }
        s[j].m.reset(new QModel(*s[i].m)); same(i, j, "a copy");
    }
    void compare(unsigned i, unsigned j) {
        bool e = s[i].q->eq(*s[j].q); if (s[i].q->ne(*s[j].q) == e || s[j].q->eq(*s[i].q) != e) r.fail("equality", cat(sp.name, ": == and != disagree"));
        if (s[i].m->dim != s[j].m->dim) { if (e) r.fail("equality", cat(sp.name, ": generators of different dimension compare equal")); return; }
        if (e != (s[i].m->pos() == s[j].m->pos())) r.fail("equality", cat(sp.name, "(", s[i].m->dim, "): generators at component ", s[i].m->c, " of vector ", s[i].m->n, " and component ", s[j].m->c, " of vector ", s[j].m->n, " compare ", e ? "equal" : "different"));
    }
    u64 burst(unsigned i) { std::size_t d = s[i].m->dim; switch (r.pick(4)) { case 0: return r.pick(4); case 1: return r.pick(d + 2); case 2: return r.pick(3 * d + 3); default: return r.pick(100); } }
};
void history(Run& r) {
    const QSpec& sp = qrngs()[r.pick(qrngs().size())]; unsigned n = 1 + (unsigned)r.pick(3), ops = 4 + (unsigned)r.pick(30); World1 w(r, sp, n);
    for (unsigned k = 0; k < ops; ++k) {
        unsigned i = (unsigned)r.pick(n), j = (unsigned)r.pick(n);
        switch (r.pick(14)) {
        case 0: case 1: case 2: case 3: w.draw(i, w.burst(i)); break; case 4: w.bulk(i, w.burst(i)); break; case 5: w.discard(i, w.jump()); break; case 6: w.discard(i, w.near_end(i)); break; case 7: w.seed(i, w.seed_value()); break;
        case 8: case 9: w.restore(i, j); break; case 10: w.copy(i, j); break; case 11: w.compare(i, j); break; case 12: w.bad_restore(i); break;
        default: if (r.pick(3)) { r.step(cat("#", i, " seed()")); w.s[i].q->seed(); w.s[i].m->seed(0); } else w.bad_dim();
        }
    }
    for (unsigned i = 0; i < n; ++i) w.draw(i, 2 * w.s[i].m->dim < 200 ? 2 * w.s[i].m->dim + 1 : 200);
}
// discard(z) against z draws, in parts and across restarts
void routes(Run& r) {
    const QSpec& sp = qrngs()[r.pick(qrngs().size())]; World1 w(r, sp, 1); w.s.resize(2); if (r.pick(2)) w.seed(0, w.seed_value()); w.draw(0, w.burst(0)); unsigned legs = 1 + (unsigned)r.pick(5);
    for (unsigned l = 0; l < legs; ++l) {
        w.s[1].q.reset(w.s[0].q->clone()); w.s[1].m.reset(new QModel(*w.s[0].m)); u64 z = r.pick(3 * w.s[0].m->dim + 20); w.discard(0, z); u64 left = z; if (w.s[0].m->pos() - w.s[1].m->pos() != z) continue;
        while (left) { u64 k = 1 + r.pick(left); switch (r.pick(4)) { case 0: w.draw(1, k); break; case 1: w.bulk(1, k); break; case 2: w.discard(1, k); break; default: w.restore(1, 1); w.draw(1, k); } left -= k; }
        w.same(0, 1, "the generator after discard(z) and one after z draws"); w.draw(0, w.burst(0));
    }
}
// a worker farm: each worker takes a slice of the sequence by seed/discard, crashes and resumes from checkpoints
void farm(Run& r) {
    const QSpec& sp = qrngs()[r.pick(qrngs().size())]; unsigned n = 2 + (unsigned)r.pick(3); World1 w(r, sp, 1); if (w.s[0].m->dim > 300) { std::size_t d = 1 + w.s[0].m->dim % 300; w.s[0].q.reset(sp.make(d)); w.s[0].m.reset(new QModel(sp, d)); } std::size_t d = w.s[0].m->dim; u64 start = r.pick(3) ? r.pick(1000) : w.seed_value(); u64 slice = 1 + r.pick(6); if (start > sp.last || sp.last - start < n * slice) start = 0; if (sp.last < n * slice) return;
    std::vector<QModel> want; std::vector<std::string> file(n); w.s.resize(n); for (unsigned i = 0; i < n; ++i) { w.s[i].q.reset(sp.make(d)); w.s[i].m.reset(new QModel(sp, d)); if (r.pick(2)) w.seed(i, start + i * slice); else { w.seed(i, start); w.discard(i, (u64)i * slice * d); } }
    std::vector<u64> left(n, slice * d); std::vector<std::unique_ptr<QModel> > ckpt(n); std::vector<u64> cleft(n); for (unsigned i = 0; i < n; ++i) { file[i] = w.text(i, StreamCfg()); ckpt[i].reset(new QModel(*w.s[i].m)); cleft[i] = left[i]; }
    for (unsigned step = 0; step < 200; ++step) {
        unsigned i = (unsigned)r.pick(n); bool any = false; for (u64 x : left) any = any || x; if (!any) break;
        switch (r.pick(6)) {
        case 0: { file[i] = w.text(i, StreamCfg()); ckpt[i].reset(new QModel(*w.s[i].m)); cleft[i] = left[i]; r.step(cat("worker ", i, " checkpoints")); break; }
        case 1: { SIM_FAULT("worker-crash"); r.step(cat("worker ", i, " crashes")); w.s[i].q.reset(sp.make(1 + r.pick(5))); w.with(StreamCfg(), file[i], [&](auto& is) { int o = outcome([&] { w.s[i].q->load(is); }); if (o || is.fail()) r.fail("restore-fails", cat(sp.name, ": ", file[i])); }); w.s[i].m.reset(new QModel(*ckpt[i])); left[i] = cleft[i]; break; }
        default: { u64 k = r.pick(left[i] + 1); if (k > 300) k = 300; w.draw(i, k); left[i] -= k; } }
    }
}
}
int main(int argc, char** argv) {
    CheckInfo c; c.property = "P13";
    c.technique_rule = "One case is one seeded simulation: a history over one to three quasi-random generators of one type and several dimensions (draws, bulk generation, seeds and discards of any size including past the end of the sequence, restores across dimensions and positions, damaged checkpoints, copies, comparisons), or two routes to the same position, or workers sharing a sequence with crashes; each value is compared with an independently built model (Joe-Kuo direction numbers, Bratley-Fox construction over irreducible polynomials, Faure generator matrices). Every case draws values; cases are distinct when their shape signature differs.";
    c.worlds = { { "history", history, 5 }, { "routes", routes, 2 }, { "farm", farm, 2 } };
    c.real = { "sobol, niederreiter_base2 and faure engines of boost/random (16 instantiations) and their stream operators" };
    c.stub = { "streams' devices" };
    c.assumptions = { "Sobol initial direction numbers: a copy of the Joe-Kuo table; faure values are compared to a few units of rounding" };
    c.quick_runs = 40000000; c.thorough_runs = 4000000000ull; c.quick_secs = 50; c.thorough_secs = 1500;
    return run_main(argc, argv, c);
}
