// Histories over a small population of engines, each shadowed by its reference model.
#ifndef SIM_HIST_HPP
#define SIM_HIST_HPP
#include "engbox.hpp"
#include "io.hpp"
#include <memory>
extern unsigned long long sim_mt_threshold;
namespace sim {
template<class F> inline void with_in(const StreamCfg& c, const std::string& text, F f) {
    if (c.wide) { SimIn<wchar_t> b(widen_s<wchar_t>(text)); b.chunk = c.chunk; std::wistream i(&b); c.apply(i, false); f(i); }
    else { SimIn<char> b(text); b.chunk = c.chunk; std::istream i(&b); c.apply(i, false); f(i); }
}
struct Slot {
    std::unique_ptr<IEng> e; std::unique_ptr<ref::Model> m; bool known; u64 id, pos;   // id: identity of the seeded sequence
    Slot() : known(false), id(0), pos(0) {}
};
inline const EngSpec& pick_engine(Run& r, unsigned max_state = ~0u, unsigned need = 0, unsigned forbid = 0) {
    const std::vector<EngSpec>& es = engines();
    u64 tot = 0;
    auto wt = [&](const EngSpec& s) -> u64 { if (s.state > max_state || (s.flags & need) != need || (s.flags & forbid)) return 0; return s.state <= 64 ? 16 : s.state <= 700 ? 8 : s.state <= 3300 ? 2 : 1; };
    for (auto& s : es) tot += wt(s);
    u64 x = r.pick(tot);
    for (auto& s : es) { u64 w = wt(s); if (x < w) return s; x -= w; }
    return es.back();
}
// one simulated application: engines of one type, all operations mirrored on the model
struct Hist {
    Run& r; const EngSpec& spec; std::vector<Slot> s; u64 next_id; std::string P;
    std::vector<u64> lens;
    Hist(Run& run, const EngSpec& sp, unsigned slots) : r(run), spec(sp), s(slots), next_id(1) {
        for (auto& x : s) { x.e.reset(spec.make()); x.m.reset(spec.model()); x.known = true; x.id = 0; x.pos = 0; }
        r.sig(name_hash(spec.name)); r.step(cat("engines: ", slots, " x ", spec.name));
    }
    u64 burst() {
        u64 st = spec.state;
        switch (r.pick(5)) {
        case 0: return r.pick(4);
        case 1: return r.pick(40);
        case 2: return st > 2 ? st - 2 + r.pick(5) : r.pick(5);              // around a block boundary
        case 3: return r.pick(st + 10);
        default: return st < 400 ? r.pick(3 * st + 100) : r.pick(2 * st + 10);
        }
    }
    void draw(unsigned i, u64 n) {
        Slot& x = s[i]; r.step(cat("draw ", n, " from #", i)); r.sig(10); r.sim_steps += n;
        u64 h = 0;
        for (u64 k = 0; k < n; ++k) {
            u64 v = x.e->draw(); h = mix64(h ^ v);
            if (x.known && !x.e->last_in_range()) r.fail("out-of-range", cat(spec.name, ": a drawn value lies outside [min(), max()]; value ", v));
            if (x.known) { u64 w = x.m->next(); if (v != w && !canonical_equal(v, w)) r.fail("wrong-value", cat(spec.name, ": draw ", k, " of this burst (position ", x.pos, ") gave ", v, ", the recurrence gives ", w)); ++x.pos; }
        }
        r.ev(h);
    }
    bool canonical_equal(u64 a, u64 b) const {   // mixmax represents residues mod 2^61-1 redundantly
        if (std::strcmp(spec.name, "mixmax")) return false;
        const u64 p = (1ull << 61) - 1; return a % p == b % p;
    }
    // verify the future of a slot without disturbing it
    void probe(unsigned i, u64 n, const char* cls, const std::string& what) {
        Slot& x = s[i]; if (!x.known) return;
        std::unique_ptr<IEng> c(x.e->clone()); std::unique_ptr<ref::Model> m(x.m->clone());
        for (u64 k = 0; k < n; ++k) { u64 v = c->draw(), w = m->next(); if (v != w && !canonical_equal(v, w)) r.fail(cls, cat(spec.name, ": ", what, ": draw ", k, " gave ", v, ", expected ", w)); }
        r.sim_steps += n;
    }
    u64 probe_len() { u64 st = spec.state; return r.chance(0.15) ? st + 3 + r.pick(st) : r.pick(30) + 2; }
    u64 rand_seed_value() { switch (r.pick(7)) { case 6: { u64 v = 0; if (s[0].m->hard_seed(r.pick64(), v)) { SIM_PROBE("arithmetic-corner state seeded"); return v; } return r.pick64(); } case 0: return r.pick(8); case 1: return r.pick64(); case 2: return r.pick64() & 0xffffffffu; case 3: return ~0ull; case 4: return r.pick(2) ? 0x7fffffffull : 2147483648ull; default: return r.pick(1000000); } }
    // ---- seeding; returns false if the source failed (slot becomes unknown)
    bool reseed(unsigned i, bool may_fail) {
        Slot& x = s[i]; bool ctor = r.pick(2); u64 kind = r.pick((spec.flags & ENG_NORANGE) ? 4 : 5); r.sig(20 + kind);
        std::unique_ptr<IEng> made; bool ok = true; u64 oid = x.id, opos = x.pos; x.id = next_id++; x.pos = 0;
        std::unique_ptr<ref::Model> nm(spec.model());
        switch (kind) {
        case 0: r.step(cat("#", i, ctor ? " = fresh engine" : " seed()")); if (ctor) made.reset(x.e->fresh()); else x.e->seed(); nm->seed(); break;
        case 1: { u64 v = rand_seed_value(); r.step(cat("#", i, ctor ? " constructed from " : " seed value ", v)); if (ctor) made.reset(x.e->make_int(v)); else x.e->seed(v); nm->seed(v); break; }
        case 2: {
            SeedWords w = SeedWords::random(r); u64 fail = may_fail && r.chance(0.3) ? r.pick(spec.state + 6) : ~0ull; SimSeq q(w, fail);
            r.step(cat("#", i, ctor ? " constructed from" : " seeded by", " seed sequence style ", w.style, fail == ~0ull ? "" : " that fails"));
            try { if (ctor) made.reset(x.e->make_seq(q)); else x.e->seed_seq(q); if (fail != ~0ull && q.given < q.lens.size()) {} }
            catch (SourceFailed&) { ok = false; }
            SeqSrc src(w); nm->seed(src); break; }
        case 3: {
            std::vector<u32> v(r.size_biased(40)); for (auto& e : v) e = (u32)r.pick64(); r.step(cat("#", i, ctor ? " constructed from" : " seeded by", " seed_seq of ", v.size(), " words"));
            if (ctor) made.reset(x.e->make_std_seq(v)); else x.e->seed_std_seq(v);
            StdSeqSrc src(v); nm->seed(src); break; }
        default: {
            SeedWords w = SeedWords::random(r); u64 need = nm->seed_words(); u64 have = need + r.pick(4);
            if (may_fail && r.chance(0.2)) { have = r.pick(need); }
            u64 fail = may_fail && r.chance(0.2) ? r.pick(need + 1) : ~0ull;
            IterLog log = { &w, have, fail, 0, 0, false, false }; SimIter f(&log, 0), l(&log, have);
            r.step(cat("#", i, ctor ? " constructed from" : " seeded by", " range of ", have, " words (needs ", need, ")", fail == ~0ull ? "" : " that fails"));
            try { if (ctor) made.reset(x.e->make_range(f, l)); else x.e->seed_range(f, l); if (have < need) r.fail("short-range-accepted", cat(spec.name, ": seeding from ", have, " words, fewer than the ", need, " documented, did not throw")); }
            catch (SourceFailed&) { ok = false; } catch (std::invalid_argument&) { ok = false; SIM_FAULT("seed-range-ends-early"); if (have >= need) r.fail("range-rejected", cat(spec.name, ": a range with enough words was rejected")); }
            if (log.overrun) r.fail("range-overrun", cat(spec.name, ": seeding read past the end of the iterator range"));
            RangeSrc src(w, have); if (ok) { nm->seed(src); if (f.pos != need) r.fail("range-consumption", cat(spec.name, ": a range seed consumed ", f.pos, " words, documented ", need)); }
            break; }
        }
        if (ctor) { if (!ok) { x.id = oid; x.pos = opos; r.step("construction failed; the old object stays"); return true; } if (r.pick(2)) x.e->move_assign(*made); else x.e = std::move(made); }
        if (!ok) { x.known = false; r.step("seeding failed"); return false; }
        x.m = std::move(nm); x.known = true; return true;
    }
    void copy(unsigned i, unsigned j) {      // j <- i, several ways
        u64 k = r.pick(5); r.sig(40 + k);
        if (i == j) { r.step(cat("self-assign #", i)); s[i].e->assign(*s[i].e); return; }
        switch (k) {
        case 0: r.step(cat("#", j, " = #", i)); s[j].e->assign(*s[i].e); break;
        case 1: r.step(cat("#", j, " copy-constructed from #", i)); s[j].e.reset(s[i].e->clone()); break;
        case 2: { r.step(cat("#", j, " moved from a copy of #", i)); std::unique_ptr<IEng> t(s[i].e->clone()); s[j].e->move_assign(*t); break; }
        case 3: { r.step(cat("#", j, " move-constructed from a copy of #", i)); std::unique_ptr<IEng> t(s[i].e->clone()); s[j].e.reset(t->move_out()); break; }
        default: { r.step(cat("swap #", j, " #", i)); s[i].e->swap(*s[j].e); std::swap(s[i].m, s[j].m); std::swap(s[i].known, s[j].known); std::swap(s[i].id, s[j].id); std::swap(s[i].pos, s[j].pos); return; }
        }
        s[j].m.reset(s[i].m->clone()); s[j].known = s[i].known; s[j].id = s[i].id; s[j].pos = s[i].pos;
    }
    u64 discard_amount() {
        u64 st = spec.state, cost = s[0].m->draws_cost(); u64 z;
        switch (r.pick(6)) {
        case 0: z = r.pick(4); break; case 1: z = r.pick(40); break;
        case 2: z = st > 2 ? st - 2 + r.pick(5) : r.pick(6); break;
        case 3: z = r.pick(2 * st + 10); break;
        case 4: z = st * r.pick(4) + r.pick(st + 1); break;
        default: z = r.pick(cost > 2 ? 5000 : st > 3000 ? 3 * st : 50000);
        }
        return z;
    }
    void discard(unsigned i, u64 z) {
        Slot& x = s[i]; r.step(cat("#", i, " discard ", z)); r.sig(50 + (z > spec.state)); x.e->discard(z); r.sim_steps += z < 100000 ? z : 100;
        if (x.known) { if (z > 40000000 && !x.m->can_jump()) { x.known = false; } else { x.m->jump(z); x.pos += z; } }
    }
    void bulk(unsigned i, u64 n) {
        Slot& x = s[i]; r.step(cat("#", i, " generate ", n)); r.sig(60); r.sim_steps += n;
        if (spec.flags & ENG_RAWBULK) {
            std::vector<u64> o(n); x.e->generate64(o.data(), o.data() + n);
            if (x.known) { for (u64 k = 0; k < n; ++k) { u64 w = x.m->next(); if (o[k] != w) r.fail("wrong-bulk", cat(spec.name, ": generate() element ", k, " is ", o[k], ", expected ", w)); } x.pos += n; }
            if (n) r.ev(o[0]); return;
        }
        std::vector<u32> o(n + 2, 0xABABABABu), w(n); x.e->generate(o.data() + 1, o.data() + 1 + n);
        if (o[0] != 0xABABABABu || o[n + 1] != 0xABABABABu) r.fail("bulk-overrun", cat(spec.name, ": generate() wrote outside the range"));
        if (x.known) {
            std::unique_ptr<ref::Model> before(x.m->clone());
            if (spec.flags & ENG_REAL) ref::bulk_real(*x.m, spec.real_bits, w); else ref::bulk_int(*x.m, w);
            for (u64 k = 0; k < n; ++k) if (o[1 + k] != w[k]) r.fail("wrong-bulk", cat(spec.name, ": generate() word ", k, " is ", o[1 + k], ", expected ", w[k]));
            x.id = next_id++; x.pos = 0;      // number of draws used is implicit in the model
        }
        r.ev(o[1]);
    }
    // ---- restores
    // j <- checkpoint of i
    void carry_over(unsigned i, unsigned j, const StreamCfg& c) {
        if (!s[i].known) return;
        std::string t = save_text(i, c); StreamCfg in = c; r.step(cat("#", j, " restored from a checkpoint of #", i)); r.sig(61);
        with_in(in, t, [&](auto& is) { try { s[j].e->load(is); } catch (std::ios_base::failure&) {} if (is.fail()) r.fail("restore-fails", cat(spec.name, ": operator>> failed on text written by operator<<")); });
        if (i != j) { s[j].m.reset(s[i].m->clone()); s[j].known = true; s[j].id = s[i].id; s[j].pos = s[i].pos; }
    }
    // a restore that the environment spoils: truncated, damaged or failing input; the slot is then out of service until re-seeded
    void spoiled_load(unsigned i) {
        StreamCfg c = StreamCfg::random(r, false); std::unique_ptr<IEng> src(s[i].e->clone()); std::string t;
        { SimOut<char> b; std::ostream o(&b); if (s[i].known) src->save(o); else { std::unique_ptr<IEng> f(s[i].e->fresh()); f->save(o); } o.flush(); t = b.data; }
        u64 kind = r.pick(4); u64 at = r.pick(t.size() ? t.size() : 1); r.sig(62 + kind);
        if (kind == 0) { t.resize(at); SIM_FAULT("checkpoint-truncated"); }
        else if (kind == 1) { t[at] = "x-+. 97"[r.pick(7)]; SIM_FAULT("checkpoint-damaged"); }
        r.step(cat("#", i, " restore from ", kind == 0 ? "truncated text" : kind == 1 ? "damaged text" : "a failing device", " at ", at));
        auto go = [&](auto& b, auto& is) {
            if (kind >= 2) { b.fault = kind == 2 ? IN_THROW : IN_THROW_ONCE; b.at = at; } b.chunk = c.chunk; c.apply(is, false);
            try { s[i].e->load(is); } catch (std::ios_base::failure&) {} catch (IoError&) {} catch (BudgetExceeded&) { r.fail("restore-hangs", cat(spec.name, ": operator>> does not finish on bad input")); }
        };
        if (c.wide) { SimIn<wchar_t> b(widen_s<wchar_t>(t)); std::wistream is(&b); go(b, is); } else { SimIn<char> b(t); std::istream is(&b); go(b, is); }
        s[i].known = false;
    }
    void ensure(unsigned i) { if (!s[i].known) reseed(i, false); }
    // ---- checkpoint text
    std::string save_text(unsigned i, const StreamCfg& c, bool* okp = 0) {
        std::string out;
        if (c.wide) { SimOut<wchar_t> b; b.set_chunk(c.chunk); std::wostream o(&b); c.apply(o, true); s[i].e->save(o); o.flush(); if (okp) *okp = o.good(); else if (!o.good()) r.fail("save-failed", cat(spec.name, ": writing to a working stream set an error state")); out = narrow_s(b.data); }
        else { SimOut<char> b; b.set_chunk(c.chunk); std::ostream o(&b); c.apply(o, true); s[i].e->save(o); o.flush(); if (okp) *okp = o.good(); else if (!o.good()) r.fail("save-failed", cat(spec.name, ": writing to a working stream set an error state")); out = b.data; }
        return out;
    }
};
}
#endif
