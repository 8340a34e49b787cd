// P06: seeding consumes its source exactly and survives source failure.
#include "hist.hpp"
#include <boost/random/seed_seq.hpp>
#include <deque>
#include <list>
#include <iterator>
#include <boost/random/additive_combine.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/shuffle_output.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/mixmax.hpp>
using namespace sim;
void sim::GenSeq::run(u32* f, u32* l) { g->generate(f, l); }
namespace {
struct GenSrc : ref::Src { ref::Model& g; const EngSpec& sp; GenSrc(ref::Model& m, const EngSpec& s) : g(m), sp(s) {} bool is_seq() const { return true; }
    void words(u32* o, std::size_t n) { std::vector<u32> b(n); if (sp.flags & ENG_REAL) ref::bulk_real(g, sp.real_bits, b); else ref::bulk_int(g, b); std::copy(b.begin(), b.end(), o); } };
struct VecSrc : ref::Src { const std::vector<u32>& v; u64 pos; explicit VecSrc(const std::vector<u32>& s) : v(s), pos(0) {} bool is_seq() const { return false; } void words(u32* o, std::size_t n) { for (std::size_t i = 0; i < n; ++i) o[i] = pos < v.size() ? v[pos] : 0, ++pos; } };
// everything a seeding attempt can be: the source, how it fails, and what the model then holds
struct Attempt { bool threw, invalid; std::unique_ptr<IEng> made; std::string what; };
struct W {
    Run& r; Hist& h; const EngSpec& sp; W(Run& rr, Hist& hh) : r(rr), h(hh), sp(hh.spec) {}
    template<class F> void attempt(Attempt& a, bool ctor, F f) {
        u64 live = g_alloc.armed_live; a.threw = a.invalid = false;
        try { AllocFault af(0, 0); f(); af.stop(); } catch (SourceFailed&) { a.threw = true; } catch (std::invalid_argument&) { a.threw = a.invalid = true; SIM_FAULT("seed-range-ends-early"); }
        if (ctor && a.threw && g_alloc.armed_live != live) r.fail("leak", cat(sp.name, ": ", a.what, ": memory leaked by the failed construction"));
    }
    // seed slot i from a random source that may fail; on success the model follows and constructor, seed() and a second seeding agree
    void seed(unsigned i, bool may_fail) {
        Slot& x = h.s[i]; bool ctor = r.pick(2); u64 kind = r.pick(8); if ((sp.flags & ENG_NORANGE) && (kind == 4 || kind == 5)) kind = 2; r.sig(100 + kind * 2 + ctor);
        Attempt a; std::unique_ptr<ref::Model> nm(sp.model()); const char* how = ctor ? "constructed" : "re-seeded"; std::unique_ptr<IEng> twin; bool fail = may_fail && r.chance(0.5); u64 need = nm->seed_words();
        switch (kind) {
        case 0: a.what = cat(how, " without arguments"); r.step(a.what); attempt(a, ctor, [&] { if (ctor) a.made.reset(x.e->fresh()); else x.e->seed(); }); twin.reset(x.e->fresh()); nm->seed(); break;
        case 1: { i64 v; switch (r.pick(5)) { case 0: v = (i64)r.pick(12); break; case 1: v = -(i64)r.pick(300); break; case 2: v = (i64)r.pick64(); break; case 3: v = (i64)(r.pick64() >> 32); break; default: v = (i64)r.pick(70000); } int tk = (int)r.pick(9); u64 as = 0; if (tk == 8 || tk == 1) v &= 127; if (tk == 6 && v < 0) v = -v;
            a.what = cat(how, " from a value (type ", tk, ", ", v, ")"); r.step(a.what); attempt(a, ctor, [&] { a.made.reset(x.e->typed_seed(tk, v, ctor, as)); }); twin.reset(x.e->make_int(as)); nm->seed(as); break; }
        case 2: { SeedWords w = SeedWords::random(r); u64 fa = fail ? r.pick(need + 8) : ~0ull; SimSeq q(w, fa), q2(w); a.what = cat(how, " from a seed sequence (style ", w.style, fail ? cat(", failing after ", fa, " words)") : ")"); r.step(a.what); attempt(a, ctor, [&] { if (ctor) a.made.reset(x.e->make_seq(q)); else x.e->seed_seq(q); }); if (!a.threw) { SeqSrc s(w); nm->seed(s); twin.reset(x.e->make_seq(q2)); if (fa < ~0ull && q.given > fa) r.fail("swallowed-failure", cat(sp.name, ": ", a.what, ": the source failed but seeding reported success")); if (q.lens != q2.lens) r.fail("requests-differ", cat(sp.name, ": ", a.what, ": seed() and the constructor ask the sequence for different amounts")); } else if (fa == ~0ull) r.fail("spurious-failure", cat(sp.name, ": ", a.what, ": failed")); break; }
        case 3: { std::vector<u32> v(r.size_biased(80)); bool small = r.pick(2); for (auto& e : v) e = small ? (u32)r.pick(3) : (u32)r.pick64(); a.what = cat(how, " from a seed_seq of ", v.size(), " words"); r.step(a.what); attempt(a, ctor, [&] { if (ctor) a.made.reset(x.e->make_std_seq(v)); else x.e->seed_std_seq(v); }); StdSeqSrc s(v); nm->seed(s); twin.reset(x.e->make_std_seq(v)); break; }
        case 4: { SeedWords w = SeedWords::random(r); u64 have = need + r.pick(4); if (fail && r.pick(2)) have = r.pick(3) ? r.pick(need) : need - 1; u64 fa = fail && r.pick(2) ? r.pick(need + 2) : ~0ull; IterLog log = { &w, have, fa, 0, 0, false, false, (int)r.pick(3) }; SimIter f(&log, 0), l(&log, have);
            a.what = cat(how, " from an input range of ", have, " words (needs ", need, fa == ~0ull ? ")" : cat(", failing at ", fa, log.mode == 0 ? " on read)" : log.mode == 1 ? " on increment)" : " on comparison)")); r.step(a.what); attempt(a, ctor, [&] { if (ctor) a.made.reset(x.e->make_range(f, l)); else x.e->seed_range(f, l); });
            if (log.overrun) r.fail("range-overrun", cat(sp.name, ": ", a.what, ": read past the end of the range")); if (log.max_read > need) r.fail("range-consumption", cat(sp.name, ": ", a.what, ": read ", log.max_read, " words"));
            if (!a.threw) { if (have < need) r.fail("short-range-accepted", cat(sp.name, ": ", a.what, ": did not throw")); if (f.pos != need) r.fail("range-consumption", cat(sp.name, ": ", a.what, ": the iterator was left at word ", f.pos)); if (log.mode == 0 && fa < need) r.fail("swallowed-failure", cat(sp.name, ": ", a.what, ": reported success")); RangeSrc s(w, have); nm->seed(s); IterLog l2 = { &w, have, ~0ull, 0, 0, false, false }; SimIter f2(&l2, 0), e2(&l2, have); twin.reset(x.e->make_range(f2, e2)); }
            else if (a.invalid ? have >= need : fa == ~0ull) r.fail("range-rejected", cat(sp.name, ": ", a.what, ": rejected")); break; }
        case 5: { std::vector<u32> v(need + r.pick(4)); if (fail) v.resize(r.pick(3) ? r.pick(need) : need - 1); SeedWords w = SeedWords::random(r); for (u64 k = 0; k < v.size(); ++k) v[k] = w.at(v.size(), k); int ik = (int)r.pick(4); u64 used = 0; static const char* const in[] = { "pointers", "64-bit vector iterators", "list iterators", "deque iterators" };
            a.what = cat(how, " from ", v.size(), " words by ", in[ik], " (needs ", need, ")"); r.step(a.what); attempt(a, ctor, [&] { a.made.reset(x.e->iter_seed(ik, v, ctor, used)); });
            if (used > v.size()) r.fail("range-overrun", cat(sp.name, ": ", a.what, ": iterator left beyond the end")); if (a.threw != (v.size() < need)) r.fail(a.threw ? "range-rejected" : "short-range-accepted", cat(sp.name, ": ", a.what)); if (!a.threw) { if (used != need) r.fail("range-consumption", cat(sp.name, ": ", a.what, ": the iterator was left at word ", used)); VecSrc s(v); nm->seed(s); u64 u2; twin.reset(x.e->iter_seed((ik + 1) % 4, v, true, u2)); } break; }
        default: {      // from another engine
            const EngSpec* gs; do gs = &pick_engine(r, 700, 0, ENG_RAWBULK); while (!std::strcmp(gs->name, "mixmax")); std::unique_ptr<IEng> g(gs->make()), g2; std::unique_ptr<ref::Model> gm(gs->model()); u64 adv = r.pick(40), sv = r.pick(100000); g->seed(sv); gm->seed(sv); for (u64 k = 0; k < adv; ++k) { g->draw(); gm->next(); } g2.reset(g->clone());
            GenSeq q = { g.get(), 0, fail ? 1 + r.pick(2) : 0 }, q2 = { g2.get(), 0, 0 }; bool cst = r.pick(2); a.what = cat(how, " from ", gs->name, cst ? " (const sequence)" : "", q.fail_call ? cat(" failing at request ", q.fail_call) : ""); r.step(a.what); r.sig(name_hash(gs->name)); attempt(a, ctor, [&] { a.made.reset(x.e->gen_seed(q, ctor, cst)); });
            if (a.threw && !q.fail_call) r.fail("spurious-failure", cat(sp.name, ": ", a.what, ": failed")); if (!a.threw) { if (q.fail_call && q.calls >= q.fail_call) r.fail("swallowed-failure", cat(sp.name, ": ", a.what, ": reported success")); GenSrc s(*gm, *gs); nm->seed(s); twin.reset(x.e->gen_seed(q2, true, !cst)); for (int k = 0; k < 3; ++k) { u64 p = g->draw(), w = gm->next(); if (p != w) r.fail("generator-overdrawn", cat(sp.name, ": ", a.what, ": the generator was not left where its words end")); } } break; }
        }
        r.ev(a.threw);
        if (a.threw) { SIM_PROBE("seeding failed"); if (ctor) h.probe(i, 8, "wrong-sequence", "bystander of a failed construction"); else { x.known = false; broken(i); } return; }
        if (ctor) { if (!a.made) r.fail("no-engine", a.what); x.e = std::move(a.made); }
        x.m = std::move(nm); x.known = true; x.id = h.next_id++; x.pos = 0; judge(i, twin.get(), a.what);
    }
    void judge(unsigned i, IEng* twin, const std::string& what) {
        Slot& x = h.s[i]; if (twin && (!x.e->eq(*twin) || x.e->ne(*twin))) r.fail("constructor-seed-differ", cat(sp.name, ": ", what, ": an engine from the same source by the other route compares different"));
        h.probe(i, h.probe_len(), "wrong-sequence", what); if (twin) { std::unique_ptr<ref::Model> m(x.m->clone()); for (int k = 0; k < 6; ++k) { u64 p = twin->draw(), w = m->next(); if (p != w && !h.canonical_equal(p, w)) r.fail("constructor-seed-differ", cat(sp.name, ": ", what, ": by the other route draw ", k, " is ", p, ", expected ", w)); } }
    }
    // an engine whose seeding failed: in an unspecified but usable state
    void broken(unsigned i) {
        Slot& x = h.s[i]; SIM_PROBE("engine used after a failed seed"); unsigned n = (unsigned)r.pick(5);
        while (n--) switch (r.pick(6)) {
            case 0: { u64 k = 1 + h.burst() % 2000; for (u64 q = 0; q < k; ++q) { u64 v = x.e->draw(); if (q < 8) r.ev(v); } break; }
            case 1: { std::unique_ptr<IEng> c(x.e->clone()); if (!c->eq(*x.e)) r.fail("broken-object", cat(sp.name, ": a copy of an engine whose seeding failed compares different")); for (int q = 0; q < 5; ++q) { u64 p = c->draw(), w = x.e->draw(); if (p != w) r.fail("broken-object", cat(sp.name, ": a copy of an engine whose seeding failed behaves differently")); } break; }
            case 2: x.e->discard(r.pick(1000)); break;
            case 3: { StreamCfg c; c.chunk = 16; c.precision = 6; h.save_text(i, c); break; }
            case 4: { std::vector<u32> b(1 + r.pick(10)); if (!(sp.flags & ENG_RAWBULK)) x.e->generate(b.data(), b.data() + b.size()); break; }
            default: { std::unique_ptr<IEng> f(x.e->fresh()); f->eq(*x.e); f->move_assign(*x.e); x.e->swap(*f); break; } }
    }
};
// one service: engines seeded over and over by sources that fail
void service(Run& r) {
    alloc_forget(); const EngSpec& sp = pick_engine(r, r.pick(12) ? 3300 : ~0u); sim_mt_threshold = (sp.flags & ENG_MT) && sp.state < 20 ? 100 : 10000000ull; { Hist h(r, sp, 1 + (unsigned)r.pick(3)); W w(r, h); unsigned ops = sp.state > 700 ? 2 + (unsigned)r.pick(4) : 3 + (unsigned)r.pick(22); double pf = r.pick(4) ? 0.35 : 0.9;
    for (unsigned o = 0; o < ops; ++o) { unsigned i = (unsigned)r.pick(h.s.size()); switch (r.pick(8)) { case 0: h.draw(i, h.burst()); break; case 1: h.discard(i, r.pick(300)); break; case 2: h.copy(i, (unsigned)r.pick(h.s.size())); break; case 3: if (!(sp.flags & ENG_RAWBULK)) h.bulk(i, r.pick(40)); break; default: w.seed(i, r.chance(pf)); } }
    for (unsigned i = 0; i < h.s.size(); ++i) { if (!h.s[i].known) w.seed(i, false); w.judge(i, 0, "at the end of the service"); } }
    if (g_alloc.armed_live) r.fail("leak", cat(sp.name, ": ", g_alloc.armed_live, " allocations leaked by seeding"));
}
// engines of different types seeded one after another from one stream of words
void shared_stream(Run& r) {
    sim_mt_threshold = 10000000ull; SeedWords w = SeedWords::random(r); unsigned n = 1 + (unsigned)r.pick(6); std::vector<const EngSpec*> sp; std::vector<std::unique_ptr<IEng> > e; std::vector<std::unique_ptr<ref::Model> > m; u64 total = 0;
    for (unsigned k = 0; k < n; ++k) { const EngSpec& s = pick_engine(r, 1300, 0, ENG_NORANGE); sp.push_back(&s); r.sig(name_hash(s.name)); e.emplace_back(s.make()); m.emplace_back(s.model()); total += m[k]->seed_words(); }
    u64 have = r.pick(3) ? total + r.pick(5) : r.pick(total + 1); u64 fa = r.pick(3) ? ~0ull : r.pick(total + 1); IterLog log = { &w, have, fa, 0, 0, false, false, (int)r.pick(3) }; SimIter f(&log, 0), l(&log, have); RangeSrc src(w, have); u64 at = 0; bool dead = false; r.step(cat(n, " engines from one stream of ", have, " words (", total, " needed)", fa == ~0ull ? "" : cat(", device fails at ", fa)));
    for (unsigned k = 0; k < n && !dead; ++k) {
        bool ctor = r.pick(2); u64 need = m[k]->seed_words(); r.step(cat(sp[k]->name, ctor ? " constructed" : " seeded", " from word ", at)); int res = 0;
        try { if (ctor) { std::unique_ptr<IEng> x(e[k]->make_range(f, l)); e[k] = std::move(x); } else e[k]->seed_range(f, l); } catch (SourceFailed&) { res = 1; } catch (std::invalid_argument&) { res = 2; SIM_FAULT("seed-range-ends-early"); }
        if (log.overrun || f.pos > have) r.fail("range-overrun", cat(sp[k]->name, ": read past the end of the stream"));
        if (res == 0) { if (have - at < need) r.fail("short-range-accepted", cat(sp[k]->name, ": ", have - at, " words were left, ", need, " needed")); m[k]->seed(src); at += need; if (f.pos != at || log.max_read > at) r.fail("range-consumption", cat(sp[k]->name, ": took words ", at - need, " to ", f.pos, ", needs exactly ", need)); for (int q = 0; q < 12; ++q) { u64 a = e[k]->draw(), b = m[k]->next(); r.ev(a); if (a != b && std::strcmp(sp[k]->name, "mixmax")) r.fail("wrong-sequence", cat(sp[k]->name, ": seeded from words ", at - need, "..: draw ", q, " is ", a, ", expected ", b)); } }
        else { dead = true; if (res == 2 && have - at >= need) r.fail("range-rejected", cat(sp[k]->name, ": ", have - at, " words were left, ", need, " needed")); if (res == 1 && fa == ~0ull) r.fail("spurious-failure", sp[k]->name); }
    }
}
// ---- seed_seq itself
struct FailIter { typedef std::input_iterator_tag iterator_category; typedef u32 value_type; typedef std::ptrdiff_t difference_type; typedef const u32* pointer; typedef u32 reference; const std::vector<u32>* v; u64 pos, fail_at;
    u32 operator*() const { if (pos >= fail_at) { SIM_FAULT("seed-iterator-throws"); throw SourceFailed{4}; } return (*v)[pos]; } FailIter& operator++() { ++pos; return *this; } FailIter operator++(int) { FailIter t(*this); ++pos; return t; } bool operator==(const FailIter& o) const { return pos == o.pos; } bool operator!=(const FailIter& o) const { return pos != o.pos; } };
void sequence(Run& r) {
    typedef boost::random::seed_seq S; alloc_forget();
    {
    std::vector<u32> v(r.pick(6) ? r.size_biased(60) : r.size_biased(1500)); u64 st = r.pick(4); for (auto& x : v) x = st == 0 ? 0 : st == 1 ? 0xffffffffu : st == 2 ? (u32)r.pick(4) : (u32)r.pick64();
    std::unique_ptr<S> s; u64 k = r.pick(7); r.sig(k * 64 + (v.size() > 30 ? 30 : v.size())); r.step(cat("seed_seq of ", v.size(), " words, built by route ", k));
    switch (k) {
    case 0: s.reset(new S(v.begin(), v.end())); break; case 1: s.reset(new S(v)); break;
    case 2: { std::vector<unsigned long long> w(v.begin(), v.end()); for (auto& x : w) x |= r.pick64() << 32; s.reset(new S(w.begin(), w.end())); break; }
    case 3: { std::vector<int> w; for (auto x : v) w.push_back((int)x); s.reset(new S(w)); break; }
    case 4: { u32 a = (u32)r.pick64(), b = (u32)r.pick(2); s.reset(new S{ a, b, 7u }); v = { a, b, 7u }; break; }
    case 5: { u64 fa = r.pick(2) ? ~0ull : r.pick(v.size() + 1); u64 live = g_alloc.armed_live; bool threw = false; try { AllocFault af(0, 0); FailIter f = { &v, 0, fa }, l = { &v, v.size(), fa }; s.reset(new S(f, l)); } catch (SourceFailed&) { threw = true; } if (threw && g_alloc.armed_live != live) r.fail("leak", "seed_seq: a construction whose iterator failed leaked"); if (threw != (fa < v.size())) r.fail("swallowed-failure", "seed_seq: failing source iterator"); if (threw) s.reset(new S(v)); break; }
    default: if (r.pick(2)) { v.clear(); s.reset(new S()); } else { std::list<u32> w(v.begin(), v.end()); s.reset(new S(w)); } }
    if (s->size() != v.size()) r.fail("size", cat("seed_seq of ", v.size(), " words: size() is ", s->size())); std::vector<u32> pv(v.size() + 2, 77u); s->param(pv.begin() + 1); if (pv[0] != 77 || pv[v.size() + 1] != 77 || !std::equal(v.begin(), v.end(), pv.begin() + 1)) r.fail("param", "seed_seq: param() does not return the contents");
    const S c(*s); unsigned ops = 1 + (unsigned)r.pick(6);
    for (unsigned o = 0; o < ops; ++o) {
        static const unsigned edge[] = { 0, 1, 2, 3, 6, 7, 8, 38, 39, 40, 67, 68, 69, 622, 623, 624, 625 }; std::size_t n = r.pick(3) == 0 ? edge[r.pick(17)] : r.size_biased(1400); std::vector<u32> want(n); ref::std_seed_seq(v, want); u64 t = r.pick(5); r.step(cat("generate ", n, " words, container ", t)); r.sig(1000 + (n > 40 ? 40 : n));
        const S& q = r.pick(2) ? *s : c; auto cmp = [&](u64 i, u64 got) { if (got != want[i]) r.fail("wrong-words", cat("seed_seq of ", v.size(), " words: word ", i, " of ", n, " is ", got, ", the algorithm gives ", want[i])); };
        switch (t) {
        case 0: { std::vector<u32> b(n + 2, 0xABABABABu); q.generate(b.begin() + 1, b.end() - 1); if (b[0] != 0xABABABABu || b[n + 1] != 0xABABABABu) r.fail("overrun", "seed_seq: wrote outside the range"); for (u64 i = 0; i < n; ++i) cmp(i, b[1 + i]); break; }
        case 1: { std::vector<unsigned long long> b(n); for (auto& x : b) x = 0x1122334455667788ull * 3; q.generate(b.begin(), b.end()); for (u64 i = 0; i < n; ++i) cmp(i, b[i]); break; }
        case 2: { std::deque<u32> b(n, 5u); q.generate(b.begin(), b.end()); for (u64 i = 0; i < n; ++i) cmp(i, b[i]); break; }
        case 3: { std::vector<unsigned long> b(n + 1); q.generate(b.data(), b.data() + n); for (u64 i = 0; i < n; ++i) cmp(i, b[i]); break; }
        default: { std::vector<u32> b(n, 9u); q.generate(b.rbegin(), b.rend()); for (u64 i = 0; i < n; ++i) cmp(i, b[n - 1 - i]); } }
        if (n) r.ev(want[n - 1]);
    }
    }
}
// ---- the constructors that only some engines have, and the old spellings of the engines
namespace br = boost::random;
u32 seed_value(Run& r) { static const u32 edge[] = { 0, 1, 2, 2147483398u, 2147483399u, 2147483562u, 2147483563u, 2147483646u, 2147483647u, 0x80000000u, 0xffffffffu }; return r.pick(2) ? edge[r.pick(11)] : (u32)r.pick64(); }
template<class A, class B> void agree(Run& r, A& a, B& b, const char* name, const std::string& how) {
    if ((a.min)() != (b.min)() || (a.max)() != (b.max)()) r.fail("wrong-range", cat(name, ": ", how, ": min() and max() are not those of the engine"));
    for (int k = 0; k < 40; ++k) { auto x = a(), y = b(); r.ev((u64)((long double)x * 4294967296.0L)); if (x != y) r.fail("wrong-sequence", cat(name, ": ", how, ": draw ", k, " gave ", x, ", expected ", y)); if (x < (a.min)() || x > (a.max)()) r.fail("wrong-range", cat(name, ": ", how, ": delivered ", x, " outside [", (a.min)(), ", ", (a.max)(), "]")); }
}
template<class D, class B> void old_spelling(Run& r, const char* name) {
    r.sig(name_hash(name)); u32 v = seed_value(r); D d; B b; agree(r, d, b, name, "default construction");
    { D x((typename D::result_type)v); B y((typename B::result_type)v); agree(r, x, y, name, cat("constructed from ", v)); }
    d.seed((u32)v); b.seed((u32)v); agree(r, d, b, name, cat("seed(", v, ")")); d.seed(); b.seed(); agree(r, d, b, name, "seed()");
    std::vector<u32> w(r.pick(4) ? 3400 : r.pick(3400)); u64 k = r.pick64(); for (std::size_t i = 0; i < w.size(); ++i) w[i] = (u32)mix64(k + i); auto f = w.begin(), g = w.begin(); auto l = w.end(); bool t1 = false, t2 = false;
    try { D x(f, l); B y(g, l); agree(r, x, y, name, "constructed from a range"); } catch (std::invalid_argument&) { t1 = true; SIM_FAULT("seed-range-ends-early"); g = w.begin(); try { B y(g, l); } catch (std::invalid_argument&) { t2 = true; } }
    if (t1 != t2 || (!t1 && f != g)) r.fail("range-consumption", cat(name, ": a range constructor consumed ", f - w.begin(), " words, the engine's ", g - w.begin()));
    r.step(cat(name, " seed ", v, ", range of ", w.size()));
    std::stringstream s; s << d; D e; e.discard(3); s >> e; if (!s || !(e == d) || e != d) r.fail("wrong-sequence", cat(name, ": a checkpoint read back differs")); agree(r, e, b, name, "read back from a checkpoint");
}
void forms(Run& r) {
    typedef br::linear_congruential_engine<u32, 40014, 0, 2147483563> A; typedef br::linear_congruential_engine<u32, 40692, 0, 2147483399> B; typedef br::linear_congruential_engine<u32, 1664525, 1013904223, 0> C; typedef br::mt11213b M;
    u64 kind = r.pick(14); r.sig(kind);
    switch (kind) {
    case 0: case 1: {                 // two seeds
        u32 s1 = seed_value(r), s2 = seed_value(r); r.step(cat("ecuyer1988 from seeds ", s1, ", ", s2)); br::ecuyer1988 e(s1, s2), f; f.discard(r.pick(50)); f.seed(s1, s2); A a(s1); B b(s2);
        if (!(e == f) || e != f) r.fail("constructor-seed-differ", "ecuyer1988: constructor and seed() disagree for two seeds");
        for (int k = 0; k < 60; ++k) { u32 x = a(), y = b(), want = y < x ? x - y : (u32)(x - y + 2147483562u), g = e(), h = f(); r.ev(g); if (g != want || h != want) r.fail("wrong-sequence", cat("ecuyer1988(", s1, ", ", s2, "): draw ", k, " gave ", g, " / ", h, ", expected ", want)); } break; }
    case 2: {                         // four 32-bit words
        u32 w[4]; for (auto& x : w) x = r.pick(3) ? (u32)r.pick64() : r.pick(3) ? 0u : 1u << r.pick(32); r.step(cat("mixmax from ", w[0], ",", w[1], ",", w[2], ",", w[3])); br::mixmax e(w[0], w[1], w[2], w[3]); std::vector<u32> v(w, w + 4); auto f = v.begin(), l = v.end(); br::mixmax g(f, l); ref::Mixmax m; m.stream(w[0], w[1], w[2], w[3]);
        if (!(e == g)) r.fail("constructor-seed-differ", "mixmax: four words and a range of four words disagree");
        for (int k = 0; k < 60; ++k) { u64 x = e(), y = m.next(); r.ev(x); if (x != y) r.fail("wrong-sequence", cat("mixmax(", w[0], ",", w[1], ",", w[2], ",", w[3], "): draw ", k, " gave ", x, ", expected ", y)); } break; }
    case 3: {                         // two ready-made generators
        A a(seed_value(r)); C c(seed_value(r)); a.discard(r.pick(9)); c.discard(r.pick(9)); r.step("xor_combine from two generators"); typedef br::xor_combine_engine<A, 3, C, 0> X; typedef br::xor_combine<A, 3, C, 0> Y; X x(a, c); Y y(a, c); if (!(x.base1() == a) || !(x.base2() == c)) r.fail("wrong-sequence", "xor_combine_engine(rng1, rng2): base1()/base2() differ from the generators given");
        for (int k = 0; k < 40; ++k) { u32 p = a(), q = c(), want = (p << 3) ^ q, g = x(), h = y(); r.ev(g); if (g != want || h != want) r.fail("wrong-sequence", cat("xor_combine(rng1, rng2): draw ", k, " gave ", g, " / ", h, ", expected ", want)); } break; }
    case 4: old_spelling<br::additive_combine<A, B>, br::ecuyer1988>(r, "additive_combine"); break;
    case 5: old_spelling<br::linear_congruential<u32, 16807, 0, 2147483647>, br::minstd_rand0>(r, "linear_congruential"); break;
    case 6: old_spelling<br::inversive_congruential<u32, 9102, 2147483647 - 36884165, 2147483647>, br::hellekalek1995>(r, "inversive_congruential"); break;
    case 7: old_spelling<br::lagged_fibonacci<u32, 32, 55, 24>, br::lagged_fibonacci_engine<u32, 32, 55, 24> >(r, "lagged_fibonacci"); break;
    case 8: old_spelling<br::lagged_fibonacci_01<double, 48, 607, 273>, br::lagged_fibonacci607>(r, "lagged_fibonacci_01"); break;
    case 9: old_spelling<br::mersenne_twister<u32, 32, 351, 175, 19, 0xccab8ee7u, 11, 7, 0x31b6ab00u, 15, 0xffe50000u, 17, 0xa37d3c92u>, M>(r, "mersenne_twister"); break;
    case 10: old_spelling<br::discard_block<br::minstd_rand, 7, 3>, br::discard_block_engine<br::minstd_rand, 7, 3> >(r, "discard_block"); break;
    case 11: old_spelling<br::shuffle_output<br::minstd_rand0, 97>, br::shuffle_order_engine<br::minstd_rand0, 97> >(r, "shuffle_output"); break;
    case 12: old_spelling<br::xor_combine<M, 0, br::minstd_rand, 0>, br::xor_combine_engine<M, 0, br::minstd_rand, 0> >(r, "xor_combine"); break;
    default: old_spelling<br::subtract_with_carry<u32, 1u << 24, 10, 24, 0>, br::subtract_with_carry_engine<u32, 24, 10, 24> >(r, "subtract_with_carry"); break;
    }
}
}
int main(int argc, char** argv) {
    CheckInfo c; c.property = "P06";
    c.technique_rule = "One case is one seeded simulation. service: 1-3 engines of one type are drawn from, copied and re-seeded or replaced over and over, from values of any arithmetic type, seed sequences, boost seed_seq, input ranges, ordinary iterators and other engines; sources fail at a chosen word, by a chosen iterator operation, or end early; engines whose seeding failed are used before they are seeded again. shared-stream: engines of different types are seeded in turn from one single-pass stream of words that may run dry or fail. sequence: seed_seq objects of any contents and origin answer requests of any length into several kinds of container. forms: the constructors only some engines have (two seeds, four words, ready-made generators) and the old class names are held to the engines they stand for. Everything is compared word for word with independent reference models. Cases are distinct when their shape signature differs.";
    c.worlds = { { "service", service, 6 }, { "shared-stream", shared_stream, 2 }, { "sequence", sequence, 2 }, { "forms", forms, 1 } };
    c.real = { "all engines and adaptors of boost/random (76 types), seed_seq, detail/seed_impl.hpp" };
    c.stub = { "seed sources (sequences, iterators, generators) scripted by the run with injected failures" };
    c.assumptions = { "seed words are 32 bits wide" };
    c.quick_runs = 40000000; c.thorough_runs = 4000000000ull; c.quick_secs = 40; c.thorough_secs = 1500; c.hidden_state_is_violation = true;
    return run_main(argc, argv, c);
}
