// P14: variate_generator, uniform_01, random_number_generator, generate_canonical
#include "P14.hpp"
#include <memory>
#include <sstream>
using namespace sim; using namespace sim::scr;
namespace br = boost::random;
namespace {
typedef __float128 f128;
typedef ScrI<u32, 0, 0xffffffffu> U32; typedef ScrI<u32, 1, 2147483646u> Lcg; typedef ScrI<u64, 0, ~0ull> U64; typedef ScrI<u32, 0, 2> Three; typedef ScrI<std::int32_t, -5, 1000> S32; typedef ScrI<std::int64_t, std::numeric_limits<std::int64_t>::min(), std::numeric_limits<std::int64_t>::max()> S64; typedef ScrI<std::uint16_t, 0, 65535> U16; typedef ScrI<u64, 0, (1ull << 61) - 2> M61; typedef ScrI<u32, 0, 1> Bit; typedef ScrI<u64, 3, (1ull << 33) + 7> Odd; typedef ScrI<std::int32_t, std::numeric_limits<std::int32_t>::min(), std::numeric_limits<std::int32_t>::max()> S32F; typedef ScrI<u32, 0, 16777214u> Below24; typedef ScrI<u64, 1ull << 31, (1ull << 31) + 9> Far; typedef ScrI<u64, 1ull << 60, (1ull << 60) + 1000> Far2; typedef ScrR<double> RD; typedef ScrR<float> RF; typedef br::discard_block_engine<U32, 4, 2> Db;
template<class D> auto same_dist_(const D& a, const D& b, int) -> decltype(a == b) { return a == b; }
template<class D> bool same_dist_(const D&, const D&, long) { return true; }
template<class D> bool same_dist(const D& a, const D& b) { return same_dist_(a, b, 0); }
u64 gen_key(Run& r) { return r.pick64(); }
template<class E> void seed_key(E& e, u64 k) { e.seed_val(k); }
void seed_key(Db& e, u64 k) { e.seed((u32)k); }
// ---- variate_generator ------------------------------------------------------------
template<class X, class Y> bool same(const X& a, const Y& b) { return a == b || (a != a && b != b); }
template<class D> struct Mk;
template<> struct Mk<br::uniform_int_distribution<int> > { static br::uniform_int_distribution<int> make(Run& r) { int a = (int)r.pick(2000) - 1000; return br::uniform_int_distribution<int>(a, a + (int)r.pick(5000)); } };
template<> struct Mk<br::uniform_real_distribution<double> > { static br::uniform_real_distribution<double> make(Run& r) { double a = (double)r.pick(2000) - 1000; return br::uniform_real_distribution<double>(a, a + 1 + (double)r.pick(5000)); } };
template<> struct Mk<br::bernoulli_distribution<double> > { static br::bernoulli_distribution<double> make(Run& r) { return br::bernoulli_distribution<double>((double)r.pick(1001) / 1000); } };
template<> struct Mk<br::normal_distribution<double> > { static br::normal_distribution<double> make(Run& r) { return br::normal_distribution<double>((double)r.pick(100), 1 + (double)r.pick(9)); } };
template<> struct Mk<br::uniform_01<double> > { static br::uniform_01<double> make(Run&) { return br::uniform_01<double>(); } };
template<> struct Mk<br::discrete_distribution<int> > { static br::discrete_distribution<int> make(Run& r) { std::vector<double> w; for (u64 i = 1 + r.pick(9); i-- > 0;) w.push_back(1 + (double)r.pick(100)); return br::discrete_distribution<int>(w.begin(), w.end()); } };
template<> struct Mk<br::poisson_distribution<int> > { static br::poisson_distribution<int> make(Run& r) { return br::poisson_distribution<int>(0.5 + (double)r.pick(60)); } };
template<> struct Mk<br::uniform_on_sphere<double> > { static br::uniform_on_sphere<double> make(Run& r) { return br::uniform_on_sphere<double>(1 + (int)r.pick(5)); } };
template<class D> D mk(Run& r) { return Mk<D>::make(r); }
// exactly what the wrapper must do, on a shadow engine under the same fault plan
template<class F> bool guarded(Run& r, Plan& now, const Plan& before, bool live, F f) { Plan saved = now; now = before; now.live = live; bool ok = true; try { f(); } catch (BaseFailed&) { ok = false; } u64 fired = now.fired - before.fired; if (ok && fired) r.fail("exception-swallowed", "the base engine threw but the caller of the wrapper saw no exception"); u64 ef = saved.fired; now.disarm(); now.fired = ef + fired; now.live = true; return ok; }
template<class E, class D> void variate(Run& r, const char* name) {
    PlanScope ps; Plan& pl = ps.p; E shared, shadow; u64 key = gen_key(r); seed_key(shared, key); seed_key(shadow, key);
    struct G { virtual ~G() {} virtual int mode() = 0; };
    typedef br::variate_generator<E, D> GV; typedef br::variate_generator<E&, D> GR; typedef br::variate_generator<E*, D> GP;
    struct Item { int mode; std::unique_ptr<GV> v; std::unique_ptr<GR> rf; std::unique_ptr<GP> p; std::unique_ptr<D> d; std::unique_ptr<E> own; };
    std::vector<Item> gs; unsigned n = 1 + (unsigned)r.pick(4); r.step(cat("variate_generator over ", name));
    for (unsigned i = 0; i < n; ++i) { Item it; it.mode = (int)r.pick(3); r.sig(it.mode); it.d.reset(new D(mk<D>(r))); if (it.mode == 0) { it.v.reset(new GV(shared, *it.d)); it.own.reset(new E(shadow)); } else if (it.mode == 1) it.rf.reset(new GR(shared, *it.d)); else it.p.reset(new GP(&shared, *it.d)); gs.push_back(std::move(it)); }
    unsigned ops = 2 + (unsigned)r.size_biased(40);
    for (unsigned k = 0; k < ops; ++k) {
        Item& it = gs[r.pick(gs.size())]; u64 op = r.pick(10); bool inject = r.pick(4) == 3; u64 cd = inject ? r.pick(6) : 0, rep = inject ? r.pick(2) : 0; pl.calls = 0; pl.disarm(); r.sig(op * 2 + inject); E& sh = it.mode == 0 ? *it.own : shadow; Plan before = pl; if (inject) before.arm(cd, rep);
        typename D::result_type x = typename D::result_type(), y = x; bool ok1 = true, ok2 = true; const char* what = "operator()";
        if (op < 6) { r.step(cat("generator mode ", it.mode, " draws", inject ? " (base engine will throw)" : "")); ok1 = guarded(r, pl, before, true, [&] { x = it.mode == 0 ? (*it.v)() : it.mode == 1 ? (*it.rf)() : (*it.p)(); }); ok2 = guarded(r, pl, before, false, [&] { y = (*it.d)(sh); }); }
        else if (op == 6) { r.step("direct draw from the shared engine"); typename E::result_type a = shared(), b = shadow(); if (a != b) r.fail("engine-not-shared", cat(name, ": the shared engine is not where the generators left it")); continue; }
        else if (op == 7) { what = "copy"; r.step("copy and continue"); if (it.mode == 0) { it.v.reset(new GV(*it.v)); } else if (it.mode == 1) it.rf.reset(new GR(*it.rf)); else it.p.reset(new GP(*it.p)); if (it.mode == 0 && r.pick(2)) { GV t(*it.v); for (int i = 0; i < 3; ++i) t(); } }
        else if (op == 8) { what = "engine()"; D nd = mk<D>(r); r.step("change the distribution's parameters in place"); if (it.mode == 0) { it.v->distribution() = nd; *it.d = nd; } else if (it.mode == 1) { it.rf->distribution() = nd; *it.d = nd; } else { it.p->distribution() = nd; *it.d = nd; } }
        else { what = "engine()"; r.step("reseed through engine()"); u64 kk = gen_key(r); if (it.mode == 0) seed_key(it.v->engine(), kk); else if (it.mode == 1) seed_key(it.rf->engine(), kk); else seed_key(it.p->engine(), kk); seed_key(sh, kk); }
        if (ok1 != ok2) r.fail("exception", cat(name, ": the base engine's failure reached the caller of ", ok1 ? "the distribution but not of variate_generator" : "variate_generator but not of the distribution"));
        if (op < 6 && ok1) { if (!same(x, y)) r.fail("wrong-output", cat(name, ": variate_generator (mode ", it.mode, ") delivers another value than its distribution applied to its engine")); }
        if (!(shared == shadow)) r.fail("base-consumption", cat(name, ": after ", what, " the shared engine is not where it should be"));
        if (it.mode == 0 && !(const_cast<const GV&>(*it.v).engine() == *it.own)) r.fail("base-consumption", cat(name, ": after ", what, " the generator's own engine is not where it should be"));
        const void* ea = it.mode == 0 ? &it.v->engine() : it.mode == 1 ? &it.rf->engine() : &it.p->engine(); const void* eb = it.mode == 0 ? &const_cast<const GV&>(*it.v).engine() : it.mode == 1 ? &const_cast<const GR&>(*it.rf).engine() : &const_cast<const GP&>(*it.p).engine();
        bool in = it.mode == 0 ? (const char*)ea >= (const char*)it.v.get() && (const char*)ea < (const char*)(it.v.get() + 1) : ea == &shared; if (!in || ea != eb) r.fail("base-reference", cat(name, ": engine() of mode ", it.mode, " does not refer to the live engine"));
        typename D::result_type lo = it.mode == 0 ? (it.v->min)() : it.mode == 1 ? (it.rf->min)() : (it.p->min)(), hi = it.mode == 0 ? (it.v->max)() : it.mode == 1 ? (it.rf->max)() : (it.p->max)(); if (!same(lo, (it.d->min)()) || !same(hi, (it.d->max)())) r.fail("wrong-output", cat(name, ": min()/max() differ from the distribution's"));
        const D& cd2 = it.mode == 0 ? const_cast<const GV&>(*it.v).distribution() : it.mode == 1 ? const_cast<const GR&>(*it.rf).distribution() : const_cast<const GP&>(*it.p).distribution(); if (!same_dist(cd2, *it.d)) r.fail("base-reference", cat(name, ": distribution() is not the generator's distribution"));
    }
}
// ---- canonical values ---------------------------------------------------------------
template<class E> u64 used(const E& e) { return e.pos; }
template<class E> u64 rngof() { return E::rng(); }
template<class T> std::string sh(T x) { return cat((long double)x); }
// uniform_01: offset / number of values, redrawn only when that rounds to 1
template<class T, class E> void check01(Run& r, const char* name, T x, const E& e, u64 p0) {
    u64 p1 = e.pos; if (p1 <= p0) r.fail("base-consumption", cat(name, ": a value was delivered without a base output")); f128 eps = std::numeric_limits<T>::epsilon(), N = (f128)E::rng() + (f128)1; 
    for (u64 p = p0; p < p1; ++p) { f128 v = (f128)script(e.key, p, E::rng()) / N; if (p + 1 < p1) { if (v < 1 - 4 * eps) r.fail("base-consumption", cat(name, ": base output ", p, " was thrown away although it maps below 1")); } else { f128 d = (f128)x - v; if (d < 0) d = -d; if (!(x >= 0 && x < 1) || d > 4 * eps * v) r.fail("wrong-output", cat(name, ": delivers ", sh(x), " for base value ", sh((long double)v))); } }
    r.ev(dbits(x));
}
template<class E, class T> void u01(Run& r, const char* name) {
    PlanScope ps; Plan& pl = ps.p; E e; seed_key(e, gen_key(r)); br::uniform_01<T> nw; br::uniform_01<E, T> byv(e); br::uniform_01<E&, T> byr(e); br::uniform_01<E*, T> byp(&e); r.step(cat("uniform_01 over ", name));
    for (unsigned k = 2 + (unsigned)r.size_biased(60); k-- > 0;) {
        int mode = (int)r.pick(5); bool inject = r.pick(5) == 4; E& b = mode == 1 ? byv.base() : e; u64 p0 = b.pos, f0 = pl.fired; if (inject) pl.arm(r.pick(3), r.pick(2)); bool ok = true; T x = 0; r.sig(mode * 2 + inject); pl.calls = 0;
        try { x = mode == 0 ? nw(e) : mode == 1 ? byv() : mode == 2 ? byr() : mode == 3 ? byp() : nw(e); } catch (BaseFailed&) { ok = false; } pl.disarm();
        if (ok != (pl.fired == f0)) r.fail("exception-swallowed", cat(name, ": uniform_01 hid the base engine's exception"));
        if (ok) check01(r, name, x, b, p0); if (&byr.base() != &e || &byp.base() != &e) r.fail("base-reference", cat(name, ": uniform_01::base() does not refer to the live engine"));
        if (mode == 4) { std::stringstream s; s << byv; br::uniform_01<E, T> t((E())); s >> t; if (s.fail() || !(t.base() == byv.base())) r.fail("restore-fails", cat(name, ": a restored uniform_01 does not continue where the original was")); T a = t(), c = byv(); if (a != c) r.fail("wrong-output", cat(name, ": a restored uniform_01 delivers another value")); }
        if (r.pick(8) == 7) { br::uniform_01<E, T> t(byv); if (!(t.base() == byv.base())) r.fail("copy-differs", name); byv = t; br::uniform_01<E&, T> t2(byr); t2(); (void)t2; }
    }
}
template<class T, std::size_t bits, class E> void canon(Run& r, E& e, Plan& pl, const char* name) {
    u64 p0 = e.pos, f0 = pl.fired; bool inject = r.pick(5) == 4; if (inject) pl.arm(r.pick(4), 0); T x = 0; bool ok = true; pl.calls = 0; pl.budget = 1000;
    try { x = br::generate_canonical<T, bits>(e); } catch (BaseFailed&) { ok = false; } catch (BudgetExceeded&) { r.fail("base-consumption", cat(name, ": generate_canonical consumed more than 1000 base outputs")); } pl.disarm(); if (ok != (pl.fired == f0)) r.fail("exception-swallowed", cat(name, ": generate_canonical hid the base engine's exception")); if (!ok) return;
    std::size_t b = bits < (std::size_t)std::numeric_limits<T>::digits ? bits : std::numeric_limits<T>::digits; f128 N = (f128)E::rng() + (f128)1, lim = 1; for (std::size_t i = 0; i < b; ++i) lim *= 2; f128 mult = 1, S = 0; u64 k = 0; do { S += (f128)script(e.key, p0 + k, E::rng()) * mult; mult *= N; ++k; } while (mult < lim);
    if (e.pos - p0 != k) r.fail("base-consumption", cat(name, ": generate_canonical with ", bits, " bits consumed ", e.pos - p0, " base outputs, documented are ", k));
    f128 v = S / mult, d = (f128)x - v, eps = std::numeric_limits<T>::epsilon(); if (d < 0) d = -d; r.ev(dbits(x)); if (!(x >= 0 && x < 1) || d > 8 * eps * v) r.fail("wrong-output", cat(name, ": generate_canonical with ", bits, " bits delivers ", sh(x), " where the base outputs say ", sh((long double)v)));
}
template<class E> void canonical(Run& r, const char* name) {
    PlanScope ps; E e; seed_key(e, gen_key(r)); r.step(cat("generate_canonical over ", name));
    for (unsigned k = 2 + (unsigned)r.size_biased(40); k-- > 0;) { u64 c = r.pick(12); r.sig(c); switch (c) { case 0: canon<double, 53>(r, e, ps.p, name); break; case 1: canon<float, 24>(r, e, ps.p, name); break; case 2: canon<long double, 64>(r, e, ps.p, name); break; case 3: canon<double, 1>(r, e, ps.p, name); break; case 4: canon<double, 32>(r, e, ps.p, name); break; case 5: canon<float, 60>(r, e, ps.p, name); break; case 6: canon<double, 10>(r, e, ps.p, name); break; case 7: canon<long double, 33>(r, e, ps.p, name); break; case 8: canon<double, 64>(r, e, ps.p, name); break; case 9: canon<float, 17>(r, e, ps.p, name); break; case 10: canon<double, 0>(r, e, ps.p, name); break; default: canon<double, 31>(r, e, ps.p, name); } }
}
// ---- random_number_generator -----------------------------------------------------------
template<class E, class I> void rng_(Run& r, const char* name) {
    PlanScope ps; Plan& pl = ps.p; E e, shadow; u64 key = gen_key(r); seed_key(e, key); seed_key(shadow, key); br::random_number_generator<E, I> g(e); r.step(cat("random_number_generator over ", name));
    for (unsigned k = 2 + (unsigned)r.size_biased(40); k-- > 0;) {
        u64 mx = (u64)std::numeric_limits<I>::max(); I n = (I)(1 + (r.pick(3) ? r.pick(mx < 200 ? mx : 200) : r.pick(5) ? r.pick(mx) : mx - 1)); bool inject = r.pick(5) == 4; pl.calls = 0; pl.disarm(); Plan before = pl; if (inject) before.arm(r.pick(4), 0); I x = 0, y = 0; r.sig(inject);
        bool a = guarded(r, pl, before, true, [&] { if (r.pick(2) == 0) x = g(n); else { br::random_number_generator<E, I> h(g); x = h(n); } }), b = guarded(r, pl, before, false, [&] { y = br::uniform_int_distribution<I>(0, n - 1)(shadow); });
        if (a != b) r.fail("exception", cat(name, ": random_number_generator and its distribution disagree about a failing engine")); if (a && (x != y || x < 0 || !(x < n))) r.fail("wrong-output", cat(name, ": random_number_generator(", n, ") delivers ", (i64)x, " instead of ", (i64)y)); if (!(e == shadow)) r.fail("base-consumption", cat(name, ": random_number_generator leaves its engine elsewhere")); r.ev((u64)x);
    }
}
typedef void (*Case)(Run&, const char*); struct Entry { const char* name; Case f; };
const Entry cases[] = {
    { "uniform_int on u32", &variate<U32, br::uniform_int_distribution<int> > }, { "uniform_int on discard_block", &variate<Db, br::uniform_int_distribution<int> > }, { "uniform_real on signed", &variate<S32, br::uniform_real_distribution<double> > }, { "bernoulli on u64", &variate<U64, br::bernoulli_distribution<double> > }, { "normal on lcg", &variate<Lcg, br::normal_distribution<double> > }, { "uniform_01 on double", &variate<RD, br::uniform_01<double> > }, { "discrete on u32", &variate<U32, br::discrete_distribution<int> > }, { "poisson on double", &variate<RD, br::poisson_distribution<int> > }, { "uniform_on_sphere on u32", &variate<U32, br::uniform_on_sphere<double> > }, { "normal on discard_block", &variate<Db, br::normal_distribution<double> > },
    { "u32/double", &u01<U32, double> }, { "u64/double", &u01<U64, double> }, { "u64/float", &u01<U64, float> }, { "s64/double", &u01<S64, double> }, { "s32/float", &u01<S32F, float> }, { "signed/long double", &u01<S32, long double> }, { "16 bit/float", &u01<U16, float> }, { "real/float", &u01<RD, float> }, { "float/double", &u01<RF, double> }, { "3 values/double", &u01<Three, double> }, { "far/float", &u01<Far2, float> }, { "lcg/float", &u01<Lcg, float> }, { "real/double", &u01<RD, double> }, { "s64/long double", &u01<S64, long double> },
    { "u32", &canonical<U32> }, { "u64", &canonical<U64> }, { "lcg", &canonical<Lcg> }, { "3 values", &canonical<Three> }, { "signed", &canonical<S32> }, { "s64", &canonical<S64> }, { "16 bit", &canonical<U16> }, { "bit", &canonical<Bit> }, { "odd", &canonical<Odd> }, { "2^24-1 values", &canonical<Below24> }, { "far", &canonical<Far> }, { "far 2^60", &canonical<Far2> }, { "double", &canonical<RD> }, { "float", &canonical<RF> }, { "m61", &canonical<M61> },
    { "u32/long", &rng_<U32, long> }, { "lcg/int", &rng_<Lcg, int> }, { "u64/unsigned", &rng_<U64, unsigned> }, { "signed/short", &rng_<S32, short> }, { "bit/long", &rng_<Bit, long> }, { "double/int", &rng_<RD, int> }, { "s64/long", &rng_<S64, long> }, { "u32/unsigned long", &rng_<U32, unsigned long> },
};
}
void wrappers14(Run& r) { std::size_t i = r.pick(sizeof(cases) / sizeof(cases[0])); r.sig(i); cases[i].f(r, cases[i].name); }
