// P14: adaptors and wrappers compose exactly with any base engine.
#include "scr.hpp"
#include "io.hpp"
#include "P14.hpp"
#include <memory>
#include <list>
using namespace sim;
namespace sim { namespace scr { Plan* plan; } }
using namespace sim::scr;
namespace br = boost::random;
namespace {
template<class M> void bulk(M& g, u64 rng, std::vector<u32>& out, std::true_type) {       // integers: low bits of each output, rejecting above the largest multiple, packed least significant first
    if (out.empty()) return; u128 Rg = (u128)rng + 1; unsigned bits = 0; while (((u128)2 << bits) <= Rg) ++bits;
    if (Rg != ((u128)1 << bits)) { unsigned d = 0; while ((2u << d) <= bits) ++d; u128 top = Rg >> (bits - d); unsigned e = 0; while (!((top >> e) & 1)) ++e; bits = bits - d + e; }
    u128 lim = (Rg >> bits) << bits, acc = 0; unsigned have = 0; std::size_t i = 0;
    for (;;) { u64 v; do v = g.next(); while ((u128)v >= lim); if (bits < 64) v &= (1ull << bits) - 1; acc |= (u128)v << have; have += bits; while (have >= 32) { out[i++] = (u32)acc; acc >>= 32; have -= 32; if (i == out.size()) return; } }
}
template<class M> void bulk(M& g, u64 rng, std::vector<u32>& out, std::false_type) {
    if (out.empty()) return; unsigned w = 0; while (w < 64 && (rng >> w)) ++w; u128 acc = 0; unsigned have = 0; std::size_t i = 0;
    for (;;) { acc |= (u128)g.next() << have; have += w; while (have >= 32) { out[i++] = (u32)acc; acc >>= 32; have -= 32; if (i == out.size()) return; } }
}
template<class T> u64 val(T x, u64, std::true_type) { return (u64)x; }
template<class T> u64 val(T x, u64 rng, std::false_type) { return (u64)(x * ((T)rng + 1)); }
template<class B, class A, class M> typename std::enable_if<!std::is_void<B>::value, A*>::type from_base(M& m, const std::vector<u32>& w, u64 d, bool mv) {
    B b; WSeq s = { &w }; b.seed(s); b.discard(d); m.b.seed_seq(w); m.b.discard(d); if (mv) return new A(std::move(b)); const B& c = b; return new A(c);
}
template<class B, class A, class M> typename std::enable_if<std::is_void<B>::value, A*>::type from_base(M&, const std::vector<u32>&, u64, bool) { return 0; }

template<class A, class SeedT> void adaptor(Run& r, const char* name) {
    typedef Mod<A> M; typedef typename A::result_type T; typedef std::integral_constant<bool, !(bool)M::real> isint; typedef typename BaseOf<A>::type BT;
    PlanScope ps; Plan& pl = ps.p; std::unique_ptr<A> a(new A); M m; bool dirty = false; m.seed();
    auto check = [&](const char* op) {
        const void* p = 0; if (!base_inside(*a, p, 0)) r.fail("base-reference", cat(name, ": base() does not refer to the adaptor's own engine"));
        if (dirty) return; std::vector<u64> x, y; leaves(*a, x); m.leaves(y);
        if (x != y) { std::string s; for (std::size_t i = 0; i < x.size() && i < y.size(); ++i) s += cat(i ? ", " : "", x[i], "/", y[i]); r.fail("base-consumption", cat(name, ": after ", op, " the base engine (seed, outputs used) is not where the documented algorithm leaves it (real/expected: ", s, ")")); }
    };
    auto drawn = [&](T x, const char* op) {
        if (dirty) { if (!std::is_same<BT, void>::value && (isint::value ? !(x >= (a->min)() && x <= (a->max)()) : !(x >= 0 && x < 1))) r.fail("out-of-range", cat(name, " delivers a value outside [min(), max()] after an interrupted operation")); return; }
        u64 got = val(x, M::rng(), isint()), o = m.next(), want = isint::value ? (u64)(T)(M::lo() + o) : o; r.ev(got); if (got != want) r.fail("wrong-output", cat(name, ": ", op, " delivers ", got, ", the documented function of the base engine's outputs is ", want));
    };
    unsigned n = 3 + (unsigned)r.size_biased(60);
    for (unsigned k = 0; k < n; ++k) {
        bool inject = r.pick(4) == 3; u64 cd = inject ? r.size_biased(300) : 0, rep = inject && r.pick(4) == 3 ? r.pick(4) : 0; u64 op = r.pick(16); u64 fired = pl.fired; bool stateless_op = true, threw = false, destroyed = false; const char* what = ""; pl.calls = 0;
        std::vector<u32> w; for (u64 i = 1 + r.pick(3); i-- > 0;) w.push_back((u32)r.pick64()); u64 sv = r.pick(3) ? r.pick(200) : (u64)(SeedT)r.pick64(); SeedT tv = (SeedT)sv; bool ctor = r.pick(2);
        if (op < 10 || op == 15) w.resize(1); r.sig(op * 2 + inject);
        try {
            if (op < 6) { what = "operator()"; u64 c = 1 + r.pick(op == 5 ? 300 : 12); r.step(cat(name, " draw ", c)); for (u64 i = 0; i < c; ++i) { if (inject) { if (i == 0) pl.arm(cd, rep); } T x = (*a)(); drawn(x, what); } }
            else if (op == 6 || op == 7) { what = "discard"; u64 z = r.size_biased(600); r.step(cat(name, " discard ", z)); if (inject) pl.arm(cd, rep); a->discard(z); if (!dirty) m.discard(z); }
            else if (op == 8 || op == 9) {
                what = "generate"; std::size_t c = (std::size_t)r.pick(op == 8 ? 9 : 90); int kind = (int)r.pick(3); r.step(cat(name, " generate ", c, " kind ", kind)); if (inject) pl.arm(cd, rep); std::vector<u32> g(c, 0xaaaaaaaau);
                if (kind == 0) a->generate(g.begin(), g.end()); else if (kind == 1) { std::vector<u64> q(c, ~0ull); a->generate(q.begin(), q.end()); for (std::size_t i = 0; i < c; ++i) { if (q[i] >> 32) r.fail("bulk", cat(name, ": generate() delivers more than 32 bits")); g[i] = (u32)q[i]; } } else { std::list<u32> q(c); a->generate(q.begin(), q.end()); std::size_t i = 0; for (u32 x : q) g[i++] = x; }
                if (!dirty) { std::vector<u32> e(c); u64 rg = (u64)0; rg = isint::value ? (u64)(a->max)() - (u64)(a->min)() : M::rng(); bulk(m, rg, e, isint()); for (u32 x : g) r.ev(x); if (g != e) r.fail("bulk", cat(name, ": generate() of ", c, " words differs from the packed base outputs")); }
            }
            else if (op == 10) { what = "seeding"; stateless_op = false; r.step(cat(name, ctor ? " fresh" : " seed()")); if (inject) pl.arm(cd, rep); if (ctor) { a.reset(new A); } else a->seed(); m.seed(); dirty = false; }
            else if (op == 11) { what = "seeding"; stateless_op = false; r.step(cat(name, ctor ? " construct " : " seed ", (i64)sv)); if (inject) pl.arm(cd, rep); if (ctor) { std::unique_ptr<A> t(new A(tv)); a = std::move(t); } else a->seed(tv); m.seed_val((u64)tv); dirty = false; }
            else if (op == 12) { what = "seeding"; stateless_op = false; WSeq s = { &w }; r.step(cat(name, ctor ? " construct" : " seed", " from a seed sequence")); if (inject) pl.arm(cd, rep); if (ctor) { std::unique_ptr<A> t(new A(s)); a = std::move(t); } else a->seed(s); m.seed_seq(w); dirty = false; }
            else if (op == 13) {
                what = "seeding"; stateless_op = false; unsigned need = M::words(); std::vector<u32> q; for (unsigned i = 0; i < need + 2; ++i) q.push_back((u32)mix64(sv + i * 77)); unsigned have = r.pick(5) ? need + (unsigned)r.pick(3) : (unsigned)r.pick(need); const u32* f = q.data(); const u32* l = f + have; r.step(cat(name, ctor ? " construct" : " seed", " from a range of ", have, " of ", need)); if (inject) pl.arm(cd, rep);
                try { if (ctor) { std::unique_ptr<A> t(new A(f, l)); a = std::move(t); } else a->seed(f, l); if (have < need) r.fail("short-range-accepted", cat(name, ": a seed range with ", have, " of ", need, " words was accepted")); if (f != q.data() + need) r.fail("seed-range", cat(name, ": seeding consumed ", f - q.data(), " words instead of ", need)); std::size_t p = 0; m.seed_words(q, p); dirty = false; }
                catch (std::invalid_argument&) { if (have >= need) r.fail("seed-range", cat(name, ": a complete seed range was refused")); SIM_FAULT("seed-range-too-short"); if (!ctor) dirty = true; }
            }
            else if (op == 14) { what = "construction from a base engine"; stateless_op = false; u64 d = r.pick(20); bool mv = r.pick(2); M m2(m); if (std::is_void<BT>::value) continue; r.step(cat(name, " construct from a base engine", mv ? " (move)" : "")); pl.disarm(); if (inject) pl.arm(cd + d, rep); std::unique_ptr<A> t(from_base<BT, A>(m2, w, d, mv)); a = std::move(t); m2.init(); m = m2; dirty = false; }
            else {
                what = "checkpoint"; stateless_op = false; pl.disarm(); r.step(cat(name, " checkpoint, copy or assignment"));
                if (dirty) { std::unique_ptr<A> t(new A(tv)); *a = *t; m.seed_val((u64)tv); dirty = false; check("assignment"); continue; }
                std::unique_ptr<A> t(ctor ? new A(*a) : new A(tv)); if (!ctor) { if (r.pick(2)) { try { pl.arm(r.pick(40), 0); for (int i = 0; i < 30; ++i) (*t)(); } catch (BaseFailed&) {} pl.disarm(); fired = pl.fired; } std::stringstream s; s << *a; s >> *t; if (s.fail()) r.fail("restore-fails", cat(name, ": restoring a checkpoint failed")); }
                if (!(*t == *a) || *t != *a) r.fail("copy-differs", cat(name, ": a copy or restored checkpoint is not equal to the original")); a = std::move(t);
            }
        } catch (BaseFailed&) { threw = true; }
        pl.disarm();
        if (pl.fired != fired && !threw) r.fail("exception-swallowed", cat(name, ": the base engine threw during ", what, " but the caller saw no exception"));
        if (threw && !destroyed) { r.step(cat("  base engine threw during ", what)); if (stateless_op && M::stateless && !dirty) { std::vector<u64> x; leaves(*a, x); const u64* p = x.data(); m.set_leaves(p); SIM_PROBE("stateless adaptor continues after a failed call"); } else if (ctor && (op == 11 || op == 12 || op == 13 || op == 10)) SIM_PROBE("failed construction leaves the old object"); else if (op != 14) { dirty = true; SIM_PROBE("stateful adaptor interrupted"); } }
        check(what);
    }
}
typedef ScrI<u32, 0, 0xffffffffu> U32; typedef ScrI<u32, 1, 2147483646u> Lcg; typedef ScrI<u64, 0, ~0ull> U64; typedef ScrI<u32, 0, 2> Three; typedef ScrI<std::int32_t, -5, 1000> S32; typedef ScrI<std::int64_t, std::numeric_limits<std::int64_t>::min(), std::numeric_limits<std::int64_t>::max()> S64; typedef ScrI<std::uint16_t, 0, 65535> U16; typedef ScrI<u64, 0, (1ull << 61) - 2> M61; typedef ScrI<u32, 0, 1> Bit; typedef ScrI<u64, 3, (1ull << 33) + 7> Odd; typedef ScrI<std::int32_t, std::numeric_limits<std::int32_t>::min(), std::numeric_limits<std::int32_t>::max()> S32F; typedef ScrI<u32, 0, 713> Small; typedef ScrI<u32, 10, 14> Five; typedef ScrI<u64, 1, ~0ull> U64m; typedef ScrR<double> RD; typedef ScrR<float> RF;
typedef void (*Case)(Run&, const char*);
struct Entry { const char* name; Case f; };
#define E_(id, S, ...) { id, &adaptor<__VA_ARGS__, S > }
const Entry cases[] = {
    E_("discard_block<u32,10,3>", u32, br::discard_block_engine<U32, 10, 3>), E_("discard_block<signed,5,5>", std::int32_t, br::discard_block_engine<S32, 5, 5>), E_("discard_block<double,7,1>", u32, br::discard_block_engine<RD, 7, 1>), E_("discard_block<float,1,1>", u32, br::discard_block_engine<RF, 1, 1>), E_("discard_block<u64,223,24>", u64, br::discard_block_engine<U64, 223, 24>), E_("discard_block<16 bit,389,388>", std::uint16_t, br::discard_block_engine<U16, 389, 388>),
    E_("discard_block<float,24,23>", u32, br::discard_block_engine<RF, 24, 23>), E_("discard_block<3 values,8,5>", u32, br::discard_block_engine<Three, 8, 5>),
    E_("shuffle_order<u32,97>", u32, br::shuffle_order_engine<U32, 97>), E_("shuffle_order<lcg,256>", u32, br::shuffle_order_engine<Lcg, 256>), E_("shuffle_order<u64,16>", u64, br::shuffle_order_engine<U64, 16>), E_("shuffle_order<u64,100>", u64, br::shuffle_order_engine<U64, 100>), E_("shuffle_order<signed,7>", std::int32_t, br::shuffle_order_engine<S32, 7>), E_("shuffle_order<s64,5>", std::int64_t, br::shuffle_order_engine<S64, 5>), E_("shuffle_order<s32 full,9>", std::int32_t, br::shuffle_order_engine<S32F, 9>), E_("shuffle_order<16 bit,3>", std::uint16_t, br::shuffle_order_engine<U16, 3>), E_("shuffle_order<odd,1>", u64, br::shuffle_order_engine<Odd, 1>), E_("shuffle_order<m61,64>", u64, br::shuffle_order_engine<M61, 64>), E_("shuffle_order<5 values,31>", u32, br::shuffle_order_engine<Five, 31>), E_("shuffle_order<u64-1,1000>", u64, br::shuffle_order_engine<U64m, 1000>), E_("shuffle_order<16 bit,300>", std::uint16_t, br::shuffle_order_engine<U16, 300>), E_("shuffle_order<bit,2>", u32, br::shuffle_order_engine<Bit, 2>),
    E_("independent_bits<u32,24>", u32, br::independent_bits_engine<U32, 24, u32>), E_("independent_bits<u32,32>", u32, br::independent_bits_engine<U32, 32, u32>), E_("independent_bits<u32,64>", u32, br::independent_bits_engine<U32, 64, u64>), E_("independent_bits<lcg,32>", u32, br::independent_bits_engine<Lcg, 32, u32>), E_("independent_bits<lcg,7>", u32, br::independent_bits_engine<Lcg, 7, std::uint16_t>), E_("independent_bits<lcg,64>", u32, br::independent_bits_engine<Lcg, 64, u64>), E_("independent_bits<3 values,5>", u32, br::independent_bits_engine<Three, 5, u32>), E_("independent_bits<3 values,2>", u32, br::independent_bits_engine<Three, 2, u32>), E_("independent_bits<signed,10>", std::int32_t, br::independent_bits_engine<S32, 10, u32>), E_("independent_bits<signed,61>", std::int32_t, br::independent_bits_engine<S32, 61, u64>), E_("independent_bits<s64,64>", std::int64_t, br::independent_bits_engine<S64, 64, u64>), E_("independent_bits<s64,13>", std::int64_t, br::independent_bits_engine<S64, 13, u32>), E_("independent_bits<16 bit,33>", std::uint16_t, br::independent_bits_engine<U16, 33, u64>), E_("independent_bits<16 bit,16>", std::uint16_t, br::independent_bits_engine<U16, 16, u32>), E_("independent_bits<bit,17>", u32, br::independent_bits_engine<Bit, 17, u32>), E_("independent_bits<odd,64>", u64, br::independent_bits_engine<Odd, 64, u64>), E_("independent_bits<m61,61>", u64, br::independent_bits_engine<M61, 61, u64>), E_("independent_bits<m61,1>", u64, br::independent_bits_engine<M61, 1, u32>), E_("independent_bits<714,31>", u32, br::independent_bits_engine<Small, 31, u32>), E_("independent_bits<5 values,19>", u32, br::independent_bits_engine<Five, 19, u32>), E_("independent_bits<u64-1,64>", u64, br::independent_bits_engine<U64m, 64, u64>), E_("independent_bits<u64,8>", u64, br::independent_bits_engine<U64, 8, u32>),
    E_("xor_combine<u32,0,u32,3>", u32, br::xor_combine_engine<U32, 0, U32, 3>), E_("xor_combine<u64,13,u64,0>", u64, br::xor_combine_engine<U64, 13, U64, 0>), E_("xor_combine<u32,5,u32,9>", u32, br::xor_combine_engine<U32, 5, U32, 9>),
    E_("additive_combine<ecuyer>", u32, br::additive_combine_engine<ScrM<u32, 2147483563u>, ScrM<u32, 2147483399u> >), E_("additive_combine<101,97>", u32, br::additive_combine_engine<ScrM<u32, 101u>, ScrM<u32, 97u> >), E_("additive_combine<u64>", u64, br::additive_combine_engine<ScrM<u64, 18446744073709551557ull>, ScrM<u64, 18446744073709551533ull> >), E_("additive_combine<u32 top>", u32, br::additive_combine_engine<ScrM<u32, 4294967291u>, ScrM<u32, 4294967279u> >),
    E_("shuffle_order<discard_block>", u32, br::shuffle_order_engine<br::discard_block_engine<Lcg, 5, 2>, 8>), E_("independent_bits<shuffle_order>", u32, br::independent_bits_engine<br::shuffle_order_engine<Lcg, 4>, 40, u64>), E_("discard_block<independent_bits>", u32, br::discard_block_engine<br::independent_bits_engine<Small, 30, u32>, 6, 4>), E_("independent_bits<xor_combine>", u64, br::independent_bits_engine<br::xor_combine_engine<U64, 0, U64, 1>, 23, u32>), E_("shuffle_order<independent_bits<lcg>>", u64, br::shuffle_order_engine<br::independent_bits_engine<Lcg, 50, u64>, 12>),
};
void adaptors(Run& r) { const Entry& e = cases[r.pick(sizeof(cases) / sizeof(cases[0]))]; r.sig(name_hash(e.name)); r.step(e.name); e.f(r, e.name); }
}
int main(int argc, char** argv) {
    CheckInfo c; c.property = "P14";
    c.technique_rule = "One case is one seeded history of an adaptor, wrapper or bulk generator over scripted base engines (arbitrary result types and ranges, bursts of boundary values) whose n-th call throws when the run decides. Values and the base engine's exact position are compared with an executable model of the documented composition after every operation. Cases are distinct when adaptor, operation sequence and fault placement differ.";
    c.worlds = { { "adaptors", adaptors, 3 }, { "wrappers", wrappers14, 2 } };
    c.real = { "discard_block_engine", "shuffle_order_engine", "independent_bits_engine", "xor_combine_engine", "additive_combine_engine", "variate_generator", "uniform_01", "random_number_generator", "generate_canonical", "detail::generate" };
    c.stub = { "base engines (scripted)" };
    c.assumptions = { "base engines that throw do not advance on the failed call" };
    c.quick_runs = 40000000; c.thorough_runs = 4000000000ull; c.quick_secs = 35; c.thorough_secs = 1500;
    return run_main(argc, argv, c);
}
