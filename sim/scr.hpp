// Scripted base engines: every output is a pure function of (key, position), the simulator
// decides at which call the engine throws, and Mod<E> is the independent reference model
// of an adaptor over such engines.
#ifndef SIM_SCR_HPP
#define SIM_SCR_HPP
#include "core.hpp"
#include <boost/random.hpp>
#include <boost/random/generate_canonical.hpp>
#include <boost/random/random_number_generator.hpp>
#include <limits>
#include <vector>
#include <stdexcept>
#include <type_traits>
namespace sim { namespace scr {
typedef unsigned __int128 u128;
struct BaseFailed { int code; };
// when the scripted engines throw
struct Plan {
    u64 countdown, repeat, fired; bool live; u64 calls, budget;
    Plan() : countdown(~0ull), repeat(0), fired(0), live(true), calls(0), budget(200000) {}
    void arm(u64 c, u64 rep) { countdown = c; repeat = rep; }
    void disarm() { countdown = ~0ull; }
    void tick() {
        ++R->sim_steps; if (++calls > budget) throw BudgetExceeded();
        if (countdown == ~0ull) return;
        if (countdown == 0) { ++fired; if (repeat) --repeat; else countdown = ~0ull; if (live) SIM_FAULT("base-engine-throws"); throw BaseFailed{7}; }
        --countdown;
    }
};
extern Plan* plan;
// offset of output number i in [0, r]
inline u64 script(u64 key, u64 i, u64 r) {
    key ^= mix64(r) & ~7ull;
    u64 h = mix64(key * 0x9E3779B97F4A7C15ull + i), s = r == ~0ull ? h : (u64)(((u128)mix64(h) * ((u128)r + 1)) >> 64);
    switch (key & 7) {
    case 4: switch (h & 7) { case 0: return 0; case 1: return r; case 2: return r / 2; case 3: return r ? r - 1 : 0; case 4: return r / 2 + (r > 1); default: return s; }
    case 5: return (mix64(key ^ (i / 6)) & 3) == 0 ? r : s;
    case 6: { unsigned b = 0; while (b < 63 && (2ull << b) <= r) ++b; u64 p = (1ull << b) - 1; u64 d = h % 5; u64 c = (h >> 8) & 1 ? (r / (p / 4 + 1)) * (p / 4 + 1) : p; c = c + 2 >= d ? c + 2 - d : 0; return (h >> 16) & 1 ? (c > r ? r : c) : s; }
    case 7: return (mix64(key ^ (i / 9)) & 3) == 0 ? 0 : s;
    default: return s;
    }
}
template<class D, class T> struct Base {
    typedef T result_type; u64 key, pos;
    Base() { seed(); }
    Base(u64 k, u64 p) : key(k), pos(p) {}
    void seed() { key = 0x5eed; pos = 0; }
    template<class It> void seed_it(It& f, It l) { if (f == l) throw std::invalid_argument("Not enough elements in call to seed."); u64 a = *f++; if (f == l) throw std::invalid_argument("Not enough elements in call to seed."); u64 b = *f++; key = mix64(a << 32 | b); pos = 0; }
    template<class S> void seed_seq(S& s) { u32 w[2]; s.generate(w, w + 2); key = mix64((u64)w[0] << 32 | w[1]); pos = 0; }
    void seed_val(u64 v) { key = mix64(v ^ 0xabc); pos = 0; }
    u64 off() { plan->tick(); return script(key, pos++, D::rng()); }
    void discard(u64 z) { for (u64 i = 0; i < z; ++i) { plan->tick(); ++pos; } }
    template<class C> friend std::basic_ostream<C>& operator<<(std::basic_ostream<C>& o, const Base& b) { return o << b.key << C(' ') << b.pos; }
    template<class C> friend std::basic_istream<C>& operator>>(std::basic_istream<C>& i, Base& b) { u64 k, p; if (i >> k >> std::ws >> p) { b.key = k; b.pos = p; } return i; }
    friend bool operator==(const Base& a, const Base& b) { return a.key == b.key && a.pos == b.pos; }
    friend bool operator!=(const Base& a, const Base& b) { return !(a == b); }
};
#define SCR_COMMON(Self, T) typedef Base<Self, T> B_; \
    Self() {} explicit Self(T v) { this->seed_val((u64)v); } Self(u64 k, u64 p, int) : B_(k, p) {} \
    template<class S> explicit Self(S& s, typename std::enable_if<!std::is_arithmetic<S>::value && !std::is_convertible<S*, const B_*>::value>::type* = 0) { this->seed_seq(s); } \
    template<class It> Self(It& f, It l) { this->seed_it(f, l); } \
    void seed() { B_::seed(); } void seed(T v) { this->seed_val((u64)v); } template<class S> typename std::enable_if<!std::is_arithmetic<S>::value>::type seed(S& s) { this->seed_seq(s); } template<class It> void seed(It& f, It l) { this->seed_it(f, l); }
template<class T, T Lo, T Hi> struct ScrI : Base<ScrI<T, Lo, Hi>, T> {
    static const bool has_fixed_range = false;
    SCR_COMMON(ScrI, T)
    static u64 rng() { return (u64)Hi - (u64)Lo; }
    static constexpr T min() { return Lo; } static constexpr T max() { return Hi; }
    T operator()() { return (T)((u64)Lo + this->off()); }
};
template<class T> struct ScrR : Base<ScrR<T>, T> {      // all digits of the type
    static const bool has_fixed_range = false; enum { W = std::numeric_limits<T>::digits > 53 ? 53 : std::numeric_limits<T>::digits };
    typedef u32 seed_t;
    typedef Base<ScrR<T>, T> B_; ScrR() {} explicit ScrR(u32 v) { this->seed_val(v); } ScrR(u64 k, u64 p, int) : B_(k, p) {}
    template<class S> explicit ScrR(S& s, typename std::enable_if<!std::is_arithmetic<S>::value && !std::is_convertible<S*, const B_*>::value>::type* = 0) { this->seed_seq(s); }
    template<class It> ScrR(It& f, It l) { this->seed_it(f, l); }
    void seed() { B_::seed(); } void seed(u32 v) { this->seed_val(v); } template<class S> typename std::enable_if<!std::is_arithmetic<S>::value>::type seed(S& s) { this->seed_seq(s); } template<class It> void seed(It& f, It l) { this->seed_it(f, l); }
    static u64 rng() { return (1ull << W) - 1; }
    static constexpr T min() { return 0; } static constexpr T max() { return 1; }
    T operator()() { return T(this->off()) / T(1ull << W); }
};
// linear-congruential-like base for additive_combine: range [1, modulus-1]
template<class T, T M> struct ScrM : Base<ScrM<T, M>, T> {
    static const bool has_fixed_range = false; static const T modulus = M;
    SCR_COMMON(ScrM, T)
    static u64 rng() { return (u64)M - 2; }
    static constexpr T min() { return 1; } static constexpr T max() { return M - 1; }
    T operator()() { return (T)(1 + this->off()); }
};
template<class T, T M> const T ScrM<T, M>::modulus;
// ---- reference models ------------------------------------------------------
struct Words { std::vector<u32> w; std::size_t pos; Words() : pos(0) {} };
struct WSeq { const std::vector<u32>* w; typedef u32 result_type; template<class It> void generate(It f, It l) const { std::size_t i = 0; for (; f != l; ++f, ++i) *f = w->empty() ? 0 : (*w)[i % w->size()]; } };
template<class E> struct Mod;
template<class E> struct Leaf { typedef typename E::result_type T; enum { stateless = 1, real = !std::is_integral<T>::value };
    u64 key, pos; Leaf() { seed(); } u64 next() { return script(key, pos++, E::rng()); }     // offset from min
    void seed() { key = 0x5eed; pos = 0; } void seed_val(u64 v) { key = mix64(v ^ 0xabc); pos = 0; }
    void seed_words(const std::vector<u32>& w, std::size_t& p) { u64 a = w[p++], b = w[p++]; key = mix64(a << 32 | b); pos = 0; }
    void seed_seq(const std::vector<u32>& w) { u32 b[2] = { w.empty() ? 0 : w[0], w.empty() ? 0 : w[1 % w.size()] }; key = mix64((u64)b[0] << 32 | b[1]); pos = 0; }
    void leaves(std::vector<u64>& o) const { o.push_back(key); o.push_back(pos); } void set_leaves(const u64*& p) { key = *p++; pos = *p++; }
    static u64 rng() { return E::rng(); } static u64 lo() { return (u64)(typename std::conditional<std::is_integral<T>::value, T, int>::type)E::min(); } static unsigned words() { return 2; } static unsigned bases() { return 1; } void init() {} void discard(u64 z) { pos += z; }
};
template<class T, T L, T H> struct Mod<ScrI<T, L, H> > : Leaf<ScrI<T, L, H> > {};
template<class T> struct Mod<ScrR<T> > : Leaf<ScrR<T> > {};
template<class T, T M> struct Mod<ScrM<T, M> > : Leaf<ScrM<T, M> > {};
template<class B> struct Over { typedef typename B::result_type T; enum { real = Mod<B>::real };
    Mod<B> b; void leaves(std::vector<u64>& o) const { b.leaves(o); } void set_leaves(const u64*& p) { b.set_leaves(p); } static unsigned words() { return Mod<B>::words(); } static unsigned bases() { return Mod<B>::bases(); }
};
#define MOD_SEED MOD_SEED_(u64)
#define MOD_SEED_(CT) void seed() { this->b.seed(); init(); } void seed_val(u64 v) { this->b.seed_val((u64)(CT)v); init(); } void seed_words(const std::vector<u32>& w, std::size_t& p) { this->b.seed_words(w, p); init(); } void seed_seq(const std::vector<u32>& w) { this->b.seed_seq(w); init(); } void discard(u64 z) { while (z--) next(); }
template<class B, std::size_t P, std::size_t N> struct Mod<boost::random::discard_block_engine<B, P, N> > : Over<B> { enum { stateless = 0 };
    u64 n; Mod() : n(0) {} void init() { n = 0; } u64 next() { if (n >= N) { for (u64 i = n; i < P; ++i) this->b.next(); n = 0; } ++n; return this->b.next(); }
    static u64 rng() { return Mod<B>::rng(); } static u64 lo() { return Mod<B>::lo(); } MOD_SEED };
template<class B, int P, int N> struct Mod<boost::random::discard_block<B, P, N> > : Mod<boost::random::discard_block_engine<B, P, N> > {};
template<class B, std::size_t K> struct Mod<boost::random::shuffle_order_engine<B, K> > : Over<B> { enum { stateless = 0 };
    u64 v[K], y; Mod() { init(); } void init() { for (auto& x : v) x = this->b.next(); y = this->b.next(); }
    u64 next() { std::size_t j = (std::size_t)((u128)y * K / ((u128)rng() + 1)); y = v[j]; v[j] = this->b.next(); return y; }
    static u64 rng() { return Mod<B>::rng(); } static u64 lo() { return Mod<B>::lo(); } MOD_SEED };
template<class B, std::size_t W, class U> struct Mod<boost::random::independent_bits_engine<B, W, U> > : Over<B> { enum { stateless = Mod<B>::stateless };
    void init() {}
    u64 next() {
        u128 Rg = (u128)Mod<B>::rng() + 1; unsigned m = 0; while (((u128)2 << m) <= Rg) ++m; u64 n = (W + m - 1) / m, w0, n0; u128 y0, y1;
        for (;;) { w0 = W / n; n0 = n - W % n; y0 = (Rg >> w0) << w0; y1 = (Rg >> (w0 + 1)) << (w0 + 1); if (n != (W + m - 1) / m || Rg - y0 <= y0 / n) break; ++n; }
        u128 S = 0; for (u64 k = 0; k < n; ++k) { u64 w = k < n0 ? w0 : w0 + 1; u128 y = k < n0 ? y0 : y1, u; do u = this->b.next(); while (u >= y); S = (S << w) + (u & (((u128)1 << w) - 1)); } return (u64)S; }
    static u64 rng() { return W == 64 ? ~0ull : (1ull << (W & 63)) - 1; } static u64 lo() { return 0; } MOD_SEED_(typename B::result_type) };
template<class B1, class B2> struct Two { typedef typename B1::result_type T; enum { stateless = (int)Mod<B1>::stateless && (int)Mod<B2>::stateless, real = 0 };
    Mod<B1> a; Mod<B2> b; void leaves(std::vector<u64>& o) const { a.leaves(o); b.leaves(o); } void set_leaves(const u64*& p) { a.set_leaves(p); b.set_leaves(p); } static unsigned words() { return Mod<B1>::words() + Mod<B2>::words(); } static unsigned bases() { return Mod<B1>::bases() + Mod<B2>::bases(); }
    void seed() { a.seed(); b.seed(); } void seed_val(u64 v) { a.seed_val(v); b.seed_val(v); } void seed_words(const std::vector<u32>& w, std::size_t& p) { a.seed_words(w, p); b.seed_words(w, p); } void seed_seq(const std::vector<u32>& w) { a.seed_seq(w); b.seed_seq(w); } void init() {} void discard(u64 z) { a.discard(z); b.discard(z); } };
template<class B1, int S1, class B2, int S2> struct Mod<boost::random::xor_combine_engine<B1, S1, B2, S2> > : Two<B1, B2> { typedef typename B1::result_type T;
    u64 next() { T x = (T)(Mod<B1>::lo() + this->a.next()), y = (T)(Mod<B2>::lo() + this->b.next()); return (u64)(T)((u64)x << S1 ^ (u64)y << S2); } static u64 rng() { return ~0ull; } static u64 lo() { return 0; } };
template<class B1, class B2> struct Mod<boost::random::additive_combine_engine<B1, B2> > : Two<B1, B2> {
    u64 next() { u128 m = (u128)Mod<B1>::rng() + 1, x = 1 + (u128)this->a.next(), y = 1 + (u128)this->b.next(); u128 d = (x + m * 4 - y) % m; if (d == 0) d = m; return (u64)(d - 1); }      // (x - y) mod (modulus - 1), represented in [1, modulus - 1]
    static u64 rng() { return Mod<B1>::rng(); } static u64 lo() { return 1; } };
// bases of the real object, in the model's order; false where the adaptor hides them
template<class T, T L, T H> bool leaves(const ScrI<T, L, H>& e, std::vector<u64>& o) { o.push_back(e.key); o.push_back(e.pos); return true; }
template<class T> bool leaves(const ScrR<T>& e, std::vector<u64>& o) { o.push_back(e.key); o.push_back(e.pos); return true; }
template<class T, T M> bool leaves(const ScrM<T, M>& e, std::vector<u64>& o) { o.push_back(e.key); o.push_back(e.pos); return true; }
template<class B1, int S1, class B2, int S2> bool leaves(const boost::random::xor_combine_engine<B1, S1, B2, S2>& e, std::vector<u64>& o);
template<class B1, class B2> bool leaves(const boost::random::additive_combine_engine<B1, B2>& e, std::vector<u64>& o);
template<class B, std::size_t P, std::size_t N> bool leaves(const boost::random::discard_block_engine<B, P, N>& e, std::vector<u64>& o);
template<class B, std::size_t K> bool leaves(const boost::random::shuffle_order_engine<B, K>& e, std::vector<u64>& o);
template<class B, std::size_t W, class U> bool leaves(const boost::random::independent_bits_engine<B, W, U>& e, std::vector<u64>& o) { return leaves(e.base(), o); }
template<class B, std::size_t P, std::size_t N> bool leaves(const boost::random::discard_block_engine<B, P, N>& e, std::vector<u64>& o) { return leaves(e.base(), o); }
template<class B, std::size_t K> bool leaves(const boost::random::shuffle_order_engine<B, K>& e, std::vector<u64>& o) { return leaves(e.base(), o); }
template<class B1, int S1, class B2, int S2> bool leaves(const boost::random::xor_combine_engine<B1, S1, B2, S2>& e, std::vector<u64>& o) { return leaves(e.base1(), o) && leaves(e.base2(), o); }
template<class B1, class B2> bool leaves(const boost::random::additive_combine_engine<B1, B2>& e, std::vector<u64>& o) { std::ostringstream s; s << e; u64 x; std::istringstream i(s.str()); while (i >> x) o.push_back(x); return true; }
template<class A> bool base_inside(const A&, const void*&, long) { return true; }
template<class A> auto base_inside(const A& a, const void*& p, int) -> decltype(a.base(), bool()) { p = &a.base(); return (const char*)p >= (const char*)&a && (const char*)p < (const char*)(&a + 1); }
template<class A> struct BaseOf { typedef typename A::base_type type; };
template<class B1, int S1, class B2, int S2> struct BaseOf<boost::random::xor_combine_engine<B1, S1, B2, S2> > { typedef void type; };
template<class B1, class B2> struct BaseOf<boost::random::additive_combine_engine<B1, B2> > { typedef void type; };
}}
#endif
