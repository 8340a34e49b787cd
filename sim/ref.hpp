// Independent reference models of the engines: written from the documented recurrences
// and seeding rules (naive, one step at a time), never sharing code with /repo.
#ifndef SIM_REF_HPP
#define SIM_REF_HPP
#include "core.hpp"
#include <vector>
#include <memory>
namespace ref {
using sim::u64; using sim::u32;
typedef unsigned __int128 u128;

// where seed words come from
struct Src { virtual ~Src() {} virtual void words(u32* out, std::size_t n) = 0; virtual bool is_seq() const = 0; };

// values delivered by a model: integers as is, floating point as exact integer numerator over 2^w
struct Model {
    virtual ~Model() {}
    virtual Model* clone() const = 0;
    virtual u64 next() = 0;                 // raw integer (numerator for real engines)
    virtual void seed() = 0;
    virtual void seed(u64 v) = 0;
    virtual void seed(Src& s) = 0;
    virtual void jump(u64 z) { for (u64 i = 0; i < z; ++i) next(); }
    virtual bool can_jump() const { return false; }
    virtual u64 min() const = 0;
    virtual u64 max() const = 0;
    virtual std::size_t seed_words() const = 0;   // words consumed from a range
    virtual u64 draws_cost() const { return 1; }  // base draws per draw
    virtual std::size_t lookahead() const = 0;    // outputs that determine the state
    virtual bool hard_seed(u64 rnd, u64& out) const { (void)rnd; (void)out; return false; }   // a seed value at an arithmetic corner of the recurrence
};

// s = sum word_j 2^(32 j) mod m, ceil(log2(m)/32) words; a seed sequence supplies 3 extra leading words
inline unsigned words_for(u128 m) { unsigned b = 0; u128 x = m - 1; while (x) { ++b; x >>= 1; } if (b == 0) b = 1; return (b + 31) / 32; }
inline u64 one_int(Src& s, u128 m) {
    unsigned k = words_for(m); u32 w[16]; u128 v = 0;
    unsigned off = s.is_seq() ? 3 : 0;
    s.words(w, k + off);
    for (unsigned j = 0; j < k; ++j) v += (u128)w[off + j] << (32 * j);
    return (u64)(v % m);
}

// x <- a x + c mod m   (m == 0 in the template means 2^bits)
struct Lcg : Model {
    u128 m; u64 a, c, x; unsigned bits;
    Lcg(unsigned bits_, u64 a_, u64 c_, u64 m_) : m(m_ ? (u128)m_ : (u128)1 << bits_), a(a_), c(c_), x(1), bits(bits_) { seed(); }
    Model* clone() const { return new Lcg(*this); }
    u64 next() { x = (u64)(((u128)a * x + c) % m); return x; }
    void set(u64 v) { x = (u64)(v % m); if (c == 0 && x == 0) x = 1; }
    // states at which a schoolbook 32-bit-digit division of a*x by m meets a partial remainder whose top digit equals m's,
    // or at which a*x + c is within a hair of a multiple of m
    bool hard_seed(u64 rnd, u64& out) const {
        if (m > ~(u64)0 || m < 1000 || !a) return false;
        u64 mm = (u64)m; int s = __builtin_clzll(mm); u64 mn = mm << s, m1 = mn >> 32, an = (a % mm) << s; if (!an) return false;
        if (rnd & 1) { u64 k = (rnd >> 1) % mm; u128 t = (u128)k * (a % mm) / mm; u128 lo = t * mm; lo = lo > c ? lo - c : 0; out = (u64)((lo + (a % mm) - 1) / (a % mm)) % mm; return true; }
        u64 qmax = (u64)((((u128)mm * an) >> 32) / mn); if (!qmax) return false;
        u64 q = (rnd >> 1) % qmax; u128 target = ((u128)q * mn + (m1 << 32)) << 32; u128 b = (target + an - 1) / an;
        if (b >= m) return false; out = (u64)b; return true;
    }
    void seed() { set(1); }
    void seed(u64 v) { set(bits < 64 ? v & ((1ull << bits) - 1) : v); }
    void seed(Src& s) { set(one_int(s, m)); }
    bool can_jump() const { return true; }
    void jump(u64 z) {       // affine map composition by squaring
        u128 A = a % m, C = c % m, ra = 1 % m, rc = 0;
        while (z) { if (z & 1) { ra = A * ra % m; rc = (A * rc + C) % m; } C = (A * C + C) % m; A = A * A % m; z >>= 1; }
        // careful: values < 2^64 so products fit 128 bits
        x = (u64)((ra * x + rc) % m);
    }
    u64 min() const { return c == 0 ? 1 : 0; }
    u64 max() const { return (u64)(m - 1); }
    std::size_t seed_words() const { return words_for(m); }
    std::size_t lookahead() const { return 1; }
};
// 48 bit LCG, upper 31 bits
struct Rand48 : Model {
    Lcg g;
    Rand48() : g(64, 0x5DEECE66Dull, 0xB, 1ull << 48) { seed(); }
    Model* clone() const { return new Rand48(*this); }
    u64 next() { return g.next() >> 17; }
    void seed() { seed(1); }
    void seed(u64 v) { g.set(((v & 0xffffffffu) << 16) | 0x330e); }
    void seed(Src& s) { g.seed(s); }
    bool can_jump() const { return true; }
    void jump(u64 z) { g.jump(z); }
    u64 min() const { return 0; } u64 max() const { return 0x7fffffff; }
    std::size_t seed_words() const { return 2; }
    std::size_t lookahead() const { return 4; }
};
// difference of two multiplicative LCGs modulo m1-1, in [1, m1-1]
struct Additive : Model {
    Lcg g1, g2;
    Additive(const Lcg& a, const Lcg& b) : g1(a), g2(b) {}
    Model* clone() const { return new Additive(*this); }
    u64 next() {
        __int128 d = (__int128)g1.next() - (__int128)g2.next(); __int128 M = (__int128)g1.m - 1;
        while (d < 1) d += M;
        return (u64)d;
    }
    void seed() { g1.seed(); g2.seed(); }
    void seed(u64 v) { g1.seed(v); g2.seed(v); }
    void seed(Src& s) { g1.seed(s); g2.seed(s); }
    bool can_jump() const { return true; }
    void jump(u64 z) { g1.jump(z); g2.jump(z); }
    u64 min() const { return 1; } u64 max() const { return (u64)(g1.m - 1); }
    std::size_t seed_words() const { return g1.seed_words() + g2.seed_words(); }
    std::size_t lookahead() const { return 6; }
};
// Bays-Durham shuffle: j = floor(k (y - min) / (max - min + 1))
template<class G> struct Shuffle : Model {
    G g; std::size_t k; std::vector<u64> v; u64 y;
    Shuffle(const G& g_, std::size_t k_) : g(g_), k(k_), v(k_) { init(); }
    void init() { for (auto& e : v) e = g.next(); y = g.next(); }
    Model* clone() const { return new Shuffle(*this); }
    u64 next() {
        u128 R = (u128)(g.max() - g.min()) + 1;
        std::size_t j = (std::size_t)((u128)k * (y - g.min()) / R);
        y = v[j]; v[j] = g.next(); return y;
    }
    void seed() { g.seed(); init(); } void seed(u64 s) { g.seed(s); init(); } void seed(Src& s) { g.seed(s); init(); }
    u64 min() const { return g.min(); } u64 max() const { return g.max(); }
    std::size_t seed_words() const { return g.seed_words(); }
    std::size_t lookahead() const { return k * 12 + g.lookahead(); }
};
// use r of every p outputs
template<class G> struct DiscardBlock : Model {
    G g; std::size_t p, r, n;
    DiscardBlock(const G& g_, std::size_t p_, std::size_t r_) : g(g_), p(p_), r(r_), n(0) {}
    Model* clone() const { return new DiscardBlock(*this); }
    u64 next() { if (n == r) { for (; n < p; ++n) g.next(); n = 0; } ++n; return g.next(); }
    void seed() { g.seed(); n = 0; } void seed(u64 s) { g.seed(s); n = 0; } void seed(Src& s) { g.seed(s); n = 0; }
    u64 min() const { return g.min(); } u64 max() const { return g.max(); }
    std::size_t seed_words() const { return g.seed_words(); }
    u64 draws_cost() const { return p / r + 1; }
    std::size_t lookahead() const { return 2 * g.lookahead() + 2 * r; }
};
// w bits from any generator: parameters exactly as in the standard's definition
inline void ib_params(u128 R, unsigned w, unsigned& n, unsigned& w0, unsigned& n0, u128& y0, u128& y1) {
    unsigned m = 0; while (((u128)2 << m) <= R) ++m;
    for (n = (w + m - 1) / m;; ++n) {
        w0 = w / n; n0 = n - w % n;
        y0 = ((u128)1 << w0) * (R >> w0);
        y1 = ((u128)2 << w0) * (R >> (w0 + 1));
        if (R - y0 <= y0 / n) return;
        if (n > (w + m - 1) / m) return;     // only n or n+1 are considered
    }
}
template<class G> struct IndepBits : Model {
    G g; unsigned w;
    IndepBits(const G& g_, unsigned w_) : g(g_), w(w_) {}
    Model* clone() const { return new IndepBits(*this); }
    u64 next() {
        u128 R = (u128)(g.max() - g.min()) + 1, y0, y1; unsigned n, w0, n0;
        ib_params(R, w, n, w0, n0, y0, y1);
        u128 S = 0;
        for (unsigned k = 0; k < n; ++k) {
            u64 u; u128 lim = k < n0 ? y0 : y1; unsigned b = k < n0 ? w0 : w0 + 1;
            do u = g.next() - g.min(); while ((u128)u >= lim);
            S = (S << b) + (u % ((u128)1 << b));
        }
        return (u64)S;
    }
    void seed() { g.seed(); } void seed(u64 s) { g.seed(s); } void seed(Src& s) { g.seed(s); }
    u64 min() const { return 0; } u64 max() const { return w == 64 ? ~0ull : (1ull << w) - 1; }
    std::size_t seed_words() const { return g.seed_words(); }
    u64 draws_cost() const { return 4; }
    std::size_t lookahead() const { return 40 * g.lookahead() + 40; }
};
template<class A, class B> struct Xor : Model {
    A a; B b; int s1, s2; u64 mask;
    Xor(const A& a_, int s1_, const B& b_, int s2_, unsigned bits) : a(a_), b(b_), s1(s1_), s2(s2_), mask(bits == 64 ? ~0ull : (1ull << bits) - 1) {}
    Model* clone() const { return new Xor(*this); }
    u64 next() { u64 x = a.next(), y = b.next(); return ((x << s1) ^ (y << s2)) & mask; }
    void seed() { a.seed(); b.seed(); } void seed(u64 s) { a.seed(s); b.seed(s); } void seed(Src& s) { a.seed(s); b.seed(s); }
    static u64 smear(u64 x) { for (int i = 1; i < 64; i *= 2) x |= x >> i; return x; }
    u64 min() const { return 0; } u64 max() const { return smear(((smear(a.max()) << s1) | (smear(b.max()) << s2)) & mask); }
    bool can_jump() const { return a.can_jump() && b.can_jump(); }
    void jump(u64 z) { a.jump(z); b.jump(z); }
    std::size_t seed_words() const { return a.seed_words() + b.seed_words(); }
    std::size_t lookahead() const { return 4 * (a.lookahead() + b.lookahead()); }
};
// a x^-1 + b mod p
struct Inversive : Model {
    u64 a, b, p, x;
    Inversive(u64 a_, u64 b_, u64 p_) : a(a_), b(b_), p(p_) { seed(); }
    Model* clone() const { return new Inversive(*this); }
    u64 next() {
        u64 inv = 0;
        if (x) { u128 r = 1, q = x; u64 e = p - 2; while (e) { if (e & 1) r = r * q % p; q = q * q % p; e >>= 1; } inv = (u64)r; }   // Fermat
        x = (u64)(((u128)a * inv + b) % p); return x;
    }
    void set(u64 v) { x = v % p; if (b == 0 && x == 0) x = 1; }
    void seed() { set(1); } void seed(u64 v) { set(v & 0xffffffffu); } void seed(Src& s) { set(one_int(s, p)); }
    u64 min() const { return b == 0 ? 1 : 0; } u64 max() const { return p - 1; }
    std::size_t seed_words() const { return words_for(p); }
    std::size_t lookahead() const { return 1; }
};
// Tausworthe: trinomial x^k + x^q + 1, w-bit words, s steps per draw.  Bit-by-bit:
// the word's top k bits are b_0..b_(k-1); b_i = b_(i-k) ^ b_(i-(k-q)); each draw moves the window by s.
struct Lfsr : Model {
    int w, k, q, s; u64 v; unsigned bits;
    Lfsr(unsigned bits_, int w_, int k_, int q_, int s_) : w(w_), k(k_), q(q_), s(s_), bits(bits_) { seed(); }
    Model* clone() const { return new Lfsr(*this); }
    u64 wm() const { return w == 64 ? ~0ull : (1ull << w) - 1; }
    u64 next() {
        // bit i (0 = most significant) of the stream held in v; only the top k are state
        bool b[256]; for (int i = 0; i < k; ++i) b[i] = (v >> (w - 1 - i)) & 1;
        for (int i = k; i < w + s; ++i) b[i] = b[i - k] ^ b[i - k + q];
        u64 r = 0; for (int i = 0; i < w; ++i) r |= (u64)b[i + s] << (w - 1 - i);
        v = r; return v;
    }
    void set(u64 x) { v = x & wm(); if (v < (1ull << (w - k))) v += 1ull << (w - k); }
    void seed() { set(341); } void seed(u64 x) { set(x); }
    void seed(Src& src) { set(one_int(src, (u128)1 << w)); }
    u64 min() const { return 0; } u64 max() const { return wm(); }
    std::size_t seed_words() const { return (w + 31) / 32; }
    std::size_t lookahead() const { return 2; }
};
struct Mt : Model {
    struct P { unsigned w, n, m, r; u64 a; unsigned u; u64 d; unsigned s; u64 b; unsigned t; u64 c; unsigned l; u64 f; };
    P p; std::vector<u64> x; std::size_t i;
    explicit Mt(const P& p_) : p(p_), x(p_.n), i(0) { seed(); }
    Model* clone() const { return new Mt(*this); }
    u64 mask() const { return p.w == 64 ? ~0ull : (1ull << p.w) - 1; }
    u64 next() {      // ring buffer, one element of the recurrence at a time
        u64 lower = (1ull << p.r) - 1, upper = mask() & ~lower;
        std::size_t n = p.n;
        u64 y = (x[i] & upper) | (x[(i + 1) % n] & lower);
        u64 z = x[(i + p.m) % n] ^ (y >> 1) ^ (y & 1 ? p.a : 0);
        x[i] = z; i = (i + 1) % n;
        z ^= (z >> p.u) & p.d; z ^= (z << p.s) & p.b; z ^= (z << p.t) & p.c; z &= mask(); z ^= z >> p.l;
        return z & mask();
    }
    void zerofix() { u64 lower = (1ull << p.r) - 1; if (x[0] & mask() & ~lower) return; for (std::size_t j = 1; j < p.n; ++j) if (x[j]) return; x[0] = 1ull << (p.w - 1); }
    void seed() { seed(5489); }
    void seed(u64 v) { x[0] = v & mask(); for (std::size_t j = 1; j < p.n; ++j) x[j] = (p.f * (x[j-1] ^ (x[j-1] >> (p.w - 2))) + j) & mask(); i = 0; }
    void seed(Src& s) {
        unsigned k = (p.w + 31) / 32; std::vector<u32> w(k * p.n); s.words(w.data(), w.size());
        for (std::size_t j = 0; j < p.n; ++j) { u64 v = 0; for (unsigned q = 0; q < k; ++q) v |= (u64)w[j * k + q] << (32 * q); x[j] = v & mask(); }
        i = 0; zerofix();
    }
    // small parameter sets: exact jump by powers of the transition matrix over GF(2)
    bool can_jump() const { return p.n * p.w <= 576; }
    typedef std::vector<u64> Bits;
    Bits pack() const { Bits b((p.n * p.w + 63) / 64); for (std::size_t j = 0; j < p.n; ++j) for (unsigned k = 0; k < p.w; ++k) if ((x[(i + j) % p.n] >> k) & 1) b[(j * p.w + k) / 64] |= 1ull << ((j * p.w + k) % 64); return b; }
    void unpack(const Bits& b) { i = 0; for (std::size_t j = 0; j < p.n; ++j) { x[j] = 0; for (unsigned k = 0; k < p.w; ++k) if ((b[(j * p.w + k) / 64] >> ((j * p.w + k) % 64)) & 1) x[j] |= 1ull << k; } }
    typedef std::vector<Bits> Mx;            // column images
    static Bits apply(const Mx& m, const Bits& v) { Bits r(v.size()); for (std::size_t c = 0; c < m.size(); ++c) if ((v[c / 64] >> (c % 64)) & 1) for (std::size_t q = 0; q < r.size(); ++q) r[q] ^= m[c][q]; return r; }
    const std::vector<Mx>& powers() const {
        static std::vector<std::pair<u64, std::vector<Mx>*> > cache; u64 key = p.a * 31 + p.n * 1000003 + p.w;
        for (auto& e : cache) if (e.first == key) return *e.second;
        std::vector<Mx>* t = new std::vector<Mx>; Mx m(p.n * p.w);
        for (std::size_t c = 0; c < m.size(); ++c) { Mt u(p); for (auto& e : u.x) e = 0; u.i = 0; u.x[c / p.w] = 1ull << (c % p.w); u.next(); m[c] = u.pack(); }
        for (int k = 0; k < 64; ++k) { t->push_back(m); Mx n(m.size()); for (std::size_t c = 0; c < m.size(); ++c) n[c] = apply(m, m[c]); m = n; }
        cache.push_back({ key, t }); return *t;
    }
    void jump(u64 z) {
        if (!can_jump() || z < 5000) { while (z--) next(); return; }
        const std::vector<Mx>& t = powers(); Bits b = pack();
        for (int k = 0; k < 64; ++k) if ((z >> k) & 1) b = apply(t[k], b);
        unpack(b);
    }
    u64 min() const { return 0; } u64 max() const { return mask(); }
    std::size_t seed_words() const { return (p.w + 31) / 32 * p.n; }
    std::size_t lookahead() const { return p.n + 2; }
};
// minstd-like generator whose raw outputs are used as seed words
struct GenSrc : Src { Lcg g; explicit GenSrc(const Lcg& g_) : g(g_) {} void words(u32* o, std::size_t n) { for (std::size_t i = 0; i < n; ++i) o[i] = (u32)g.next(); } bool is_seq() const { return true; } };
inline void int_array(Src& s, unsigned w, std::vector<u64>& x) {
    unsigned k = (w + 31) / 32; std::vector<u32> b(k * x.size()); s.words(b.data(), b.size());
    u64 mask = w == 64 ? ~0ull : (1ull << w) - 1;
    for (std::size_t j = 0; j < x.size(); ++j) { u64 v = 0; for (unsigned q = 0; q < k; ++q) v |= (u64)b[j * k + q] << (32 * q); x[j] = v & mask; }
}
// X_n = X_(n-p) + X_(n-q) mod 2^w  (real engines: the same on numerators)
struct LagFib : Model {
    unsigned w; std::size_t p, q; std::vector<u64> x; std::size_t i;
    LagFib(unsigned w_, std::size_t p_, std::size_t q_) : w(w_), p(p_), q(q_), x(p_), i(0) { seed(); }
    Model* clone() const { return new LagFib(*this); }
    u64 mask() const { return w == 64 ? ~0ull : (1ull << w) - 1; }
    u64 next() { u64 v = (x[i] + x[(i + p - q) % p]) & mask(); x[i] = v; i = (i + 1) % p; return v; }
    void seed() { seed(331); }
    void seed(u64 v) { Lcg l(32, 16807, 0, 2147483647); l.seed(v); GenSrc s(l); seed(s); }
    void seed(Src& s) { int_array(s, w, x); i = 0; }
    u64 min() const { return 0; } u64 max() const { return mask(); }
    std::size_t seed_words() const { return (w + 31) / 32 * p; }
    std::size_t lookahead() const { return p + 2; }
};
// X_n = X_(n-s) - X_(n-r) - carry mod 2^w
struct Swc : Model {
    unsigned w; std::size_t s, r; std::vector<u64> x; std::size_t i; u64 carry;
    Swc(unsigned w_, std::size_t s_, std::size_t r_) : w(w_), s(s_), r(r_), x(r_), i(0), carry(0) { seed(); }
    Model* clone() const { return new Swc(*this); }
    u64 next() {
        __int128 d = (__int128)x[(i + r - s) % r] - (__int128)x[i] - (__int128)carry;
        if (d < 0) { d += (__int128)1 << w; carry = 1; } else carry = 0;
        x[i] = (u64)d; i = (i + 1) % r; return (u64)d;
    }
    void seed() { seed(19780503); }
    void seed(u64 v) { if (v == 0) v = 19780503; Lcg l(32, 40014, 0, 2147483563); l.seed(v); GenSrc g(l); seed(g); }
    void seed(Src& src) { int_array(src, w, x); carry = x[r - 1] == 0; i = 0; }
    u64 min() const { return 0; } u64 max() const { return (1ull << w) - 1; }
    std::size_t seed_words() const { return (w + 31) / 32 * r; }
    std::size_t lookahead() const { return r + 2; }
};
// MIXMAX N=17, s=0, m=2^36+1 over GF(2^61-1); streams are skipped to by A^(2^(512+32 j+r))
struct Mixmax : Model {
    enum { N = 17 };
    static u64 P() { return (1ull << 61) - 1; }
    static u64 mul(u64 a, u64 b) { return (u64)((u128)a * b % P()); }
    static u64 add(u64 a, u64 b) { return (u64)(((u128)a + b) % P()); }
    struct Mat { u64 e[N][N]; };
    u64 v[N]; int cnt;
    Mixmax() { seed(); }
    Model* clone() const { return new Mixmax(*this); }
    static void step(u64* y) {
        u64 s = 0; for (int i = 0; i < N; ++i) s = add(s, y[i]);
        u64 P1 = 0, V = s; u64 o[N]; o[0] = s;
        for (int i = 1; i < N; ++i) { u64 po = mul(P1, 1ull << 36); V = add(V, po); P1 = add(P1, y[i]); V = add(V, P1); o[i] = V; }
        for (int i = 0; i < N; ++i) y[i] = o[i];
    }
    static const Mat* table() {
        static Mat* t = 0;
        if (t) return t;
        Mat* r = new Mat[128]; Mat a;
        for (int c = 0; c < N; ++c) { u64 y[N] = {0}; y[c] = 1; step(y); for (int q = 0; q < N; ++q) a.e[q][c] = y[q]; }
        for (int k = 0; k < 640; ++k) {
            if (k >= 512) r[k - 512] = a;
            Mat b; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { u64 s = 0; for (int q = 0; q < N; ++q) s = add(s, mul(a.e[i][q], a.e[q][j])); b.e[i][j] = s; }
            a = b;
        }
        return t = r;
    }
    void stream(u32 cluster, u32 machine, u32 run, u32 strm) {
        const Mat* t = table(); for (int i = 0; i < N; ++i) v[i] = i == 0;
        u32 id[4] = { strm, run, machine, cluster };
        for (int k = 0; k < 4; ++k) for (int b = 0; b < 32; ++b) if ((id[k] >> b) & 1) {
            u64 o[N]; for (int i = 0; i < N; ++i) { o[i] = 0; for (int j = 0; j < N; ++j) o[i] = add(o[i], mul(t[32 * k + b].e[i][j], v[j])); }
            for (int i = 0; i < N; ++i) v[i] = o[i];
        }
        cnt = 1;
    }
    u64 next() { if (cnt >= N) { step(v); cnt = 1; } return v[cnt++]; }
    void seed() { seed(1); }
    void seed(u64 s) { stream(0, 0, (u32)(s >> 32), (u32)s); }
    void seed(Src& s) { u32 w[4]; s.words(w, 4); stream(w[0], w[1], w[2], w[3]); }
    u64 min() const { return 0; } u64 max() const { return P(); }
    std::size_t seed_words() const { return 4; }
    std::size_t lookahead() const { return 2 * N + 2; }
};
struct Splitmix : Model {
    u64 s;
    Splitmix() { seed(); }
    Model* clone() const { return new Splitmix(*this); }
    u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    void seed() { seed(0); }
    void seed(u64 v) { s = v ? v : 0xA164B43C8F634A13ull; }
    void seed(Src& src) { u32 w[2]; src.words(w, 2); s = (u64)w[0] << 32 | w[1]; }
    bool can_jump() const { return true; }
    void jump(u64 z) { s += z * 0x9E3779B97F4A7C15ull; }
    u64 min() const { return 0; } u64 max() const { return ~0ull; }
    std::size_t seed_words() const { return 0; }      // no range seeding
    std::size_t lookahead() const { return 1; }
};
// the standard seed sequence (ISO C++ [rand.util.seedseq]), all arithmetic mod 2^32
inline void std_seed_seq(const std::vector<u32>& v, std::vector<u32>& out) {
    std::size_t n = out.size(); if (n == 0) return;
    std::size_t s = v.size();
    for (auto& o : out) o = 0x8b8b8b8bu;
    std::size_t t = n >= 623 ? 11 : n >= 68 ? 7 : n >= 39 ? 5 : n >= 7 ? 3 : (n - 1) / 2;
    std::size_t p = (n - t) / 2, q = p + t, m = s + 1 > n ? s + 1 : n;
    auto T = [](u32 x) { return x ^ (x >> 27); };
    for (std::size_t k = 0; k < m; ++k) {
        u32 r1 = 1664525u * T(out[k % n] ^ out[(k + p) % n] ^ out[(k + n - 1) % n]);
        u32 r2 = r1 + (u32)(k == 0 ? s : k <= s ? k % n + v[k - 1] : k % n);
        out[(k + p) % n] += r1; out[(k + q) % n] += r2; out[k % n] = r2;
    }
    for (std::size_t k = m; k < m + n; ++k) {
        u32 r3 = 1566083941u * T(out[k % n] + out[(k + p) % n] + out[(k + n - 1) % n]);
        u32 r4 = r3 - (u32)(k % n);
        out[(k + p) % n] ^= r3; out[(k + q) % n] ^= r4; out[k % n] = r4;
    }
}
// bulk generation into 32-bit words: which low bits of each output are used, LSB-first packing,
// outputs above the largest multiple are rejected
inline void bulk_int(Model& g, std::vector<u32>& out) {
    if (out.empty()) return;
    u128 R = (u128)(g.max() - g.min()) + 1;
    unsigned bits = 0; while (((u128)2 << bits) <= R) ++bits;            // floor(log2 R)
    if (R != ((u128)1 << bits)) {                                        // trade a few bits for a low rejection rate
        unsigned d = 0; while ((2u << d) <= bits) ++d;                   // floor(log2 bits)
        u128 top = R >> (bits - d); unsigned e = 0; while (!((top >> e) & 1)) ++e;
        bits = bits - d + e;
    }
    u128 lim = (R >> bits) << bits;
    u64 acc_lo = 0; unsigned have = 0; std::size_t i = 0; u128 acc = 0; (void)acc_lo;
    for (;;) {
        u64 v; do v = g.next() - g.min(); while ((u128)v >= lim);
        if (bits < 64) v &= ((1ull << bits) - 1);
        acc |= (u128)v << have; have += bits;
        while (have >= 32) { out[i++] = (u32)acc; acc >>= 32; have -= 32; if (i == out.size()) return; }
    }
}
inline void bulk_real(Model& g, unsigned w, std::vector<u32>& out) {
    if (out.empty()) return;
    u128 acc = 0; unsigned have = 0; std::size_t i = 0;
    for (;;) {
        acc |= (u128)g.next() << have; have += w;
        while (have >= 32) { out[i++] = (u32)acc; acc >>= 32; have -= 32; if (i == out.size()) return; }
    }
}
}
#endif
