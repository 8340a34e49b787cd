#include "qrng.hpp"
#include <boost/random/sobol.hpp>
#include <boost/random/niederreiter_base2.hpp>
#include <boost/random/faure.hpp>
#include <cmath>
#include <map>
#include <cstdint>
namespace sim {
namespace br = boost::random;
typedef br::sobol_engine<std::uint32_t, 32> S32; typedef br::sobol_engine<std::uint16_t, 16> S16; typedef br::sobol_engine<std::uint32_t, 7> S7; typedef br::sobol_engine<std::uint64_t, 20> S20; typedef br::sobol_engine<std::uint16_t, 3> S3;
typedef br::niederreiter_base2_engine<std::uint32_t, 32> N32; typedef br::niederreiter_base2_engine<std::uint16_t, 16> N16; typedef br::niederreiter_base2_engine<std::uint32_t, 7> N7; typedef br::niederreiter_base2_engine<std::uint64_t, 20> N20; typedef br::niederreiter_base2_engine<std::uint16_t, 3> N3;
typedef br::faure_engine<double, std::uint32_t> F32; typedef br::faure_engine<float, std::uint16_t> FF16; typedef br::faure_engine<long double, std::uint64_t> FL;
template<class Q, class S> static IQ* mk(std::size_t d) { return new QBox<Q, S>(d); }
const std::vector<QSpec>& qrngs() {
    static const std::vector<QSpec> v = {
        { "sobol", Q_SOBOL, 64, ~0ull - 1, ~0ull, 3667, 0, mk<br::sobol, std::uint64_t> },
        { "sobol_32", Q_SOBOL, 32, 0xfffffffeull, 0xffffffffull, 3667, 0, mk<S32, std::uint32_t> },
        { "sobol_16", Q_SOBOL, 16, 0xfffe, 0xffff, 3667, 0, mk<S16, std::uint16_t> },
        { "sobol_20of64", Q_SOBOL, 20, (1u << 20) - 2, ~0ull, 3667, 0, mk<S20, std::uint64_t> },
        { "sobol_7of32", Q_SOBOL, 7, 126, 0xffffffffull, 3667, 0, mk<S7, std::uint32_t> },
        { "sobol_3of16", Q_SOBOL, 3, 6, 0xffff, 3667, 0, mk<S3, std::uint16_t> },
        { "niederreiter_base2", Q_NB2, 64, ~0ull - 1, ~0ull, 4720, 0, mk<br::niederreiter_base2, std::uint64_t> },
        { "niederreiter_32", Q_NB2, 32, 0xfffffffeull, 0xffffffffull, 4720, 0, mk<N32, std::uint32_t> },
        { "niederreiter_16", Q_NB2, 16, 0xfffe, 0xffff, 4720, 0, mk<N16, std::uint16_t> },
        { "niederreiter_20of64", Q_NB2, 20, (1u << 20) - 2, ~0ull, 4720, 0, mk<N20, std::uint64_t> },
        { "niederreiter_7of32", Q_NB2, 7, 126, 0xffffffffull, 4720, 0, mk<N7, std::uint32_t> },
        { "niederreiter_3of16", Q_NB2, 3, 6, 0xffff, 4720, 0, mk<N3, std::uint16_t> },
        { "faure", Q_FAURE, 64, ~0ull, ~0ull, 1117, 1e-15L, mk<br::faure, std::uint64_t> },
        { "faure_32", Q_FAURE, 32, 0xffffffffull, 0xffffffffull, 1117, 1e-15L, mk<F32, std::uint32_t> },
        { "faure_f16", Q_FAURE, 16, 0xffff, 0xffff, 1117, 3e-7L, mk<FF16, std::uint16_t> },
        { "faure_ld", Q_FAURE, 64, ~0ull, ~0ull, 1117, 5e-19L, mk<FL, std::uint64_t> },
    };
    return v;
}
static const std::uint16_t sobol_ref[] = {
#include "sobol_ref.inc"
};
static int deg(u64 p) { int d = -1; while (p) { p >>= 1; ++d; } return d; }
// direction numbers of one dimension, w bits, V[r] for gray-code bit r
static std::vector<u64> sobol_dirs(std::size_t d, unsigned w) {
    std::vector<u64> m(w), V(w);
    if (d == 0) m.assign(w, 1);
    else {
        static std::vector<std::size_t> at; if (at.empty()) for (std::size_t i = 0; i < sizeof sobol_ref / sizeof *sobol_ref;) { at.push_back(i); i += 1 + deg(sobol_ref[i]); }
        const std::uint16_t* q = sobol_ref + at[d - 1]; u64 p = q[0]; int s = deg(p); std::vector<u64> mm(w + s + 1);
        for (int k = 0; k < s; ++k) mm[k] = q[1 + k];
        for (unsigned k = s; k < w; ++k) { u64 x = mm[k - s] ^ (mm[k - s] << s); for (int i = 1; i < s; ++i) if (p >> (s - i) & 1) x ^= mm[k - i] << i; mm[k] = x; }
        for (unsigned k = 0; k < w; ++k) m[k] = mm[k];
    }
    for (unsigned k = 0; k < w; ++k) V[k] = m[k] << (w - 1 - k);
    return V;
}
static const std::vector<u64>& irreducibles() {       // over GF(2), by sieve
    static std::vector<u64> out; if (!out.empty()) return out;
    std::vector<bool> comp(1 << 16);
    for (u64 p = 2; p < (1 << 16); ++p) { if (comp[p]) continue; out.push_back(p); int dp = deg(p); for (u64 q = 2; q < (1ull << (16 - dp)); ++q) { u64 r = 0; for (int i = 0; i <= deg(q); ++i) if (q >> i & 1) r ^= p << i; comp[r] = true; } }
    return out;
}
static std::vector<u64> nb2_dirs(std::size_t d, unsigned w) {
    u64 p = irreducibles()[d]; int e = deg(p); std::vector<u64> V(w); u128 b = 1; int m = 0; unsigned row = 0;
    while (row < w) {
        int kj = m; u128 nb = 0; for (int i = 0; i <= e; ++i) if (p >> i & 1) nb ^= b << i; b = nb; m += e;
        std::vector<int> v(w + e); for (std::size_t r = 0; r < v.size(); ++r) { if ((int)r < kj) v[r] = 0; else if ((int)r < m) v[r] = 1; else { int t = 0; for (int k = 0; k < m; ++k) t ^= (int)(b >> k & 1) & v[r - m + k]; v[r] = t; } }
        for (int u = 0; u < e && row < w; ++u, ++row) for (unsigned r = 0; r < w; ++r) if (v[r + u]) V[r] |= 1ull << (w - 1 - row);
    }
    return V;
}
QModel::QModel(const QSpec& s, std::size_t d) : sp(&s), dim(d), n(0), c(0), base(2), cur_n(0), cur_ok(false) {
    if (s.fam != Q_FAURE) {
        static std::map<std::pair<int, std::pair<unsigned, std::size_t> >, std::vector<u64> > memo;      // pure function of its key
        V.resize(d * s.w);
        for (std::size_t i = 0; i < d; ++i) { auto key = std::make_pair((int)s.fam, std::make_pair(s.w, i)); auto it = memo.find(key); if (it == memo.end()) it = memo.insert(std::make_pair(key, s.fam == Q_SOBOL ? sobol_dirs(i, s.w) : nb2_dirs(i, s.w))).first; for (unsigned r = 0; r < s.w; ++r) V[i * s.w + r] = it->second[r]; }
    } else { base = d < 2 ? 2 : d; for (;; ++base) { bool pr = true; for (u64 q = 2; q * q <= base; ++q) if (base % q == 0) pr = false; if (pr) break; } }
}
const std::vector<ld>& QModel::vec(u64 i) {
    if (cur_ok && cur_n == i) return cur;
    cur.resize(dim); cur_n = i; cur_ok = true;
    if (sp->fam != Q_FAURE) {
        u64 g = (i + 1) ^ ((i + 1) >> 1);
        for (std::size_t d = 0; d < dim; ++d) { u64 x = 0; for (unsigned r = 0; r < sp->w; ++r) if (g >> r & 1) x ^= V[d * sp->w + r]; cur[d] = (ld)x; }
        return cur;
    }
    std::vector<u64> y; for (u64 t = i; t; t /= base) y.push_back(t % base); std::size_t k = y.size();
    std::vector<std::vector<u64> > C(k, std::vector<u64>(k)); for (std::size_t j = 0; j < k; ++j) { C[0][j] = 1; for (std::size_t a = 1; a <= j; ++a) C[a][j] = ((a <= j - 1 ? C[a][j - 1] : 0) + C[a - 1][j - 1]) % base; }      // C[a][j] = binomial(j, a) mod base
    for (std::size_t d = 0; d < dim; ++d) {
        ld x = 0, r = 1;
        for (std::size_t a = 0; a < k; ++a) { u64 z = 0, pw = 1; for (std::size_t j = a; j < k; ++j) { z = (z + C[a][j] * pw % base * y[j]) % base; pw = pw * (d % base) % base; } r /= (ld)base; x += (ld)z * r; }
        cur[d] = x;
    }
    return cur;
}
}
