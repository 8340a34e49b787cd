#include "dist.hpp"
#include <algorithm>
#include <cstring>
namespace sim {
static std::vector<DistSpec>& reg() { static std::vector<DistSpec> v; return v; }
DistReg::DistReg(const DistSpec& s) { reg().push_back(s); }
const std::vector<DistSpec>& dists() {
    static bool sorted = false;
    if (!sorted) { std::sort(reg().begin(), reg().end(), [](const DistSpec& a, const DistSpec& b) { return std::strcmp(a.name, b.name) < 0; }); sorted = true; }
    return reg();
}
namespace {
ld u01(Run& r) { return (ld)r.pick(1u << 24) / (ld)(1u << 24); }
ld logu(Run& r, ld lo, ld hi) { return std::pow(10.0L, lo + (hi - lo) * u01(r)); }
// positive real: special values first
ld pos(Run& r, Level l, const Num& n, ld lo, ld hi) {
    static const ld sp[] = { 1, 0.5L, 2, 3, 10, 0.1L, 1.5L, 7 };
    ld x;
    if (l == L_EXTREME && r.pick(2)) x = std::pow(10.0L, (ld)r.pick(2 * n.max10) - n.max10 + 1 + u01(r) * 0.9L);
    else if (r.pick(3) == 0) x = sp[r.pick(8)];
    else if (l == L_MODERATE) x = logu(r, std::max<ld>(lo, -1.3L), std::min<ld>(hi, 1.5L));
    else x = logu(r, lo, hi);
    x = n.round(x); return x > 0 && std::isfinite((double)x) ? x : 1;
}
ld any(Run& r, Level l, const Num& n) {
    switch (r.pick(5)) { case 0: return 0; case 1: return n.round((ld)r.pick(21) - 10); default: { ld x = pos(r, l, n, n.digits < 30 ? -4 : -9, n.digits < 30 ? 4 : 9); return r.pick(2) ? -x : x; } }
}
ld prob(Run& r, Level l, const Num& n, bool closed) {
    ld x;
    switch (r.pick(l == L_MODERATE ? 4 : 7)) { case 0: x = 0.5L; break; case 1: x = (ld)(1 + r.pick(9)) / 10; break; case 2: case 3: x = 0.02L + 0.96L * u01(r); break;
        case 4: x = logu(r, n.digits < 30 ? -4 : -6, -1); break; case 5: x = 1 - logu(r, n.digits < 30 ? -4 : -6, -1); break; default: x = closed ? (ld)r.pick(2) : 0.25L; }
    return n.round(x);
}
ld integer(Run& r, ld lo, ld hi) { ld span = hi - lo; ld x = lo + std::floor(span * u01(r)); return x > hi ? hi : x; }
}
void gen_params(Run& r, Fam f, Level l, const Num& n, V& v) {
    v.clear(); bool fl = n.digits < 30; ld e = fl ? 4 : 9;
    switch (f) {
    case F_UINT: case F_SMALL: {
        ld a, b, lo = n.imin, hi = n.imax;
        switch (r.pick(l == L_MODERATE ? 4 : 9)) {
        case 0: a = 0; b = 9; break; case 1: a = lo < 0 ? -(ld)r.pick(50) : (ld)r.pick(50); b = a + (ld)r.pick(60); break; case 2: a = 0; b = (ld)((1ull << r.pick(15)) - (r.pick(2))); break;
        case 3: a = lo < 0 ? -1000 : 1; b = a + (ld)r.pick(30000); break; case 4: a = lo; b = hi; break; case 5: a = lo; b = lo + (ld)r.pick(1000); break; case 6: b = hi; a = hi - (ld)r.pick(1000); break;
        case 7: { ld k = std::floor(std::log2((double)(hi - lo))); ld s = std::ldexp(1.0L, (int)r.pick((u64)k + 1)); a = lo < 0 ? -std::floor(s / 2) : 0; b = a + s - 1 + (ld)r.pick(3) - 1; break; }
        default: { u64 w = (u64)(hi - lo); u64 p = w == ~0ull ? r.pick64() : r.pick(w + 1), q = w == ~0ull ? r.pick64() : r.pick(w + 1); if (p > q) std::swap(p, q); a = lo + (ld)p; b = lo + (ld)q; } }
        if (a < lo) a = lo; if (a > hi) a = hi; if (b > hi) b = hi; if (b < a) b = a;
        v = { a, b }; break; }
    case F_UREAL: {
        ld a = any(r, l, n), w = pos(r, l, n, -e / 2, e); if (r.pick(3) == 0) { a = 0; w = 1; }
        if (l != L_MODERATE && r.chance(0.1)) { a = -std::pow(10.0L, n.max10 - 0.5L); a = n.round(a); ld b = r.pick(2) ? -a : n.round(1); v = { a, b }; break; }
        ld b = n.round(a + w); if (!(b > a)) b = n.round(a + std::fabs(a) * 1e-3L + 1); v = { a, b }; break; }
    case F_U01: break;
    case F_BERN: v = { prob(r, l, n, true) }; break;
    case F_BINOM: { ld tmax = l == L_MODERATE ? 300 : fl ? 1e6L : std::min<ld>(n.imax, 2147483647.0L); ld t = l != L_MODERATE && !fl && r.pick(12) == 0 ? tmax - (ld)r.pick(2) : r.pick(3) == 0 ? (ld)r.pick(40) : r.pick(2) ? integer(r, 0, std::min<ld>(tmax, 3000)) : integer(r, 0, tmax); v = { t, prob(r, l, n, true) }; break; }
    case F_GEOM: v = { prob(r, l, n, false) }; if (n.imax < 40000) v[0] = std::max<ld>(v[0], n.round(0.01L)); break;
    case F_GEOM_OLD: v = { prob(r, l, n, false) }; break;
    case F_NEGB: v = { r.pick(3) == 0 ? 1 : integer(r, 1, l == L_MODERATE ? 30 : 1000), prob(r, l, n, false) }; if (v[1] < 0.001L) v[1] = n.round(0.001L); break;
    case F_POIS: { ld m = l == L_MODERATE ? pos(r, l, n, -1.3L, 2) : logu(r, -6, fl ? 3 : n.imax < 40000 ? 3 : 7); if (r.chance(0.15)) m = r.pick(2) ? 10 : 9.999L; v = { n.round(m) }; break; }
    case F_DISC: { u64 k = 1 + (r.pick(3) == 0 ? r.pick(60) : r.pick(8)); if (l != L_MODERATE && r.chance(0.05)) k = 200 + r.pick(800); int st = (int)r.pick(4); for (u64 i = 0; i < k; ++i) v.push_back(n.round(st == 0 ? 1 : st == 1 ? (ld)r.pick(10) : st == 2 ? u01(r) : r.pick(3) == 0 ? 0 : logu(r, l == L_MODERATE ? -2 : -6, l == L_MODERATE ? 1 : 6)));
        bool ok = false; for (ld x : v) ok = ok || x > 0; if (!ok) v[r.pick(k)] = 1; break; }
    case F_DISCI: { u64 k = 1 + (r.pick(3) == 0 ? r.pick(60) : r.pick(8)); int st = (int)r.pick(l == L_MODERATE ? 3 : 5); for (u64 i = 0; i < k; ++i) v.push_back(st == 0 ? 1 : st == 1 ? (ld)r.pick(10) : st == 2 ? (ld)r.pick(1000) : st == 3 ? (r.pick(2) ? n.imax - (ld)r.pick(100) : (ld)r.pick(5)) : std::floor(n.imax * u01(r)));
        bool ok = false; for (ld x : v) ok = ok || x > 0; if (!ok) v[r.pick(k)] = 1; break; }
    case F_TRI: { ld a = any(r, l, n), w = pos(r, l, n, -e / 2, e / 2); ld c = n.round(a + w); if (!(c > a)) c = n.round(a + std::fabs(a) * 1e-3L + 1); ld b; switch (r.pick(4)) { case 0: b = a; break; case 1: b = c; break; default: b = n.round(a + (c - a) * u01(r)); } if (b < a) b = a; if (b > c) b = c; v = { a, b, c }; break; }
    case F_NORM: { ld s = r.chance(0.05) ? 0 : pos(r, l, n, -e, e); v = { any(r, l, n), s }; break; }
    case F_LAPL: case F_CAUCHY: case F_EXTR: v = { any(r, l, n), pos(r, l, n, -e, e) }; break;
    case F_LOGN: { ld m = any(r, L_MODERATE, n); if (l != L_EXTREME) { if (m > 20) m = 20; if (m < -20) m = -20; } ld s = pos(r, l == L_EXTREME ? l : L_MODERATE, n, -2, 0.5L); if (l != L_EXTREME && s > 4) s = n.round(s / 10); v = { m, s }; break; }
    case F_LOGN_OLD: v = { pos(r, L_MODERATE, n, -1, 1), pos(r, L_MODERATE, n, -1, 1) }; break;
    case F_EXPO: v = { pos(r, l, n, -e, e) }; break;
    case F_GAMMA: v = { pos(r, l, n, l == L_MODERATE ? -1 : fl ? -3 : -6, fl ? 3 : 6), pos(r, l, n, -e, e) }; break;
    case F_BETA: v = { pos(r, l, n, l == L_MODERATE ? -1 : -4, fl ? 2 : 4), pos(r, l, n, l == L_MODERATE ? -1 : -4, fl ? 2 : 4) }; break;
    case F_CHI2: case F_STUD: v = { pos(r, l, n, l == L_MODERATE ? -0.5L : -4, fl ? 2 : 5) }; break;
    case F_FISH: v = { pos(r, l, n, l == L_MODERATE ? -0.5L : -4, fl ? 2 : 5), pos(r, l, n, l == L_MODERATE ? -0.5L : -4, fl ? 2 : 5) }; break;
    case F_WEIB: v = { pos(r, l, n, l == L_MODERATE ? -0.6L : -1.2L, 2), pos(r, l, n, -e, e) }; break;
    case F_HYPER: { u64 k = 1 + r.pick(5); v.push_back((ld)k); bool ok = false; for (u64 i = 0; i < k; ++i) { ld w = r.pick(4) == 0 ? 1 : r.pick(6) == 0 ? 0 : 0.05L + u01(r); ok = ok || w > 0; v.push_back(n.round(w)); } if (!ok) v[1] = 1; for (u64 i = 0; i < k; ++i) v.push_back(pos(r, l == L_EXTREME ? L_WIDE : l, n, -3, 3)); break; }
    case F_PWC: case F_PWL: {
        u64 k = 1 + (r.pick(4) == 0 ? r.pick(30) : r.pick(5)); v.push_back((ld)(k + 1)); ld x = any(r, l == L_EXTREME ? L_WIDE : l, n); V iv;
        for (u64 i = 0; i <= k; ++i) { iv.push_back(x); ld w = r.pick(3) == 0 ? 1 : logu(r, l == L_MODERATE ? -1 : -3, l == L_MODERATE ? 1 : 3); ld y = n.round(x + w); if (!(y > x)) y = n.round(x + std::fabs(x) * 1e-4L + 1e-3L); x = y; }
        v.insert(v.end(), iv.begin(), iv.end()); u64 m = f == F_PWC ? k : k + 1; bool ok = false; std::size_t at = v.size();
        for (u64 i = 0; i < m; ++i) { ld w = r.pick(3) == 0 ? 1 : r.pick(5) == 0 ? 0 : logu(r, l == L_MODERATE ? -1 : -3, l == L_MODERATE ? 1 : 3); ok = ok || w > 0; v.push_back(n.round(w)); } if (!ok) v[at + r.pick(m)] = 1; break; }
    case F_NCCS: v = { pos(r, l, n, l == L_MODERATE ? -1 : -3, fl ? 2 : 4), pos(r, l, n, l == L_MODERATE ? -1 : -3, fl ? 2 : 4) }; break;
    case F_SPHERE: v = { (ld)(r.pick(4) == 0 ? r.pick(l == L_MODERATE ? 9 : 60) : r.pick(7)) }; break;
    }
    if (l == L_EXTREME) for (ld x : v) if (!std::isfinite((double)n.round(x)) && n.digits < 60) { gen_params(r, f, L_WIDE, n, v); return; } else if (!std::isfinite(n.round(x))) { gen_params(r, f, L_WIDE, n, v); return; }
}
bool neighbour(Run& r, Fam f, const Num& n, const V& base, V& v) {
    v = base; if (v.empty()) return false; V w; gen_params(r, f, r.pick(3) ? L_MODERATE : L_WIDE, n, w);
    switch (f) {
    case F_DISC: { std::size_t k = r.pick(v.size()); v[k] = n.round(v[k] + 1); return true; }
    case F_DISCI: { std::size_t k = r.pick(v.size()); v[k] = v[k] > 1 ? v[k] - 1 : 1; return true; }
    case F_HYPER: { std::size_t k = 1 + r.pick(v.size() - 1); v[k] = n.round(v[k] * 2 + 0.125L); return true; }
    case F_PWC: case F_PWL: { std::size_t m = (std::size_t)v[0], k = 1 + r.pick(v.size() - 1); if (k <= m) { ld lo = k > 1 ? v[k - 1] : v[k] - 1, hi = k < m ? v[k + 1] : v[k] + 1; ld x = n.round(lo + (hi - lo) * 0.625L); if (!(x > lo && x < hi)) return false; v[k] = x; } else v[k] = n.round(v[k] + 1); return true; }
    default: {
        std::size_t k = r.pick(v.size());
        if (r.pick(3) == 0) { ld x = (f == F_UINT || f == F_SMALL || f == F_SPHERE || (f == F_BINOM && k == 0) || (f == F_NEGB && k == 0)) ? v[k] + 1 : n.round(v[k] * (1 + std::pow(10.0L, -(ld)(1 + r.pick((u64)(n.digits * 0.3L)))))); if (!std::isfinite((double)x) || x == v[k]) return false; v[k] = x; if ((f == F_BERN || f == F_BINOM || f == F_GEOM || f == F_GEOM_OLD || f == F_NEGB) && (f == F_BERN || f == F_GEOM || f == F_GEOM_OLD || k == 1) && x >= 1) return false; if ((f == F_UINT || f == F_SMALL) && x > n.imax) return false; if (f == F_SPHERE && x > 40) return false; if (f == F_BINOM && k == 0 && x > n.imax / 4) return false; }      // a barely different value
        else v[k] = w[k];
        switch (f) { case F_UINT: case F_SMALL: return v[0] <= v[1]; case F_UREAL: return v[0] < v[1]; case F_TRI: return v[0] <= v[1] && v[1] <= v[2] && v[0] < v[2]; default: return true; } }
    }
}
bool inside(Fam f, const V& p, const Val& x, const Num& n) {
    for (ld y : x.v) if (std::isnan((double)y)) return false;
    if (f == F_SPHERE) {
        if (x.v.size() != (std::size_t)p[0]) return false; if (x.v.empty()) return true; ld s = 0; for (ld y : x.v) { if (!(y >= -1.001L && y <= 1.001L)) return false; s += y * y; }
        return std::fabs(s - 1) <= (8 + p[0]) * std::ldexp(1.0L, -n.digits) * 8;
    }
    if (x.v.size() != 1) return false; ld y = x.v[0];
    switch (f) {
    case F_UINT: case F_SMALL: return y >= p[0] && y <= p[1];
    case F_UREAL: return y >= p[0] && y < p[1];
    case F_U01: return y >= 0 && y < 1;
    case F_BERN: return y == 0 ? p[0] < 1 : y == 1 && p[0] > 0;
    case F_BINOM: if (p[1] == 0) return y == 0; if (p[1] == 1) return y == p[0]; return y >= 0 && y <= p[0];
    case F_GEOM: case F_NEGB: case F_POIS: return y >= 0;
    case F_GEOM_OLD: return y >= 1;
    case F_DISC: case F_DISCI: return y >= 0 && y < p.size() && p[(std::size_t)y] > 0;
    case F_TRI: return y >= p[0] && y <= p[2];
    case F_LOGN: case F_LOGN_OLD: case F_EXPO: case F_GAMMA: case F_CHI2: case F_FISH: case F_WEIB: case F_HYPER: case F_NCCS: return y >= 0;
    case F_BETA: return y >= 0 && y <= 1;
    case F_PWC: case F_PWL: { std::size_t k = (std::size_t)p[0]; const ld* I = &p[1]; const ld* W = &p[1 + k]; for (std::size_t i = 0; i + 1 < k; ++i) if (y >= I[i] && y < I[i + 1]) return f == F_PWC ? W[i] > 0 : W[i] > 0 || W[i + 1] > 0; return false; }
    default: return true;
    }
}
bool same_params(Fam f, const V& a, const V& b, const Num& n, bool exact) {
    if (a.size() != b.size()) return false;
    ld eps = std::ldexp(1.0L, 2 - n.digits);
    auto close = [&](ld x, ld y, ld scale) { return x == y || std::fabs(x - y) <= eps * 16 * scale; };
    if (exact) { for (std::size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false; return true; }
    std::size_t w0 = 0, w1 = a.size();
    switch (f) {
    case F_DISC: break;
    case F_HYPER: w0 = 1; w1 = 1 + (std::size_t)a[0]; break;
    case F_PWC: w0 = 1 + (std::size_t)a[0]; break;
    default: for (std::size_t i = 0; i < a.size(); ++i) if (!close(a[i], b[i], std::max<ld>(std::fabs(a[i]), f == F_GEOM_OLD ? 1 : 0))) return false; return true;
    }
    if (w1 > a.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i) if ((i < w0 || i >= w1) && a[i] != b[i]) return false;
    ld sa = 0, sb = 0; for (std::size_t i = w0; i < w1; ++i) { sa += a[i]; sb += b[i]; }
    for (std::size_t i = w0; i < w1; ++i) if (!close(a[i] / sa, b[i] / sb, (ld)(w1 - w0 + 2))) return false;
    return true;
}
static bool mag(ld x, ld lo, ld hi) { return std::isfinite((double)x) && x >= lo && x <= hi; }
bool in_domain(const DistSpec& sp, const V& v) {      // documented domain, at magnitudes an application can draw from
    bool fl = sp.num.digits < 30; ld B = fl ? 1e4L : 1e8L; for (ld x : v) if (!std::isfinite((double)x)) return false;
    switch (sp.fam) {
    case F_UINT: case F_SMALL: return v[0] <= v[1];
    case F_UREAL: return v[0] < v[1] && std::isfinite((double)sp.num.round(v[1] - v[0]));
    case F_U01: return true;
    case F_BERN: return v[0] >= 0 && v[0] <= 1;
    case F_BINOM: return v[0] >= 0 && v[0] <= std::min<ld>(sp.num.imax, fl ? 1e6L : 2147483647.0L) && v[1] >= 0 && v[1] <= 1 && (v[1] == 0 || v[1] == 1 || mag(v[1], 1e-4L, 0.9999L));
    case F_GEOM: case F_GEOM_OLD: return mag(v[0], 1e-4L, 0.9999L);
    case F_NEGB: return mag(v[0], 1, 1000) && mag(v[1], 1e-3L, 0.999L);
    case F_POIS: return mag(v[0], 1e-6L, fl ? 1e3L : 1e7L);
    case F_DISC: case F_DISCI: { ld s = 0; for (ld x : v) { if (!(x >= 0)) return false; s += x; } return s > 0 && (sp.fam == F_DISCI || (mag(s, 1e-6L, 1e9L))) ; }
    case F_TRI: return v[0] <= v[1] && v[1] <= v[2] && v[0] < v[2] && mag(std::fabs(v[0]), 0, 1e9L) && mag(std::fabs(v[2]), 0, 1e9L);
    case F_NORM: return mag(std::fabs(v[0]), 0, B) && mag(v[1], 0, B);
    case F_LAPL: case F_CAUCHY: case F_EXTR: return mag(std::fabs(v[0]), 0, B) && mag(v[1], 1 / B, B);
    case F_LOGN: case F_LOGN_OLD: return mag(std::fabs(v[0]), sp.fam == F_LOGN_OLD ? 0.01L : 0, 20) && mag(v[1], 0.01L, 4) && (sp.fam == F_LOGN || v[0] > 0);
    case F_EXPO: return mag(v[0], 1 / B, B);
    case F_GAMMA: return mag(v[0], fl ? 1e-3L : 1e-5L, B) && mag(v[1], 1 / B, B);
    case F_BETA: case F_FISH: return mag(v[0], 1e-3L, B) && mag(v[1], 1e-3L, B);
    case F_CHI2: case F_STUD: return mag(v[0], 1e-3L, B);
    case F_WEIB: return mag(v[0], 0.1L, 100) && mag(v[1], 1 / B, B);
    case F_HYPER: { std::size_t k = (std::size_t)v[0]; if (!k) return false; ld s = 0; for (std::size_t i = 0; i < k; ++i) { if (!(v[1 + i] >= 0) || !mag(v[1 + k + i], 1e-4L, 1e4L)) return false; s += v[1 + i]; } return s > 0.5L && s < 2; }
    case F_PWC: case F_PWL: { std::size_t k = (std::size_t)v[0]; if (k < 2 || v.size() < k + 1) return false; for (std::size_t i = 0; i < k; ++i) { if (!mag(std::fabs(v[1 + i]), 0, 1e6L)) return false; if (i && !(v[1 + i] > v[i])) return false; } ld s = 0; for (std::size_t i = 1 + k; i < v.size(); ++i) { if (!(v[i] >= 0)) return false; s += v[i]; } return s > 1e-9L && v.size() == 1 + k + (sp.fam == F_PWL ? k : k - 1); }
    case F_NCCS: return mag(v[0], 1e-2L, 1e4L) && mag(v[1], 1e-2L, 1e4L);
    case F_SPHERE: return v[0] >= 0 && v[0] < 5000;
    }
    return false;
}
bool finite_law(const DistSpec& sp, const V& v) {
    bool fl = sp.num.digits < 30; if (!in_domain(sp, v)) return false;
    switch (sp.fam) {
    case F_EXTR: case F_STUD: case F_FISH: return false;      // their formulas divide by, or take the logarithm of, a variate that can be exactly zero
    case F_LOGN: case F_LOGN_OLD: return !fl || (std::fabs(v[0]) <= 2 && v[1] <= 0.5L);
    case F_WEIB: return v[0] >= (fl ? 1 : 0.25L);
    case F_GAMMA: return v[0] >= 0.5L;
    case F_CHI2: case F_NCCS: return v[0] >= 1;
    case F_BETA: return true;
    default: return true;
    }
}
}
