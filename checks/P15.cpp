// P15: delivered values follow the documented law under concurrent faulty service.
#include "dist.hpp"
#include "io.hpp"
#include <boost/math/distributions.hpp>
#include <boost/math/special_functions/gamma.hpp>
#include <algorithm>
using namespace sim;
namespace bm = boost::math;
namespace {
typedef bm::policies::policy<bm::policies::domain_error<bm::policies::ignore_error>, bm::policies::pole_error<bm::policies::ignore_error>, bm::policies::overflow_error<bm::policies::ignore_error>, bm::policies::underflow_error<bm::policies::ignore_error>, bm::policies::evaluation_error<bm::policies::ignore_error>, bm::policies::rounding_error<bm::policies::ignore_error>, bm::policies::indeterminate_result_error<bm::policies::ignore_error>, bm::policies::promote_double<false> > Pol;
struct Law { bool discrete; ld lo, hi, scale; std::function<double(ld)> F; };       // F(x) = P(X <= x)
template<class D> double cdf_(const D& d, ld x) { double r = bm::cdf(d, (double)x); return r < 0 ? 0 : r > 1 ? 1 : r; }
// the documented probability law of each family, from boost.math or first principles
bool law(Fam f, const V& v, const Num& n, Law& L) {
    L.discrete = false; L.lo = -INFINITY; L.hi = INFINITY; L.scale = 0; (void)n;
    auto pos = [&](std::function<double(ld)> g) { L.lo = 0; L.F = [g](ld x) { return x <= 0 ? 0.0 : std::isinf((double)x) ? 1.0 : g(x); }; };
    switch (f) {
    case F_UINT: case F_SMALL: { ld a = v[0], b = v[1]; L.discrete = true; L.lo = a; L.hi = b; L.F = [a, b](ld x) { return x < a ? 0.0 : x >= b ? 1.0 : (double)((std::floor(x) - a + 1) / (b - a + 1)); }; break; }
    case F_UREAL: { ld a = v[0], b = v[1]; L.lo = a; L.hi = b; L.scale = std::max(std::fabs(a), std::fabs(b)); L.F = [a, b](ld x) { return x <= a ? 0.0 : x >= b ? 1.0 : (double)((x - a) / (b - a)); }; break; }
    case F_U01: L.lo = 0; L.hi = 1; L.F = [](ld x) { return x <= 0 ? 0.0 : x >= 1 ? 1.0 : (double)x; }; break;
    case F_BERN: { double p = (double)v[0]; L.discrete = true; L.lo = 0; L.hi = 1; L.F = [p](ld x) { return x < 0 ? 0.0 : x < 1 ? 1 - p : 1.0; }; break; }
    case F_BINOM: { double p = (double)v[1]; ld t = v[0]; if (p <= 0 || p >= 1 || t < 1) return false; bm::binomial_distribution<double, Pol> d((double)t, p); L.discrete = true; L.lo = 0; L.hi = t; L.F = [d, t](ld x) { return x < 0 ? 0.0 : x >= t ? 1.0 : cdf_(d, std::floor(x)); }; break; }
    case F_GEOM: case F_GEOM_OLD: { double q = f == F_GEOM ? (double)(1 - v[0]) : (double)v[0]; ld off = f == F_GEOM_OLD; L.discrete = true; L.lo = off; L.hi = 1e15L; L.F = [q, off](ld x) { return x < off ? 0.0 : -std::expm1((double)(std::floor(x) - off + 1) * std::log(q)); }; break; }
    case F_NEGB: { bm::negative_binomial_distribution<double, Pol> d((double)v[0], (double)v[1]); L.discrete = true; L.lo = 0; L.hi = 1e15L; L.F = [d](ld x) { return x < 0 ? 0.0 : cdf_(d, std::floor(x)); }; break; }
    case F_POIS: { bm::poisson_distribution<double, Pol> d((double)v[0]); L.discrete = true; L.lo = 0; L.hi = 1e15L; L.F = [d](ld x) { return x < 0 ? 0.0 : cdf_(d, std::floor(x)); }; break; }
    case F_DISC: case F_DISCI: { V c; ld s = 0; for (ld x : v) { s += x; c.push_back(s); } L.discrete = true; L.lo = 0; L.hi = (ld)v.size() - 1; L.F = [c, s](ld x) { return x < 0 ? 0.0 : x >= c.size() ? 1.0 : (double)(c[(std::size_t)x] / s); }; break; }
    case F_TRI: { ld a = v[0], b = v[1], c = v[2]; L.lo = a; L.hi = c; L.scale = std::max(std::fabs(a), std::fabs(c)); L.F = [a, b, c](ld x) { return x <= a ? 0.0 : x >= c ? 1.0 : x < b ? (double)((x - a) * (x - a) / ((c - a) * (b - a))) : (double)(1 - (c - x) * (c - x) / ((c - a) * (c - b))); }; break; }
    case F_NORM: { ld m = v[0], s = v[1]; if (s <= 0) return false; L.scale = std::fabs(m) + s; L.F = [m, s](ld x) { return 0.5 * std::erfc(-(double)((x - m) / s) * 0.70710678118654752440); }; break; }
    case F_LAPL: { ld m = v[0], s = v[1]; L.scale = std::fabs(m) + s; L.F = [m, s](ld x) { double z = (double)((x - m) / s); return z < 0 ? 0.5 * std::exp(z) : 1 - 0.5 * std::exp(-z); }; break; }
    case F_CAUCHY: { ld m = v[0], s = v[1]; L.scale = std::fabs(m) + s; L.F = [m, s](ld x) { return (double)(0.5L + std::atan((x - m) / s) / 3.14159265358979323846264338327950288L); }; break; }
    case F_EXTR: { ld m = v[0], s = v[1]; L.scale = std::fabs(m) + s; L.F = [m, s](ld x) { return std::exp(-std::exp(-(double)((x - m) / s))); }; break; }
    case F_LOGN: case F_LOGN_OLD: { ld m = v[0], s = v[1]; if (f == F_LOGN_OLD) { ld mm = m, ss = s; m = std::log(mm * mm / std::sqrt(ss * ss + mm * mm)); s = std::sqrt(std::log(ss * ss / (mm * mm) + 1)); } if (s <= 0) return false; pos([m, s](ld x) { return 0.5 * std::erfc(-(double)((std::log(x) - m) / s) * 0.70710678118654752440); }); break; }
    case F_EXPO: { ld l = v[0]; pos([l](ld x) { return (double)-std::expm1(-l * x); }); break; }
    case F_GAMMA: { double a = (double)v[0]; ld b = v[1]; pos([a, b](ld x) { return bm::gamma_p(a, (double)(x / b), Pol()); }); break; }
    case F_CHI2: { double a = (double)v[0] / 2; pos([a](ld x) { return bm::gamma_p(a, (double)(x / 2), Pol()); }); break; }
    case F_BETA: { double a = (double)v[0], b = (double)v[1]; L.lo = 0; L.hi = 1; L.F = [a, b](ld x) { return x <= 0 ? 0.0 : x >= 1 ? 1.0 : bm::ibeta(a, b, (double)x, Pol()); }; break; }
    case F_FISH: { double a = (double)v[0], b = (double)v[1]; pos([a, b](ld x) { double ax = a * (double)x; return ax <= b ? bm::ibeta(a / 2, b / 2, ax / (ax + b), Pol()) : bm::ibetac(b / 2, a / 2, b / (ax + b), Pol()); }); break; }
    case F_STUD: { double a = (double)v[0]; L.F = [a](ld x) { double t = (double)x; if (std::isinf(t)) return t < 0 ? 0.0 : 1.0; double t2 = t * t, h = std::isinf(t2) || t2 > 1e280 ? 0.0 : 0.5 * bm::ibeta(a / 2, 0.5, a / (a + t2), Pol()); if (t2 < a) h = 0.5 * bm::ibetac(0.5, a / 2, t2 / (a + t2), Pol()); return t < 0 ? h : 1 - h; }; break; }
    case F_WEIB: { ld a = v[0], b = v[1]; pos([a, b](ld x) { return (double)-std::expm1(-std::pow(x / b, a)); }); break; }
    case F_HYPER: { std::size_t k = (std::size_t)v[0]; ld s = 0; for (std::size_t i = 0; i < k; ++i) s += v[1 + i]; V w = v; pos([w, k, s](ld x) { ld r = 0; for (std::size_t i = 0; i < k; ++i) r += w[1 + i] / s * -std::expm1(-w[1 + k + i] * x); return (double)r; }); break; }
    case F_PWC: case F_PWL: { std::size_t k = (std::size_t)v[0]; V I(v.begin() + 1, v.begin() + 1 + k), W(v.begin() + 1 + k, v.end()), C; ld s = 0; for (std::size_t i = 0; i + 1 < k; ++i) { C.push_back(s); s += f == F_PWC ? W[i] : (W[i] + W[i + 1]) / 2 * (I[i + 1] - I[i]); } L.lo = I[0]; L.hi = I[k - 1]; L.scale = std::max(std::fabs(L.lo), std::fabs(L.hi)); bool lin = f == F_PWL;
        L.F = [=](ld x) { if (x <= I[0]) return 0.0; if (x >= I[k - 1]) return 1.0; std::size_t i = std::upper_bound(I.begin(), I.end(), x) - I.begin() - 1; ld h = I[i + 1] - I[i], y = x - I[i]; return (double)((C[i] + (lin ? W[i] * y + (W[i + 1] - W[i]) * y * y / (2 * h) : W[i] * y / h)) / s); }; break; }
    case F_NCCS: { bm::non_central_chi_squared_distribution<double, Pol> d((double)v[0], (double)v[1]); pos([d](ld x) { return cdf_(d, x); }); break; }
    case F_SPHERE: { double a = ((double)v[0] - 1) / 2; if (v[0] < 1) return false; L.lo = -1; L.hi = 1; if (v[0] == 1) { L.discrete = true; L.F = [](ld x) { return x < -1 ? 0.0 : x < 1 ? 0.5 : 1.0; }; break; } L.scale = 1; L.F = [a](ld x) { return x <= -1 ? 0.0 : x >= 1 ? 1.0 : bm::ibeta(a, a, (double)((1 + x) / 2), Pol()); }; break; }
    default: return false;
    }
    return true;
}
u64 okey(double d) { u64 b = dbits(d); return b >> 63 ? ~b : b | (1ull << 63); }
double unkey(u64 k) { u64 b = k >> 63 ? k & ~(1ull << 63) : ~k; double d; std::memcpy(&d, &b, 8); return d; }
struct Bins {
    V edge; std::vector<double> p; std::vector<u64> c;
    std::size_t of(ld x) const { return std::lower_bound(edge.begin(), edge.end(), x) - edge.begin(); }      // bin i is (edge[i-1], edge[i]]
    void make(const Law& L, u64 N, const Num& n) {
        std::vector<double> q; unsigned K = N / 80 < 100 ? (unsigned)(N / 80) + 2 : 100; for (unsigned i = 1; i < K; ++i) q.push_back((double)i / K); for (double t = 0.5 / K; t * (double)N > 12; t /= 2) { q.push_back(t); q.push_back(1 - t); } std::sort(q.begin(), q.end());
        if (L.discrete) {
            ld k = L.lo; ld a = quant(L, 1e-9, L.lo), b = quant(L, 1 - 1e-9, a);
            if (b - a <= 600) { for (k = a; k <= b && k < L.hi; k += 1) edge.push_back(k); } else { ld last = L.lo - 1; for (double t : q) { ld e = quant(L, t, last < L.lo ? L.lo : last); if (e > last && e < L.hi) { edge.push_back(e); last = e; } } }
        } else {
            double lo = std::isinf((double)L.lo) ? -1.7e308 : (double)L.lo; double eps = std::ldexp(1.0, -n.digits < -53 ? -53 : -n.digits), lim = 0.02 * std::sqrt(1.0 / K / (double)N);
            for (double t : q) { u64 a = okey(lo), b = okey(std::isinf((double)L.hi) ? 1.7e308 : (double)L.hi); while (a < b) { u64 m = a + (b - a) / 2; if (L.F(unkey(m)) >= t) b = m; else a = m + 1; } double e = unkey(a), dl = 64 * eps * (std::fabs(e) + (double)L.scale) + 1e-300;
                if (!edge.empty() && e <= edge.back()) continue; double mx = (n.max10 < 308 ? n.max10 : 308) - 4.0, l10 = std::log10(std::fabs(e)); if (l10 < -mx || l10 > mx) continue; if (L.F((ld)e + dl) - L.F((ld)e - dl) > lim) continue; lo = e; edge.push_back(e); }
        }
        double prev = 0; for (ld e : edge) { double x = L.F(e); p.push_back(x - prev < 0 ? 0 : x - prev); prev = x; } p.push_back(1 - prev); c.assign(p.size(), 0);
    }
    static ld quant(const Law& L, double t, ld from) { ld a = from, b = from + 1; ld step = 1; while (b < L.hi && L.F(b) < t) { step *= 2; b = from + step; } if (b > L.hi) b = L.hi; while (a < b) { ld m = a + std::floor((b - a) / 2); if (L.F(m) >= t) b = m; else a = m + 1; } return a; }
};
// log-likelihood-ratio test of counts against exact cell probabilities; rare cells are pooled
double gtest(const std::vector<u64>& c, const std::vector<double>& p, u64 N, std::string* worst = 0) {
    double pool = 0, G = 0; u64 pc = 0, left = N; unsigned cells = 0; double lp = 0; std::size_t wi = 0; double wd = 0;
    auto add = [&](u64 o, double e, std::size_t i) { if (e <= 0) return; double t = o ? 2 * ((double)o * std::log((double)o / e) - (double)o + e) : 2 * e; G += t; ++cells; if (t > wd) { wd = t; wi = i; } };
    for (std::size_t i = 0; i < p.size(); ++i) { double e = p[i] * (double)N; if (e < 11) { pool += e; pc += c[i]; lp += p[i]; } else add(c[i], e, i); } (void)left;
    if (pool >= 11) add(pc, pool, p.size()); else if (pc > 25 + pool) { double t = 2 * ((double)pc * std::log((double)pc / (pool > 1e-9 ? pool : 1e-9)) - (double)pc + pool); if (t > 90) { G += t; ++cells; wi = p.size(); } }
    if (cells < 2) { if (cells == 1 && G > 90) return std::exp(-G / 2); return 1; } if (worst) *worst = wi < p.size() ? cat("cell ", wi, ": ", c[wi], " observed, ", p[wi] * (double)N, " expected") : cat("rare values: ", pc, " observed, ", pool, " expected");
    return bm::gamma_q((cells - 1) / 2.0, G / 2, Pol());
}
struct Client { const DistSpec* sp; std::unique_ptr<IDist> d; std::unique_ptr<IParam> p; std::vector<std::unique_ptr<IParam> > other; V v; Law L; Bins b; std::vector<unsigned char> group; std::vector<double> gp; unsigned ng; std::vector<u64> serial, cross, low, signs; u64 n, pairs, cpairs; int pend, last; std::size_t comp; std::vector<double> lowp; int lowkind; double lowmul; };
struct Test { double p; std::string what; };
bool usable(const DistSpec& sp, const V& v, int kind, u64 N) {
    if (sp.fam == F_UINT) return true;
    ld least = 9.0L / (sp.num.max10 < 308 ? sp.num.max10 : 308);      // below it intermediate ratios leave the range of the type
    if (sp.fam == F_BETA && (v[0] < least || v[1] < least)) return false;
    if (sp.fam == F_FISH && (v[0] < 2 * least || v[1] < 2 * least)) return false;
    if ((sp.fam == F_STUD || sp.fam == F_NCCS) && v[0] < 2 * least) return false;
    if (sp.fam == F_SMALL) return kind_bits[kind] >= 24 && (double)(v[1] - v[0] + 1) / std::exp2(kind_bits[kind]) * std::sqrt((double)N) < 0.01;
    return kind_bits[kind] >= 24;
}
double scenario(Run& r, const std::vector<const DistSpec*>& sps, const std::vector<V>& vs, const std::vector<V>& disturb, int kind, u64 N, u64 seed, double rate, std::string& msg) {
    Tape tape(mix64(seed)); Reader rd(tape); Prng g(seed); std::vector<Client> cs(sps.size()); V ov;
    for (std::size_t i = 0; i < cs.size(); ++i) {
        Client& c = cs[i]; c.sp = sps[i]; c.v = vs[i]; c.d.reset(c.sp->make()); c.p.reset(c.d->make_param(c.v)); c.d.reset(c.d->make(*c.p)); c.n = c.pairs = c.cpairs = 0; c.pend = c.last = -1; c.comp = c.sp->fam == F_SPHERE ? (std::size_t)(g.below((u64)c.v[0])) : 0;
        for (std::size_t k = 0; k < disturb.size() / sps.size(); ++k) c.other.emplace_back(c.d->make_param(disturb[i * (disturb.size() / sps.size()) + k]));
        law(c.sp->fam, c.v, c.sp->num, c.L); c.b.make(c.L, N, c.sp->num);
        double s = 0; unsigned gi = 0; c.gp.assign(1, 0); for (std::size_t k = 0; k < c.b.p.size(); ++k) { unsigned want = (unsigned)(s * 6); if (want > gi && c.gp[gi] > 0.05) { ++gi; c.gp.push_back(0); } c.group.push_back((unsigned char)gi); c.gp[gi] += c.b.p[k]; s += c.b.p[k]; } c.ng = gi + 1; c.serial.assign(c.ng * c.ng, 0);
        c.lowkind = 0; double sd = 0; ld q1 = 0, q3 = 0; if (c.L.discrete) { q1 = Bins::quant(c.L, 0.05, c.L.lo); q3 = Bins::quant(c.L, 0.95, q1); sd = (double)(q3 - q1) / 3.3; }
        if (c.sp->fam == F_UINT && c.v[1] - c.v[0] >= 64) { c.lowkind = 1; ld R = c.v[1] - c.v[0] + 1; u64 m = R > 1.8e19L ? 0 : (u64)std::fmod(R, 64.0L); ld base = std::floor(R / 64); for (u64 k = 0; k < 64; ++k) c.lowp.push_back((double)((base + (k < m)) / R)); }
        else if (c.L.discrete && sd > 40 && c.sp->fam != F_SMALL && c.sp->fam != F_DISC && c.sp->fam != F_DISCI && (c.sp->fam == F_POIS || c.sp->fam == F_BINOM || (c.sp->fam == F_NEGB && c.v[0] > 8))) { c.lowkind = 1; c.lowp.assign(8, 0.125); }
        else if (!c.L.discrete && (c.sp->fam == F_U01 || c.sp->fam == F_UREAL || c.sp->fam == F_NORM || c.sp->fam == F_EXPO)) { double rel = c.sp->fam == F_UREAL ? (double)(c.L.scale / (c.v[1] - c.v[0])) : c.sp->fam == F_NORM ? (double)(c.L.scale / c.v[1]) : 1; double bits = std::min<double>(c.sp->num.digits < 53 ? 20 : 40, kind_bits[kind] - 4) - std::log2(rel) - (c.sp->fam == F_NORM || c.sp->fam == F_EXPO ? 5 : 0); bits -= 12; if (bits >= 6) { c.lowkind = 2; c.lowmul = std::exp2(bits > 20 ? 20 : std::floor(bits)); c.lowp.assign(16, 1.0 / 16); } }
        c.low.assign(c.lowp.size(), 0); if (c.sp->fam == F_SPHERE && c.v[0] >= 2) c.signs.assign((std::size_t)1 << std::min<int>(3, (int)c.v[0]), 0);
    }
    if (cs.size() > 1) for (std::size_t i = 0; i < cs.size(); ++i) cs[i].cross.assign(cs[i].ng * cs[(i + 1) % cs.size()].ng, 0);
    auto take = [&](std::size_t ci, const Val& x) {
        Client& c = cs[ci]; ld y = c.comp < x.v.size() ? x.v[c.comp] : NAN; std::size_t b = c.b.of(y); ++c.b.c[b]; ++c.n; int gr = c.group[b];
        if (c.pend < 0) c.pend = gr; else { ++c.serial[c.pend * c.ng + gr]; ++c.pairs; c.pend = -1; }
        if (cs.size() > 1) { Client& pr = cs[(ci + cs.size() - 1) % cs.size()]; if (pr.last >= 0) { ++pr.cross[pr.last * c.ng + gr]; ++pr.cpairs; pr.last = -1; } c.last = gr; }
        if (c.lowkind == 1) ++c.low[c.sp->fam == F_UINT ? (std::size_t)std::fmod(y - c.v[0], 64.0L) : (std::size_t)((u64)y & 7)]; else if (c.lowkind == 2) { double F = c.L.F(y) * c.lowmul; ++c.low[(std::size_t)((F - std::floor(F)) * 16) & 15]; }
        if (!c.signs.empty()) { std::size_t k = 0; for (std::size_t q = 0; q < 3 && q < x.v.size(); ++q) k = k * 2 + (x.v[q] > 0); ++c.signs[k]; }
    };
    u64 total = N * cs.size(); u64 dist_cut = (u64)(rate * 4294967296.0);
    for (u64 k = 0; k < total; ++k) {
        std::size_t ci = cs.size() > 1 ? g.below(cs.size()) : 0; Client& c = cs[ci];
        u64 w = g.next(); if (c.n >= 2 * N) continue;
        if ((w & 0xffffffffu) < dist_cut) {
            switch ((w >> 32) % 8) {
            case 0: case 1: if (!c.other.empty()) { c.d->set(*c.other[g.below(c.other.size())]); for (u64 m = g.below(4); m-- > 0;) { rd.budget = rd.after + 20000; try { c.d->draw(rd, kind); } catch (BudgetExceeded&) {} } c.d->set(*c.p); SIM_PROBE("parameters changed and changed back"); } break;
            case 2: case 3: { rd.fail_at = rd.idx + g.below(4); rd.fired = false; u64 d = rd.fail_at; try { c.d->draw(rd, kind); } catch (EntropyFailed&) {} (void)d; rd.fail_at = ~0ull; rd.fired = false; break; }
            case 4: if (!(c.sp->flags & D_NOTEXT)) { SimOut<char> ob; std::ostream o(&ob); o.precision(25); c.d->save(o); SimIn<char> ib(ob.data); std::istream is(&ib); if (w >> 63) c.d.reset(c.d->fresh()); c.d->load(is); SIM_PROBE("checkpoint and restore"); } break;
            case 5: { std::unique_ptr<IDist> t(c.d->clone()); if (w >> 63) t->assign(*c.d); c.d = std::move(t); SIM_PROBE("continued on a copy"); break; }
            case 6: c.d->reset(); break;
            default: c.d.reset(c.d->make(*c.p)); break;
            }
        }
        rd.budget = rd.after + 100000; Val x = (w >> 40) % 16 == 0 ? c.d->draw_p(rd, kind, *c.p) : c.d->draw(rd, kind); take(ci, x);
    }
    double best = 1; std::string wst;
    auto see = [&](double p, std::string what) { if (!wst.empty()) what += ": " + wst; wst.clear(); dyn_probe("tests"); if (p < best) { best = p; msg = what; } };
    for (std::size_t i = 0; i < cs.size(); ++i) {
        Client& c = cs[i]; std::string id = cat(c.sp->name, show(c.v), " on engine ", kind_name[kind], ", ", c.n, " values"); r.ev(c.n); for (u64 x : c.b.c) r.ev(x); if (c.n < 500) continue;
        wst.clear(); double p = gtest(c.b.c, c.b.p, c.n, &wst); { std::size_t at = 0; if (wst.compare(0, 5, "cell ") == 0) { at = (std::size_t)std::atoi(wst.c_str() + 5); wst += cat(" in (", at ? cat(c.b.edge[at - 1]) : std::string("-"), ", ", at < c.b.edge.size() ? cat(c.b.edge[at]) : std::string("-"), "]"); } } see(p, cat("law: ", id));
        { double cum = 0, rest = 0, q = 0.6 * std::sqrt(8.0 / (double)c.n) + 0.002; u64 rc = 0; std::vector<u64> tc; std::vector<double> tp; std::size_t split = 0; for (std::size_t k = 0; k < c.b.p.size(); ++k) { double e = cum + c.b.p[k]; if (e <= q || cum >= 1 - q) { tc.push_back(c.b.c[k]); tp.push_back(c.b.p[k]); } else { rest += c.b.p[k]; rc += c.b.c[k]; } cum = e; } (void)split;
          if (tc.size() >= 2) { tc.push_back(rc); tp.push_back(rest); see(gtest(tc, tp, c.n, &wst), cat("law of the tails: ", id)); } }
        std::vector<double> pp; for (unsigned a = 0; a < c.ng; ++a) for (unsigned b = 0; b < c.ng; ++b) pp.push_back(c.gp[a] * c.gp[b]); if (c.ng > 1) see(gtest(c.serial, pp, c.pairs), cat("consecutive values of one client are correlated: ", id));
        if (cs.size() > 1) { Client& q = cs[(i + 1) % cs.size()]; pp.clear(); for (unsigned a = 0; a < c.ng; ++a) for (unsigned b = 0; b < q.ng; ++b) pp.push_back(c.gp[a] * q.gp[b]); if (pp.size() > 1) see(gtest(c.cross, pp, c.cpairs), cat("values of two clients are correlated: ", id, " with ", q.sp->name, show(q.v))); }
        if (c.lowkind) see(gtest(c.low, c.lowp, c.n, &wst), cat("law of the low-order digits: ", id));
        if (!c.signs.empty()) see(gtest(c.signs, std::vector<double>(c.signs.size(), 1.0 / c.signs.size()), c.n), cat("law of the sign pattern: ", id));
    }
    return best;
}
void service(Run& r) {
    static const u64 sizes[] = { 3000, 3000, 3000, 20000, 20000, 150000 }; u64 N = sizes[r.pick(6)]; bool big = r.pick(30) == 0; if (big) N = 800000; if (std::getenv("SIM_P15_N")) N = std::atoll(std::getenv("SIM_P15_N"));
    unsigned n = big ? 1 : 1 + (unsigned)r.pick(3); std::vector<const DistSpec*> sps; std::vector<V> vs, disturb; int kind = (int)r.pick(NKINDS); unsigned nd = 2;
    for (unsigned i = 0; i < n; ++i) {
        const DistSpec* sp = &r.among(dists()); if (i && r.pick(3) == 0) sp = sps[0]; V v; bool ok = false;
        for (int k = 0; k < 4 && !ok; ++k) { gen_params(r, sp->fam, r.pick(4) == 0 && sp->fam != F_LOGN ? L_WIDE : L_MODERATE, sp->num, v); Law L; ok = in_domain(*sp, v) && law(sp->fam, v, sp->num, L) && usable(*sp, v, kind, N); }
        if (!ok) { sp = nullptr; for (const DistSpec& d : dists()) if (d.fam == F_UINT) { sp = &d; break; } v = { 0, (ld)(1 + r.pick(200)) }; }
        sps.push_back(sp); vs.push_back(v); for (unsigned k = 0; k < nd; ++k) { V w; gen_params(r, sp->fam, L_MODERATE, sp->num, w); if (!in_domain(*sp, w)) w = v; disturb.push_back(w); }
        r.sig(name_hash(sp->name)); for (ld x : v) r.sig(dbits(x)); r.step(cat("client ", i, ": ", sp->name, show(v)));
    }
    r.sig(kind); static const double rates[] = { 0, 0.001, 0.02, 0.2 }; double rate = rates[r.pick(4)]; u64 seed = r.pick64(); r.step(cat("shared engine ", kind_name[kind], ", ", N, " values per client, disturbance rate ", rate)); r.sig((u64)(rate * 1000));
    std::string m, m2; double p = scenario(r, sps, vs, disturb, kind, N, seed, rate, m);
    if (p < 1e-5) { SIM_PROBE("repeated with four times the sample"); double p2 = p < 1e-25 ? p : scenario(r, sps, vs, disturb, kind, 4 * N, seed ^ 0x9999, rate, m2); r.step(cat("suspicious: ", m, " p=", p, "; repeated with four times the sample: p=", p2)); if (p2 < 1e-9) r.fail("wrong-law", cat(m2.empty() ? m : m2, " (p = ", p2, ")")); }
}
// importance sampling of entropy: one word of each draw is steered towards the values that lead to rare outcomes, deliveries are
// weighted by the exact likelihood ratio, so that the tails of the law are examined far beyond what fair entropy reaches
double steered(Run& r, const DistSpec& sp, const V& v, int kind, u64 N, u64 seed, int mode, u64 word, std::string& msg) {
    Tape tape(mix64(seed)); Reader rd(tape); Prng g(seed); std::unique_ptr<IDist> d0(sp.make()); std::unique_ptr<IParam> pp(d0->make_param(v)); std::unique_ptr<IDist> d(d0->make(*pp)); Law L; law(sp.fam, v, sp.num, L);
    std::vector<double> pi(256, 1 / 256.0), q; double range = kind_range[kind]; if (!mode) for (unsigned s = 0; s < 256; ++s) pi[s] = (double)((u64)((range - 1 - s) / 256) + 1) / range;
    auto draw = [&](unsigned s) { rd.steer_at = rd.idx + word; rd.steer_mode = mode; rd.steer_s = s; rd.budget = rd.after + 100000; Val x = d->draw(rd, kind); d->reset(); rd.steer_at = ~0ull; return x.v.empty() ? (ld)NAN : x.v[0]; };
    // pilot: which steering values lead to which tails
    static const double th[] = { 1e-1, 1e-2, 1e-3, 1e-4 }; std::vector<double> hit[8]; double sum[8] = {}; for (auto& h : hit) h.assign(256, 0); unsigned per = (unsigned)(N / 5120) + 8;
    for (unsigned s = 0; s < 256; ++s) for (unsigned k = 0; k < per; ++k) { ld x = draw(s); double F = L.F(x), G = L.discrete ? 1 - L.F(x - 1) : 1 - F; for (int t = 0; t < 4; ++t) { if (F < th[t]) hit[t][s] += pi[s], sum[t] += pi[s]; if (G < th[t]) hit[4 + t][s] += pi[s], sum[4 + t] += pi[s]; } }
    q.assign(256, 0); double tot = 0; int used = 0; for (int t = 0; t < 8; ++t) if (sum[t] > 0) ++used; const double share = 0.6; for (unsigned s = 0; s < 256; ++s) { double x = share * pi[s]; for (int t = 0; t < 8; ++t) if (sum[t] > 0) x += (1 - share) / used * hit[t][s] / sum[t]; q[s] = x; tot += x; }
    std::vector<double> w(256), cum(256); double c = 0, wmax = 0; for (unsigned s = 0; s < 256; ++s) { q[s] /= tot; c += q[s]; cum[s] = c; w[s] = pi[s] / q[s]; wmax = std::max(wmax, w[s]); }
    // tails to examine
    struct Tail { ld e; bool up; double p, slack, light, light2, heavy; u64 nh, nl; }; std::vector<Tail> ts; double eps = std::ldexp(1.0, sp.num.digits < 53 ? -sp.num.digits : -53);
    for (double t = 0.25; t * (double)N > 14; t /= 1.6) for (int up = 0; up < 2; ++up) {
        ld e; if (L.discrete) e = Bins::quant(L, up ? 1 - t : t, L.lo) - (up ? 0 : 1); else { double lo = std::isinf((double)L.lo) ? -1.7e308 : (double)L.lo; u64 a = okey(lo), b = okey(std::isinf((double)L.hi) ? 1.7e308 : (double)L.hi); while (a < b) { u64 m = a + (b - a) / 2; if (L.F(unkey(m)) >= (up ? 1 - t : t)) b = m; else a = m + 1; } e = unkey(a); }
        if (L.discrete && (e < L.lo || e >= L.hi)) continue; double F = L.F(e), p = up ? 1 - F : F; if (!(p * (double)N > 14) || p > 0.6) continue; double sl = 0;
        if (!L.discrete) { double mx = (sp.num.max10 < 308 ? sp.num.max10 : 308) - 4.0, l10 = std::log10(std::fabs((double)e)); if (l10 < -mx || l10 > mx) continue; ld dl = 64 * eps * (std::fabs(e) + L.scale) + 1e-300L; sl = L.F(e + dl) - L.F(e - dl); }
        sl += 8 * std::exp2(-kind_bits[kind]) + 1e-9 * p + 1e-14; if (!ts.empty() && ts.back().e == e && ts.back().up == (bool)up) continue; ts.push_back(Tail{ e, (bool)up, p, sl, 0, 0, 0, 0, 0 });
    }
    if (ts.empty()) return 0; ld loE = -INFINITY, hiE = INFINITY; for (auto& t : ts) if (t.up) { if (t.e < hiE) hiE = t.e; } else if (t.e > loE) loE = t.e;
    for (u64 k = 0; k < N; ++k) { double u = (double)(g.next() >> 11) / 9007199254740992.0; unsigned s = (unsigned)(std::lower_bound(cum.begin(), cum.end(), u) - cum.begin()); if (s > 255) s = 255; ld x = draw(s); if (x > loE && x <= hiE) continue; double ww = w[s];
        for (auto& t : ts) if (t.up ? x > t.e : x <= t.e) { if (ww > wmax / 8) { t.heavy += ww; ++t.nh; } else { t.light += ww; t.light2 += ww * ww; ++t.nl; } } }
    double worst = 0; for (std::size_t k = 0; k < ts.size(); ++k) SIM_PROBE("tail tests with steered entropy");
    for (auto& t : ts) {
        double obs = t.light + t.heavy, ex = t.p * (double)N, dv = std::fabs(obs - ex) - t.slack * (double)N; if (dv <= 0) continue; if (t.nl > 1000 && t.heavy < 0.3 * ex) SIM_PROBE("tail seen mostly through steering");
        // heavy part: weights are at most wmax, unseen and surplus hits bounded by a Poisson tail of e^-z*z/2
        auto bound = [&](double z) { double a = z * z / 2; return z * std::sqrt(t.light2 * 1.1 + 16 * (t.nl ? t.light2 / (double)t.nl : 0)) + wmax * (z * 1.4142135623731 * std::sqrt((double)t.nh) + a); };
        double z = 0; for (double y = 0.5; y < 60 && bound(y) < dv; y += 0.25) z = y; r.ev((u64)obs); if (z > worst) { worst = z; msg = cat("law of the tail: ", sp.name, show(v), " on engine ", kind_name[kind], ", ", N, " steered draws: values ", t.up ? "above " : "up to ", t.e, ": weight ", obs, " observed, ", ex, " expected"); }
    }
    return worst;
}
void tails(Run& r) {
    const DistSpec* sp = 0; V v; int kind = 0; bool ok = false;
    for (int k = 0; k < 6 && !ok; ++k) { sp = &r.among(dists()); kind = (int)r.pick(NKINDS); if (kind_bits[kind] < 24) kind = 2; if (sp->fam == F_UINT || sp->fam == F_SMALL || sp->fam == F_BERN || sp->fam == F_DISC || sp->fam == F_DISCI) continue; gen_params(r, sp->fam, L_MODERATE, sp->num, v); Law L; ok = in_domain(*sp, v) && law(sp->fam, v, sp->num, L) && usable(*sp, v, kind, 1000000); }
    if (!ok) { for (const DistSpec& d : dists()) if (d.fam == F_NORM) { sp = &d; break; } v = { 0, 1 }; kind = 2; }
    u64 N = r.pick(2) ? 1000000 : 4000000; int mode = (int)r.pick(2); u64 word = r.pick(4) == 0, seed = r.pick64(); std::string m, m2; r.sig(name_hash(sp->name)); for (ld x : v) r.sig(dbits(x)); r.sig(kind * 8 + mode * 2 + word);
    r.step(cat("client: ", sp->name, show(v), ", engine ", kind_name[kind], ", ", N, " draws with the ", mode ? "high" : "low", " bits of word ", word, " of each draw steered")); SIM_FAULT("entropy-steered-to-rare-branches");
    double z = steered(r, *sp, v, kind, N, seed, mode, word, m);
    if (z > 4) { double z2 = steered(r, *sp, v, kind, z > 9 ? N : 4 * N, seed ^ 0x9999, mode, word, m2); r.step(cat("suspicious: ", m, " (", z, " sigma bound); repeated: ", z2)); if (z2 > 5.5) r.fail("wrong-tail", cat(m2, " (more than ", z2, " standard errors)")); }
}
}
int main(int argc, char** argv) {
    CheckInfo c; c.property = "P15";
    c.technique_rule = "One case is one seeded service: 1 to 3 clients draw thousands of values from their distributions through one shared engine in a seeded interleaving, while parameters are changed and changed back, requests are aborted by entropy failures, and objects are checkpointed, restored, copied and re-made. Delivered values are tested against the documented law (likelihood-ratio test over quantile cells, low-order digits, serial and cross-client independence); a suspicious case is repeated with a four times larger fresh sample and reported below p = 1e-9. In the tails world one word of every draw is importance-sampled towards rare outcomes and deliveries are re-weighted by the exact likelihood ratio. Cases are distinct when clients, parameters, engine or disturbance rate differ.";
    c.worlds = { { "service", service, 17 }, { "tails", tails, 1 } };
    c.real = { "all distribution classes" };
    c.stub = { "entropy under distributions (fair, all engine shapes)", "stream devices" };
    c.assumptions = { "Boost.Math's distribution functions are accurate to 1e-10", "real-valued laws are judged on engines with at least 24 bits" };
    c.quick_runs = 40000000; c.thorough_runs = 4000000000ull; c.quick_secs = 75; c.thorough_secs = 3000;
    return run_main(argc, argv, c);
}
