// Type-erased access to the real distributions of /repo under simulated entropy.
#ifndef SIM_DIST_HPP
#define SIM_DIST_HPP
#include "core.hpp"
#include "alloc.hpp"
#include <cmath>
#include <limits>
#include <memory>
#include <istream>
#include <ostream>
#include <iterator>
#include <vector>
#include <type_traits>
#include <utility>
#include <functional>
namespace sim {
typedef long double ld;
typedef std::vector<ld> V;
struct EntropyFailed { int code; };                  // thrown by a simulated entropy source (not a std::exception)

// ---- entropy ---------------------------------------------------------------
enum EntKind { ENT_FAIR, ENT_MIN, ENT_MAX, ENT_CONST, ENT_ALT, ENT_NEARMIN, ENT_NEARMAX, ENT_SLOW, ENT_KINDS };
struct Seg { EntKind k; u64 len; u64 c; };
struct Tape {                                       // a fixed, infinitely long entropy sequence; fair after the segments
    u64 seed; std::vector<Seg> segs;
    Tape() : seed(0) {}
    explicit Tape(u64 s) : seed(s) {}
    u64 hostile_len() const { u64 n = 0; for (auto& s : segs) n += s.len; return n; }
    static Tape hostile(Run& r) {
        Tape t; t.seed = r.pick64(); u64 n = 1 + r.pick(4);
        for (u64 i = 0; i < n; ++i) {
            Seg s; s.k = (EntKind)r.pick(ENT_KINDS); s.c = r.pick64(); s.len = s.k == ENT_FAIR ? r.pick(6) : 1 + (r.pick(3) == 0 ? r.pick(400) : r.pick(12));
            switch (s.k) { case ENT_MIN: SIM_FAULT("entropy-stuck-at-min"); break; case ENT_MAX: SIM_FAULT("entropy-stuck-at-max"); break; case ENT_CONST: SIM_FAULT("entropy-stuck-constant"); break; case ENT_ALT: SIM_FAULT("entropy-alternating-extremes"); break;
                case ENT_NEARMIN: SIM_FAULT("entropy-near-min"); break; case ENT_NEARMAX: SIM_FAULT("entropy-near-max"); break; case ENT_SLOW: SIM_FAULT("entropy-slow-sweep"); break; default: break; }
            t.segs.push_back(s);
        }
        return t;
    }
};
struct Reader {
    const Tape* t; u64 idx, fail_at, budget; int fail_kind; u64 hl; bool fired; u64 after; u64 hook_at; std::function<void()>* hook; u64 steer_at; int steer_mode; u64 steer_s;     // hook: another client runs while this draw waits for entropy
    Reader(const Tape& tp, u64 start = 0) : t(&tp), idx(start), fail_at(~0ull), budget(~0ull), fail_kind(0), hl(tp.hostile_len()), fired(false), after(0), hook_at(~0ull), hook(0), steer_at(~0ull), steer_mode(0), steer_s(0) {}
    // offset in [0, m] (m == ~0: whole word)
    u64 next(u64 m) {
        u64 i = idx++; ++R->sim_steps;
        if (i >= fail_at && !fired) { fired = true; SIM_FAULT("entropy-source-throws"); if (fail_kind) throw std::runtime_error("entropy"); throw EntropyFailed{3}; }
        if (i == hook_at && hook) { std::function<void()>* h = hook; hook = 0; (*h)(); }
        if (i >= hl && ++after > budget) throw BudgetExceeded();
        u64 w = mix64(t->seed ^ mix64(i + 0x51ed));
        if (i == steer_at) { if (steer_mode) w = w >> 8 | steer_s << 56; else return 256 * scale(w, (m - steer_s) / 256) + steer_s; }      // low or high 8 bits chosen by the scheduler
        EntKind k = ENT_FAIR; u64 c = 0, p = i;
        for (auto& s : t->segs) { if (p < s.len) { k = s.k; c = s.c; break; } p -= s.len; }
        switch (k) {
        case ENT_MIN: return 0;
        case ENT_MAX: return m;
        case ENT_CONST: return scale(c, m);
        case ENT_ALT: return i & 1 ? 0 : m;
        case ENT_NEARMIN: { u64 d = w % 3; return d < m ? d : m; }
        case ENT_NEARMAX: { u64 d = w % 3; return d < m ? m - d : 0; }
        case ENT_SLOW: { u64 d = p + (c & 7); return (c & 8) ? (d < m ? m - d : 0) : (d < m ? d : m); }
        default: return scale(w, m);
        }
    }
    static u64 scale(u64 w, u64 m) { return m == ~0ull ? w : (u64)(((unsigned __int128)w * (m + 1)) >> 64); }
};
// engine shapes: integer engines of different result types and ranges, floating-point engines
template<class T, T Lo, T Hi> struct IntEng {
    typedef T result_type; Reader* rd;
    static constexpr T min() { return Lo; } static constexpr T max() { return Hi; }
    T operator()() { typedef unsigned long long U; U m = (U)Hi - (U)Lo; return (T)((U)Lo + rd->next(m)); }
};
template<class T, int W> struct RealEng {
    typedef T result_type; Reader* rd;
    static constexpr T min() { return 0; } static constexpr T max() { return 1; }
    T operator()() { u64 o = rd->next((1ull << W) - 1); return (T)o / (T)(1ull << W); }
};
enum { NKINDS = 12 };
template<int K> struct EngK;
template<> struct EngK<0> { typedef IntEng<u32, 0u, 0xffffffffu> type; };
template<> struct EngK<1> { typedef IntEng<u32, 1u, 2147483646u> type; };
template<> struct EngK<2> { typedef IntEng<u64, 0, ~0ull> type; };
template<> struct EngK<3> { typedef IntEng<std::int32_t, -100, 1610612635> type; };
template<> struct EngK<4> { typedef RealEng<double, 53> type; };
template<> struct EngK<5> { typedef IntEng<u32, 0, 0xffffffu> type; };
template<> struct EngK<6> { typedef RealEng<float, 24> type; };
template<> struct EngK<7> { typedef IntEng<u64, 0, 2305843009213693950ull> type; };
template<> struct EngK<8> { typedef IntEng<std::int64_t, (-9223372036854775807LL - 1), 9223372036854775807LL> type; };
template<> struct EngK<9> { typedef IntEng<std::uint16_t, 0, 65535> type; };
template<> struct EngK<10> { typedef IntEng<std::uint8_t, 3, 250> type; };
template<> struct EngK<11> { typedef IntEng<u32, 0, 1> type; };
static const char* const kind_name[NKINDS] = { "u32", "u32 [1,2^31-2]", "u64", "i32 1.5*2^30 values from -100", "double [0,1)", "u32 24-bit", "float [0,1)", "u64 2^61-1 values", "i64 full", "u16", "u8 [3,250]", "coin" };
static const double kind_range[NKINDS] = { 4294967296.0, 2147483646.0, 18446744073709551616.0, 1610612736.0, 9007199254740992.0, 16777216.0, 16777216.0, 2305843009213693951.0, 18446744073709551616.0, 65536.0, 248.0, 2.0 };
static const double kind_bits[NKINDS] = { 32, 31, 64, 30.58, 53, 24, 24, 61, 64, 16, 7.9, 1 };

// ---- values ------------------------------------------------------------------
struct Val {
    V v; u64 n;
    bool same(const Val& o) const { if (v.size() != o.v.size()) return false; for (std::size_t i = 0; i < v.size(); ++i) if (dbits(v[i]) != dbits(o.v[i])) return false; return true; }
    std::string str() const { std::string s; for (std::size_t i = 0; i < v.size() && i < 6; ++i) s += cat(i ? "," : "", v[i]); return s; }
    u64 hash() const { u64 h = v.size(); for (ld x : v) h = mix64(h ^ dbits(x)); return h; }
};
inline std::string show(const V& v) { std::string s = "("; for (std::size_t i = 0; i < v.size() && i < 10; ++i) s += cat(i ? ", " : "", v[i]); return s + (v.size() > 10 ? ", ...)" : ")"); }

enum Fam { F_UINT, F_SMALL, F_UREAL, F_U01, F_BERN, F_BINOM, F_GEOM, F_GEOM_OLD, F_NEGB, F_POIS, F_DISC, F_DISCI, F_TRI, F_NORM, F_LOGN, F_LOGN_OLD, F_EXPO, F_GAMMA, F_BETA, F_CHI2, F_FISH, F_STUD, F_CAUCHY, F_WEIB, F_EXTR, F_LAPL, F_HYPER, F_PWC, F_PWL, F_NCCS, F_SPHERE };
// numeric type description used by generators
struct Num {
    int digits, max10; ld (*round)(ld); ld imin, imax;       // real type; integer (result/weight) type limits
    template<class Re, class In> static Num of() { Num n; n.digits = std::numeric_limits<Re>::digits; n.max10 = std::numeric_limits<Re>::max_exponent10; n.round = [](ld x) -> ld { return (ld)(Re)x; }; n.imin = (ld)std::numeric_limits<In>::min(); n.imax = (ld)std::numeric_limits<In>::max(); return n; }
};
enum Level { L_MODERATE, L_WIDE, L_EXTREME };       // EXTREME: only for I/O and parameter handling, never drawn from
void gen_params(Run& r, Fam f, Level l, const Num& n, V& out);
bool neighbour(Run& r, Fam f, const Num& n, const V& base, V& out);            // one component of base changed; false if none is valid
bool inside(Fam f, const V& p, const Val& x, const Num& n);
bool same_params(Fam f, const V& a, const V& b, const Num& n, bool exact);     // up to normalisation

struct DistSpec; bool in_domain(const DistSpec& sp, const V& v);      // documented domain, at magnitudes an application can draw from
bool finite_law(const DistSpec& sp, const V& p);         // parameters for which no plausible value overflows the type
struct IParam {
    virtual ~IParam() {}
    virtual IParam* clone() const = 0; virtual void assign(const IParam& o) = 0; virtual void move_assign(IParam& o) = 0; virtual IParam* move_out() = 0; virtual void swap(IParam& o) = 0;
    virtual bool eq(const IParam& o) const = 0; virtual bool ne(const IParam& o) const = 0;
    virtual V vals() const = 0;
    virtual void save(std::ostream&) const = 0; virtual void save(std::wostream&) const = 0; virtual void load(std::istream&) = 0; virtual void load(std::wistream&) = 0;
};
struct IDist {
    virtual ~IDist() {}
    virtual IDist* clone() const = 0; virtual IDist* move_out() = 0; virtual void assign(const IDist& o) = 0; virtual void move_assign(IDist& o) = 0; virtual void swap(IDist& o) = 0;
    virtual IDist* make(const IParam& p) const = 0;                    // same type, constructed from a parameter set
    virtual IDist* make_vals(const V& v) const = 0;                    // same type, constructed by the value constructor
    virtual IDist* fresh() const = 0;
    virtual IParam* make_param(const V& v) const = 0;
    virtual IDist* make_alt(unsigned form, const V& v) const = 0; virtual IParam* param_alt(unsigned form, const V& v) const = 0;      // the other documented constructors; null where there is none
    virtual void set(const IParam& p) = 0; virtual IParam* get() const = 0; virtual V acc() const = 0;
    virtual Val draw(Reader& rd, int kind) = 0; virtual Val draw_p(Reader& rd, int kind, const IParam& p) = 0;
#ifdef SIM_P12
    virtual bool draw_const(Reader& rd, int kind, Val& out) const = 0;      // operator() const, where the distribution has one
#endif
    virtual void reset() = 0; virtual bool eq(const IDist& o) const = 0; virtual bool ne(const IDist& o) const = 0;
    virtual Val min_v() const = 0; virtual Val max_v() const = 0;
    virtual void save(std::ostream&) const = 0; virtual void save(std::wostream&) const = 0; virtual void load(std::istream&) = 0; virtual void load(std::wistream&) = 0;
};
enum { D_EXACT = 1, D_EXACTIO = 2, D_VEC = 4, D_NOMINMAX = 8, D_NOTEXT = 16, D_INTRES = 32 };
struct DistSpec { const char* name; Fam fam; unsigned flags; Num num; IDist* (*make)(); };
struct DistReg { DistReg(const DistSpec& s); };
const std::vector<DistSpec>& dists();

template<class T> struct is_vec : std::false_type {};
template<class T> struct is_vec<std::vector<T> > : std::true_type {};
template<class T> inline Val to_val(const T& x, std::false_type) { Val v; v.v.assign(1, (ld)x); v.n = 1; return v; }
template<class T> inline Val to_val(const T& x, std::true_type) { Val v; v.v.assign(x.begin(), x.end()); v.n = x.size(); return v; }
template<class T> inline Val to_val(const T& x) { return to_val(x, is_vec<T>()); }

template<class T> struct ParamBox : IParam {
    typedef typename T::P P; P p;
    explicit ParamBox(const P& x) : p(x) {}
    explicit ParamBox(P&& x, int) : p(std::move(x)) {}
    static const P& of(const IParam& o) { return static_cast<const ParamBox&>(o).p; }
    static P& of(IParam& o) { return static_cast<ParamBox&>(o).p; }
    IParam* clone() const { return new ParamBox(p); } void assign(const IParam& o) { p = of(o); } void move_assign(IParam& o) { p = std::move(of(o)); } IParam* move_out() { return new ParamBox(std::move(p), 0); } void swap(IParam& o) { using std::swap; swap(p, of(o)); }
    bool eq(const IParam& o) const { return p == of(o); } bool ne(const IParam& o) const { return p != of(o); }
    V vals() const { return T::vals(p); }
    void save(std::ostream& o) const { o << p; } void save(std::wostream& o) const { o << p; } void load(std::istream& i) { i >> p; } void load(std::wistream& i) { i >> p; }
};
template<class T> struct DistBox : IDist {
    typedef typename T::D D; typedef typename T::P P; typedef ParamBox<T> PB; D d;
    DistBox() : d() {}
    explicit DistBox(const D& x) : d(x) {}
    explicit DistBox(D&& x, int) : d(std::move(x)) {}
    struct ByP {}; DistBox(ByP, const P& p) : d(p) {}
    static const D& of(const IDist& o) { return static_cast<const DistBox&>(o).d; } static D& of(IDist& o) { return static_cast<DistBox&>(o).d; }
    IDist* clone() const { return new DistBox(d); } IDist* move_out() { return new DistBox(std::move(d), 0); } void assign(const IDist& o) { d = of(o); } void move_assign(IDist& o) { d = std::move(of(o)); } void swap(IDist& o) { using std::swap; swap(d, of(o)); }
    IDist* make(const IParam& p) const { return new DistBox(ByP(), PB::of(p)); }
    IDist* make_vals(const V& v) const { return new DistBox(T::make_d(v)); }
    IDist* fresh() const { return new DistBox(); }
    IParam* make_param(const V& v) const { return new PB(T::make_p(v)); }
    template<class T_> static auto altd(unsigned f, const V& v, int) -> decltype(T_::alt_d(f, v), (IDist*)0) { std::unique_ptr<D> x(T_::alt_d(f, v)); return x ? new DistBox(*x) : 0; } template<class T_> static IDist* altd(unsigned, const V&, long) { return 0; }
    template<class T_> static auto altp(unsigned f, const V& v, int) -> decltype(T_::alt_p(f, v), (IParam*)0) { std::unique_ptr<P> x(T_::alt_p(f, v)); return x ? new PB(*x) : 0; } template<class T_> static IParam* altp(unsigned, const V&, long) { return 0; }
    IDist* make_alt(unsigned f, const V& v) const { return altd<T>(f, v, 0); } IParam* param_alt(unsigned f, const V& v) const { return altp<T>(f, v, 0); }
    void set(const IParam& p) { d.param(PB::of(p)); } IParam* get() const { return new PB(d.param()); } V acc() const { return T::acc(d); }
    template<int K> Val drawk(Reader& rd) { typename EngK<K>::type e; e.rd = &rd; return to_val(d(e)); }
    template<int K> Val drawpk(Reader& rd, const P& p) { typename EngK<K>::type e; e.rd = &rd; return to_val(d(e, p)); }
    Val draw(Reader& rd, int kind) {
        switch (kind) { case 0: return drawk<0>(rd); case 1: return drawk<1>(rd); case 2: return drawk<2>(rd); case 3: return drawk<3>(rd); case 4: return drawk<4>(rd); case 5: return drawk<5>(rd); case 6: return drawk<6>(rd); case 7: return drawk<7>(rd); case 8: return drawk<8>(rd); case 9: return drawk<9>(rd); case 10: return drawk<10>(rd); default: return drawk<11>(rd); }
    }
    Val draw_p(Reader& rd, int kind, const IParam& pp) {
        const P& p = PB::of(pp);
        switch (kind) { case 0: return drawpk<0>(rd, p); case 1: return drawpk<1>(rd, p); case 2: return drawpk<2>(rd, p); case 3: return drawpk<3>(rd, p); case 4: return drawpk<4>(rd, p); case 5: return drawpk<5>(rd, p); case 6: return drawpk<6>(rd, p); case 7: return drawpk<7>(rd, p); case 8: return drawpk<8>(rd, p); case 9: return drawpk<9>(rd, p); case 10: return drawpk<10>(rd, p); default: return drawpk<11>(rd, p); }
    }
#ifdef SIM_P12
    template<class X, class E> static auto dc(const X& x, E& e, Val& o, int) -> decltype(x(e), bool()) { o = to_val(x(e)); return true; }
    template<class X, class E> static bool dc(const X&, E&, Val&, long) { return false; }
    template<int K> bool dck(Reader& rd, Val& o) const { typename EngK<K>::type e; e.rd = &rd; return dc(d, e, o, 0); }
    bool draw_const(Reader& rd, int kind, Val& out) const { switch (kind % 4) { case 0: return dck<0>(rd, out); case 1: return dck<2>(rd, out); case 2: return dck<4>(rd, out); default: return dck<5>(rd, out); } }
#endif
    void reset() { d.reset(); } bool eq(const IDist& o) const { return d == of(o); } bool ne(const IDist& o) const { return d != of(o); }
    Val min_v() const { return to_val((d.min)()); } Val max_v() const { return to_val((d.max)()); }
    void save(std::ostream& o) const { o << d; } void save(std::wostream& o) const { o << d; } void load(std::istream& i) { i >> d; } void load(std::wistream& i) { i >> d; }
};
// traits for scalar-parameter distributions: constructor takes the parameters in order
template<class Dst, class A1> struct Tr1 { typedef Dst D; typedef typename Dst::param_type P; static P make_p(const V& v) { return P((A1)v[0]); } static D make_d(const V& v) { return D((A1)v[0]); }
    static D* alt_d(unsigned f, const V&) { return f == 0 ? new D : 0; } static P* alt_p(unsigned f, const V&) { return f == 0 ? new P : 0; } };
template<class Dst, class A1, class A2> struct Tr2 { typedef Dst D; typedef typename Dst::param_type P; static P make_p(const V& v) { return P((A1)v[0], (A2)v[1]); } static D make_d(const V& v) { return D((A1)v[0], (A2)v[1]); }
    static D* alt_d(unsigned f, const V& v) { return f == 0 ? new D : f == 1 ? new D((A1)v[0]) : 0; } static P* alt_p(unsigned f, const V& v) { return f == 0 ? new P : f == 1 ? new P((A1)v[0]) : 0; } };
}
#define SIM_DIST(id, Traits, fam, flags, Re, In) static ::sim::IDist* mkd_##id() { return new ::sim::DistBox<Traits >(); } \
    static ::sim::DistReg regd_##id(::sim::DistSpec{ #id, fam, flags, ::sim::Num::of<Re, In>(), &mkd_##id });
#define SIM_ACC1(x) static V vals(const typename Base::P& p) { return V{ (ld)p.x() }; } static V acc(const typename Base::D& d) { return V{ (ld)d.x() }; }
#define SIM_ACC2(x, y) static V vals(const typename Base::P& p) { return V{ (ld)p.x(), (ld)p.y() }; } static V acc(const typename Base::D& d) { return V{ (ld)d.x(), (ld)d.y() }; }
#define SIM_ACC3(x, y, z) static V vals(const typename Base::P& p) { return V{ (ld)p.x(), (ld)p.y(), (ld)p.z() }; } static V acc(const typename Base::D& d) { return V{ (ld)d.x(), (ld)d.y(), (ld)d.z() }; }
#endif
