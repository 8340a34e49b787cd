// Type-erased access to the real engines of /repo, paired with their reference models.
#ifndef SIM_ENGBOX_HPP
#define SIM_ENGBOX_HPP
#include "core.hpp"
#include "ref.hpp"
#include "alloc.hpp"
#include <iosfwd>
#include <istream>
#include <ostream>
#include <vector>
#include <list>
#include <deque>
#include <stdexcept>
#include <type_traits>
#include <new>
#include <utility>
namespace sim {
struct SourceFailed { int code; };       // thrown by simulated seed / entropy sources

// contents of a simulated seed source, decided by the run
struct SeedWords {
    int style; u64 key; std::vector<u32> lit;
    u32 at(u64 n, u64 i) const {
        switch (style) {
        case 0: return (u32)mix64(key + 0x1000003 * n + i);
        case 1: return 0;
        case 2: return 0xffffffffu;
        case 3: return (u32)key;
        case 4: return i == key % (n ? n : 1) ? 1u : 0u;
        case 5: return (u32)(i * 0x9E3779B9u + key);
        default: return lit.empty() ? 0 : lit[i % lit.size()];
        }
    }
    static SeedWords random(Run& r) { SeedWords s; u64 k = r.pick(10); s.style = k == 0 ? 3 : k <= 5 ? 0 : (int)(k - 5); s.key = k == 4 || k == 5 ? r.pick(64) : r.pick64(); return s; }
};
// seed sequence: a pure function of the requested length; may throw while writing
struct SimSeq {
    const SeedWords* w; u64 fail_after; u64 given; u64 calls;      // fail_after: words given before throwing (~0: never)
    std::vector<u64> lens;
    explicit SimSeq(const SeedWords& s, u64 f = ~0ull) : w(&s), fail_after(f), given(0), calls(0) {}
    typedef u32 result_type;
    template<class It> void generate(It f, It l) {
        ++calls; u64 n = 0; for (It q = f; q != l; ++q) ++n;
        { AllocPause ap; lens.push_back(n); }
        for (u64 i = 0; i < n; ++i, ++f) {
            if (given >= fail_after) { SIM_FAULT("seed-sequence-throws"); throw SourceFailed{1}; }
            ++given; ++R->sim_steps; *f = w->at(n, i);
        }
    }
};
// single-pass input iterator over `total` words; may throw while reading
struct IterLog { const SeedWords* w; u64 total, fail_at, reads, max_read; bool overrun, reread; int mode = 0; };      // mode: what throws at position fail_at: 0 dereference, 1 increment, 2 comparison
struct SimIter {
    typedef std::input_iterator_tag iterator_category; typedef u32 value_type; typedef std::ptrdiff_t difference_type; typedef const u32* pointer; typedef u32 reference;
    IterLog* log; u64 pos;
    SimIter(IterLog* l, u64 p) : log(l), pos(p) {}
    u32 operator*() const {
        ++R->sim_steps;
        if (pos >= log->total) { log->overrun = true; return 0xDEADBEEFu; }
        if (!log->mode && pos >= log->fail_at) { SIM_FAULT("seed-iterator-throws"); throw SourceFailed{2}; }
        ++log->reads; if (pos + 1 > log->max_read) log->max_read = pos + 1;
        return log->w->at(log->total, pos);
    }
    SimIter& operator++() { if (pos >= log->total) log->overrun = true; if (log->mode == 1 && pos >= log->fail_at) { SIM_FAULT("seed-iterator-throws-on-increment"); throw SourceFailed{2}; } ++pos; return *this; }
    SimIter operator++(int) { SimIter t(*this); ++*this; return t; }
    friend bool operator==(const SimIter& a, const SimIter& b) { if (a.log->mode == 2) { u64 p = a.pos < b.pos ? a.pos : b.pos; if (p >= a.log->fail_at) { SIM_FAULT("seed-iterator-throws-on-compare"); throw SourceFailed{2}; } } return a.pos == b.pos; }
    friend bool operator!=(const SimIter& a, const SimIter& b) { return !(a == b); }
};
struct SeqSrc : ref::Src { const SeedWords& w; explicit SeqSrc(const SeedWords& s) : w(s) {} void words(u32* o, std::size_t n) { for (std::size_t i = 0; i < n; ++i) o[i] = w.at(n, i); } bool is_seq() const { return true; } };
struct RangeSrc : ref::Src { const SeedWords& w; u64 total, pos; RangeSrc(const SeedWords& s, u64 t) : w(s), total(t), pos(0) {} void words(u32* o, std::size_t n) { for (std::size_t i = 0; i < n; ++i) o[i] = w.at(total, pos++); } bool is_seq() const { return false; } };
// a std seed-seq backed source (for boost::random::seed_seq)
struct StdSeqSrc : ref::Src { const std::vector<u32>& v; explicit StdSeqSrc(const std::vector<u32>& s) : v(s) {} void words(u32* o, std::size_t n) { std::vector<u32> b(n); ref::std_seed_seq(v, b); for (std::size_t i = 0; i < n; ++i) o[i] = b[i]; } bool is_seq() const { return true; } };

#ifdef SIM_SEED_EXTRA
// another (real) engine used as a seed sequence, possibly failing at its n-th request
struct IEng;
struct GenSeq { IEng* g; u64 calls, fail_call; typedef u32 result_type; void run(u32* f, u32* l); template<class It> void generate(It f, It l) const { const_cast<GenSeq*>(this)->gen(f, l); }
    template<class It> void gen(It f, It l) { if (++calls == fail_call) { SIM_FAULT("seed-generator-throws"); throw SourceFailed{3}; } std::vector<u32> b; { AllocPause ap; b.resize((std::size_t)std::distance(f, l)); run(b.data(), b.data() + b.size()); std::copy(b.begin(), b.end(), f); std::vector<u32>().swap(b); } } };
#endif
struct IEng {
    virtual ~IEng() {}
    virtual IEng* clone() const = 0;
    virtual IEng* fresh() const = 0;                       // default constructed, same type
    virtual IEng* make_int(u64 v) const = 0;               // constructors
    virtual IEng* make_seq(SimSeq& s) const = 0;
    virtual IEng* make_std_seq(const std::vector<u32>& v) const = 0;
    virtual IEng* make_range(SimIter& f, SimIter l) const = 0;
    virtual IEng* move_out() = 0;
    virtual void assign(const IEng& o) = 0;
    virtual void move_assign(IEng& o) = 0;
    virtual void swap(IEng& o) = 0;
    virtual u64 draw() = 0;                                // integer value / exact numerator over 2^w
    virtual bool last_in_range() const = 0;                // last drawn value within [min(), max()]
    virtual bool eq(const IEng& o) const = 0;
    virtual bool ne(const IEng& o) const = 0;
    virtual void discard(u64 z) = 0;
    virtual void seed() = 0; virtual void seed(u64 v) = 0;
    virtual void seed_seq(SimSeq& s) = 0; virtual void seed_std_seq(const std::vector<u32>& v) = 0; virtual void seed_range(SimIter& f, SimIter l) = 0;
    virtual void generate(u32* f, u32* l) = 0;
    virtual void generate64(u64* f, u64* l) = 0;
    virtual void save(std::ostream& o) const = 0; virtual void save(std::wostream& o) const = 0;
    virtual void load(std::istream& i) = 0; virtual void load(std::wistream& i) = 0;
    virtual u64 min_v() const = 0; virtual u64 max_v() const = 0;
#ifdef SIM_SEED_EXTRA
    virtual IEng* typed_seed(int kind, i64 v, bool ctor, u64& as) = 0;            // seed by an arithmetic value of another type; `as`: the value it must stand for
    virtual IEng* gen_seed(GenSeq& g, bool ctor, bool as_const) = 0;              // seed from another generator
    virtual IEng* iter_seed(int kind, const std::vector<u32>& w, bool ctor, u64& used) = 0;   // range seeds by ordinary iterators
#endif
};

template<class E, class SeedT, int W, bool RangeSeed> struct EngBox : IEng {
    typedef typename E::result_type RT;
    enum { is_real = !std::is_integral<RT>::value };
    E e; RT last;
    EngBox() : e(), last() {}
    explicit EngBox(const E& x) : e(x), last() {}
    explicit EngBox(E&& x, int) : e(std::move(x)), last() {}
    struct ByInt {}; struct BySeq {}; struct ByRange {};
    EngBox(ByInt, SeedT v) : e(v), last() {}
    template<class S> EngBox(BySeq, S& s) : e(s), last() {}
    template<class B> struct rng { static E make(SimIter& f, SimIter l) { return E(f, l); } static void seed(E& e, SimIter& f, SimIter l) { e.seed(f, l); } };
    static const EngBox& cast(const IEng& o) { return static_cast<const EngBox&>(o); }
    static EngBox& cast(IEng& o) { return static_cast<EngBox&>(o); }
    IEng* clone() const { return new EngBox(e); }
    IEng* fresh() const { return new EngBox(); }
    IEng* make_int(u64 v) const { return new EngBox(ByInt(), static_cast<SeedT>(v)); }
    IEng* make_seq(SimSeq& s) const { return new EngBox(BySeq(), s); }
    IEng* make_std_seq(const std::vector<u32>& v) const;
    struct YesR { static IEng* make(SimIter& f, SimIter l) { E t(f, l); return new EngBox(t); } static void seed(E& e, SimIter& f, SimIter l) { e.seed(f, l); } };
    struct NoR { static IEng* make(SimIter&, SimIter) { return 0; } static void seed(E&, SimIter&, SimIter) {} };
    typedef typename std::conditional<RangeSeed, YesR, NoR>::type RS;
    IEng* make_range(SimIter& f, SimIter l) const { return RSmake<RangeSeed>(f, l); }
    template<bool B> typename std::enable_if<B, IEng*>::type RSmake(SimIter& f, SimIter l) const { E t(f, l); return new EngBox(t); }
    template<bool B> typename std::enable_if<!B, IEng*>::type RSmake(SimIter&, SimIter) const { return 0; }
    template<bool B> typename std::enable_if<B>::type RSseed(SimIter& f, SimIter l) { e.seed(f, l); }
    template<bool B> typename std::enable_if<!B>::type RSseed(SimIter&, SimIter) {}
    IEng* move_out() { return new EngBox(std::move(e), 0); }
    void assign(const IEng& o) { e = cast(o).e; }
    void move_assign(IEng& o) { e = std::move(cast(o).e); }
    void swap(IEng& o) { using std::swap; swap(e, cast(o).e); }
    static u64 num(RT v, std::true_type) { return static_cast<u64>(static_cast<long double>(v) * static_cast<long double>(1ull << (W & 63))); }
    static u64 num(RT v, std::false_type) { return static_cast<u64>(v); }
    u64 draw() { last = e(); return num(last, std::integral_constant<bool, (bool)is_real>()); }
    bool last_in_range() const { return last >= (E::min)() && last <= (E::max)(); }
    bool eq(const IEng& o) const { return e == cast(o).e; }
    bool ne(const IEng& o) const { return e != cast(o).e; }
    void discard(u64 z) { e.discard(z); }
    void seed() { e.seed(); }
    void seed(u64 v) { e.seed(static_cast<SeedT>(v)); }
    void seed_seq(SimSeq& s) { e.seed(s); }
    void seed_std_seq(const std::vector<u32>& v);
    void seed_range(SimIter& f, SimIter l) { RSseed<RangeSeed>(f, l); }
    void generate(u32* f, u32* l) { e.generate(f, l); }
    void generate64(u64* f, u64* l) { e.generate(f, l); }
    void save(std::ostream& o) const { o << e; } void save(std::wostream& o) const { o << e; }
    void load(std::istream& i) { i >> e; } void load(std::wistream& i) { i >> e; }
#ifdef SIM_SEED_EXTRA
    template<class T> IEng* typed(T v, bool ctor, u64& as) { as = (u64)static_cast<SeedT>(v); if (ctor) { E t(v); return new EngBox(t); } e.seed(v); return 0; }
    IEng* typed_seed(int kind, i64 v, bool ctor, u64& as) {
        switch (kind) { case 0: return typed((int)v, ctor, as); case 1: return typed((short)v, ctor, as); case 2: return typed((unsigned char)v, ctor, as); case 3: return typed((long long)v, ctor, as); case 4: return typed((unsigned long)v, ctor, as);
        case 5: return typed((bool)(v & 1), ctor, as); case 6: return typed((double)(v & 0xffff), ctor, as); case 7: { const unsigned c = (unsigned)v; return typed<const unsigned&>(c, ctor, as); } default: return typed((char)v, ctor, as); } }
    IEng* gen_seed(GenSeq& g, bool ctor, bool as_const) { const GenSeq& c = g; if (ctor) { if (as_const) { E t(c); return new EngBox(t); } E t(g); return new EngBox(t); } if (as_const) e.seed(c); else e.seed(g); return 0; }
    template<class It> IEng* by_iter(It f, It l, bool ctor, u64& used, std::true_type) { It b = f; if (ctor) { try { E t(f, l); used = (u64)std::distance(b, f); return new EngBox(t); } catch (...) { used = (u64)std::distance(b, f); throw; } } try { e.seed(f, l); } catch (...) { used = (u64)std::distance(b, f); throw; } used = (u64)std::distance(b, f); return 0; }
    template<class It> IEng* by_iter(It, It, bool, u64&, std::false_type) { return 0; }
    IEng* iter_seed(int kind, const std::vector<u32>& w, bool ctor, u64& used) {
        std::integral_constant<bool, RangeSeed> y; 
        switch (kind) { case 0: return by_iter(w.data(), w.data() + w.size(), ctor, used, y); case 1: { std::vector<unsigned long long> v(w.begin(), w.end()); return by_iter(v.begin(), v.end(), ctor, used, y); } 
        case 2: { std::list<u32> v(w.begin(), w.end()); return by_iter(v.begin(), v.end(), ctor, used, y); } default: { std::deque<u32> v(w.begin(), w.end()); return by_iter(v.cbegin(), v.cend(), ctor, used, y); } } }
#endif
    u64 min_v() const { return num((E::min)(), std::integral_constant<bool, (bool)is_real>()); }
    u64 max_v() const { return num((E::max)(), std::integral_constant<bool, (bool)is_real>()); }
};
enum { ENG_REAL = 1, ENG_NORANGE = 2, ENG_FASTJUMP = 4, ENG_RAWBULK = 8, ENG_BITS = 16, ENG_MT = 32, ENG_TEXTEND = 64 };
struct EngSpec {
    const char* name; IEng* (*make)(); ref::Model* (*model)(); unsigned flags; unsigned state;   // state: words of state (cost)
    unsigned real_bits;
};
std::vector<EngSpec>& eng_registry();
struct EngReg { EngReg(const EngSpec& s); };
const std::vector<EngSpec>& engines();       // sorted by name: independent of link order
}
#define SIM_ENGINE(id, Type, SeedT, W, RangeSeed, flags, state, ...) \
    static ::sim::IEng* mk_##id() { return new ::sim::EngBox<Type, SeedT, W, RangeSeed>(); } \
    static ::ref::Model* md_##id() { return new __VA_ARGS__; } \
    static ::sim::EngReg reg_##id(::sim::EngSpec{ #id, &mk_##id, &md_##id, flags, state, W });
#endif
