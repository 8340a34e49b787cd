// Type-erased access to the real quasi-random generators of /repo, and their reference models.
#ifndef SIM_QRNG_HPP
#define SIM_QRNG_HPP
#include "core.hpp"
#include "alloc.hpp"
#include <iosfwd>
#include <istream>
#include <ostream>
#include <memory>
#include <vector>
namespace sim {
typedef long double ld;
typedef unsigned __int128 u128;
struct IQ {
    virtual ~IQ() {}
    virtual IQ* make(std::size_t dim) const = 0; virtual IQ* clone() const = 0; virtual IQ* move_out() = 0;
    virtual void assign(const IQ& o) = 0; virtual void move_assign(IQ& o) = 0; virtual void swap(IQ& o) = 0;
    virtual ld draw() = 0; virtual void generate(ld* f, std::size_t n) = 0; virtual std::size_t dimension() const = 0;
    virtual void seed() = 0; virtual void seed(u64 n) = 0; virtual void discard(u64 z) = 0;
    virtual bool eq(const IQ& o) const = 0; virtual bool ne(const IQ& o) const = 0;
    virtual ld min_v() const = 0; virtual ld max_v() const = 0;
    virtual void save(std::ostream&) const = 0; virtual void save(std::wostream&) const = 0; virtual void load(std::istream&) = 0; virtual void load(std::wistream&) = 0;
};
template<class Q, class SeedT> struct QBox : IQ {
    Q q; typedef typename Q::result_type RT;
    explicit QBox(std::size_t d) : q(d) {} explicit QBox(const Q& x) : q(x) {} QBox(Q&& x, int) : q(std::move(x)) {}
    static const Q& of(const IQ& o) { return static_cast<const QBox&>(o).q; } static Q& of(IQ& o) { return static_cast<QBox&>(o).q; }
    IQ* make(std::size_t d) const { return new QBox(d); } IQ* clone() const { return new QBox(q); } IQ* move_out() { return new QBox(std::move(q), 0); }
    void assign(const IQ& o) { q = of(o); } void move_assign(IQ& o) { q = std::move(of(o)); } void swap(IQ& o) { using std::swap; swap(q, of(o)); }
    ld draw() { return (ld)q(); }
    struct It { ld* p; RT t; struct Ref { ld* p; void operator=(RT v) { *p = (ld)v; } }; Ref operator*() { Ref r = { p }; return r; } It& operator++() { ++p; return *this; } It operator++(int) { It t(*this); ++p; return t; } bool operator!=(const It& o) const { return p != o.p; } bool operator==(const It& o) const { return p == o.p; } typedef std::output_iterator_tag iterator_category; typedef RT value_type; typedef std::ptrdiff_t difference_type; typedef void pointer; typedef Ref reference; };
    void generate(ld* f, std::size_t n) { It a, b; a.p = f; b.p = f + n; q.generate(a, b); }
    std::size_t dimension() const { return q.dimension(); } void seed() { q.seed(); } void seed(u64 n) { q.seed((SeedT)n); } void discard(u64 z) { q.discard(z); }
    bool eq(const IQ& o) const { return q == of(o); } bool ne(const IQ& o) const { return q != of(o); }
    ld min_v() const { return (ld)(Q::min)(); } ld max_v() const { return (ld)(Q::max)(); }
    void save(std::ostream& o) const { o << q; } void save(std::wostream& o) const { o << q; } void load(std::istream& i) { i >> q; } void load(std::wistream& i) { i >> q; }
};
enum QFam { Q_SOBOL, Q_NB2, Q_FAURE };
struct QSpec { const char* name; QFam fam; unsigned w; u64 last; u64 seedmax; std::size_t max_dim; ld tol; IQ* (*make)(std::size_t); };      // last: greatest sequence index; seedmax: greatest value of the seed type
const std::vector<QSpec>& qrngs();
// reference: position (vector n, component c), 0 <= c <= dim
struct QModel {
    const QSpec* sp; std::size_t dim; u64 n; std::size_t c; std::vector<u64> V; u64 base; std::vector<ld> cur; u64 cur_n; bool cur_ok;      // V[d * w + r]
    QModel(const QSpec& s, std::size_t d);
    const std::vector<ld>& vec(u64 i);
    bool at_end() const { return c == dim && n == sp->last; }
    ld next() { if (c == dim) { ++n; c = 0; } return vec(n)[c++]; }
    bool seed(u64 k) { if (k > sp->last) return false; n = k; c = 0; return true; }
    bool discard(u64 z) { u128 p = (u128)n * dim + c + z, end = ((u128)sp->last + 1) * dim; if (p > end) return false; if (z == 0 && c == dim) return true; u128 v = p / dim; c = (std::size_t)(p % dim); if (c == 0 && v) { --v; c = dim; } n = (u64)v; return true; }
    u128 pos() const { return (u128)n * dim + c; }
};
}
#endif
