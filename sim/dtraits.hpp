#ifndef SIM_DTRAITS_HPP
#define SIM_DTRAITS_HPP
#include "dist.hpp"
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/uniform_int.hpp>
#include <boost/random/uniform_real.hpp>
#include <boost/random/uniform_smallint.hpp>
#include <boost/random/uniform_real_distribution.hpp>
#include <boost/random/uniform_01.hpp>
#include <boost/random/bernoulli_distribution.hpp>
#include <boost/random/binomial_distribution.hpp>
#include <boost/random/geometric_distribution.hpp>
#include <boost/random/negative_binomial_distribution.hpp>
#include <boost/random/poisson_distribution.hpp>
#include <boost/random/discrete_distribution.hpp>
#include <boost/random/triangle_distribution.hpp>
#include <boost/random/normal_distribution.hpp>
#include <boost/random/lognormal_distribution.hpp>
#include <boost/random/exponential_distribution.hpp>
#include <boost/random/gamma_distribution.hpp>
#include <boost/random/beta_distribution.hpp>
#include <boost/random/chi_squared_distribution.hpp>
#include <boost/random/fisher_f_distribution.hpp>
#include <boost/random/student_t_distribution.hpp>
#include <boost/random/cauchy_distribution.hpp>
#include <boost/random/weibull_distribution.hpp>
#include <boost/random/extreme_value_distribution.hpp>
#include <boost/random/laplace_distribution.hpp>
#include <boost/random/hyperexponential_distribution.hpp>
#include <boost/random/piecewise_constant_distribution.hpp>
#include <boost/random/piecewise_linear_distribution.hpp>
#include <boost/random/non_central_chi_squared_distribution.hpp>
#include <boost/random/uniform_on_sphere.hpp>
#include <list>
#include <memory>
#include <cmath>
#include <initializer_list>
namespace sim {
namespace br = boost::random;
// a parameter set for the three classes that have no param_type of their own
template<class D, class R, int N> struct FakeParam {
    R v[2]; FakeParam() { v[0] = v[1] = 0; }
    friend bool operator==(const FakeParam& a, const FakeParam& b) { for (int i = 0; i < N; ++i) if (a.v[i] != b.v[i]) return false; return true; }
    friend bool operator!=(const FakeParam& a, const FakeParam& b) { return !(a == b); }
    template<class C> friend std::basic_ostream<C>& operator<<(std::basic_ostream<C>& o, const FakeParam& p) { for (int i = 0; i < N; ++i) { if (i) o << ' '; o << p.v[i]; } return o; }
    template<class C> friend std::basic_istream<C>& operator>>(std::basic_istream<C>& i, FakeParam& p) { FakeParam t; for (int k = 0; k < N; ++k) i >> t.v[k]; if (i) p = t; return i; }
};
template<class R> struct W01 : boost::uniform_01<R> {
    typedef boost::uniform_01<R> B; typedef FakeParam<W01, R, 0> param_type; W01() {} explicit W01(const param_type&) {}
    param_type param() const { return param_type(); } void param(const param_type&) {}
    template<class E> R operator()(E& e) { return static_cast<B&>(*this)(e); } template<class E> R operator()(E& e, const param_type&) { return static_cast<B&>(*this)(e); }
    friend bool operator==(const W01&, const W01&) { return true; } friend bool operator!=(const W01&, const W01&) { return false; }
};
template<class I, class R> struct WGeomOld : boost::geometric_distribution<I, R> {
    typedef boost::geometric_distribution<I, R> B; typedef FakeParam<WGeomOld, R, 1> param_type; WGeomOld() {} explicit WGeomOld(R p) : B(p) {} explicit WGeomOld(const param_type& p) : B(p.v[0]) {}
    param_type param() const { param_type p; p.v[0] = this->p(); return p; } void param(const param_type& p) { *this = WGeomOld(p); }
    template<class E> I operator()(E& e) const { return static_cast<const B&>(*this)(e); } template<class E> I operator()(E& e, const param_type& p) const { return WGeomOld(p)(e); }
    I min() const { return 1; } I max() const { return (std::numeric_limits<I>::max)(); }
    friend bool operator==(const WGeomOld& a, const WGeomOld& b) { return a.p() == b.p(); } friend bool operator!=(const WGeomOld& a, const WGeomOld& b) { return !(a == b); }
};
template<class R> struct WLognOld : boost::lognormal_distribution<R> {
    typedef boost::lognormal_distribution<R> B; typedef FakeParam<WLognOld, R, 2> param_type; WLognOld() {} WLognOld(R m, R s) : B(m, s) {} explicit WLognOld(const param_type& p) : B(p.v[0], p.v[1]) {}
    param_type param() const { param_type p; p.v[0] = this->mean(); p.v[1] = this->sigma(); return p; } void param(const param_type& p) { *this = WLognOld(p); }
    template<class E> R operator()(E& e) { return static_cast<B&>(*this)(e); } template<class E> R operator()(E& e, const param_type& p) { return WLognOld(p)(e); }
    R min() const { return 0; } R max() const { return std::numeric_limits<R>::infinity(); }
    friend bool operator==(const WLognOld& a, const WLognOld& b) { return a.mean() == b.mean() && a.sigma() == b.sigma(); } friend bool operator!=(const WLognOld& a, const WLognOld& b) { return !(a == b); }
};
template<class I> struct WUintOld : boost::uniform_int<I> { typedef boost::uniform_int<I> B; typedef typename B::param_type param_type; WUintOld() {} explicit WUintOld(I a) : B(a) {} WUintOld(I a, I b) : B(a, b) {} explicit WUintOld(const param_type& p) : B(p) {} };
template<class D_, class R> struct TFake0 { typedef D_ D; typedef typename D_::param_type P; static P make_p(const V&) { return P(); } static D make_d(const V&) { return D(); } static V vals(const P&) { return V(); } static V acc(const D&) { return V(); } };
template<class D_, class R> struct TFake1 { typedef D_ D; typedef typename D_::param_type P; static P make_p(const V& v) { P p; p.v[0] = (R)v[0]; return p; } static D make_d(const V& v) { return D((R)v[0]); } static V vals(const P& p) { return V{ (ld)p.v[0] }; } static V acc(const D& d) { return V{ (ld)d.p() }; } };
template<class D_, class R> struct TFake2 { typedef D_ D; typedef typename D_::param_type P; static P make_p(const V& v) { P p; p.v[0] = (R)v[0]; p.v[1] = (R)v[1]; return p; } static D make_d(const V& v) { return D((R)v[0], (R)v[1]); } static V vals(const P& p) { return V{ (ld)p.v[0], (ld)p.v[1] }; } static V acc(const D& d) { return V{ (ld)d.mean(), (ld)d.sigma() }; } };
#define SIM_COMMA ,
#define SIM_TR1(name, A1, x) template<class D_> struct name : Tr1<D_, A1> { typedef Tr1<D_, A1> Base; SIM_ACC1(x) };
#define SIM_TR2(name, A1, A2, x, y) template<class D_> struct name : Tr2<D_, A1, A2> { typedef Tr2<D_, A1, A2> Base; SIM_ACC2(x, y) };
template<class D_> struct TUint : Tr2<D_, typename D_::result_type, typename D_::result_type> { typedef Tr2<D_, typename D_::result_type, typename D_::result_type> Base; SIM_ACC2(a, b) };
SIM_TR1(TP, typename D_::input_type, p)
template<class D_, class R> struct TBern : Tr1<D_, R> { typedef Tr1<D_, R> Base; SIM_ACC1(p) };
template<class D_> struct TBinom : Tr2<D_, typename D_::result_type, typename D_::input_type> { typedef Tr2<D_, typename D_::result_type, typename D_::input_type> Base; SIM_ACC2(t, p) };
template<class D_> struct TNegb : Tr2<D_, typename D_::result_type, typename D_::input_type> { typedef Tr2<D_, typename D_::result_type, typename D_::input_type> Base; SIM_ACC2(k, p) };
SIM_TR1(TPois, typename D_::input_type, mean)
SIM_TR1(TExpo, typename D_::result_type, lambda)
SIM_TR1(TN, typename D_::result_type, n)
SIM_TR2(TAB, typename D_::result_type, typename D_::result_type, a, b)
SIM_TR2(TNorm, typename D_::result_type, typename D_::result_type, mean, sigma)
SIM_TR2(TLogn, typename D_::result_type, typename D_::result_type, m, s)
SIM_TR2(TGamma, typename D_::result_type, typename D_::result_type, alpha, beta)
SIM_TR2(TFish, typename D_::result_type, typename D_::result_type, m, n)
SIM_TR2(TCauchy, typename D_::result_type, typename D_::result_type, median, sigma)
SIM_TR2(TLapl, typename D_::result_type, typename D_::result_type, mean, beta)
SIM_TR2(TNccs, typename D_::result_type, typename D_::result_type, k, lambda)
template<class D_> struct TTri { typedef D_ D; typedef typename D_::param_type P; typedef typename D_::result_type R; struct Base { typedef typename D_::param_type P; typedef D_ D; }; static P make_p(const V& v) { return P((R)v[0], (R)v[1], (R)v[2]); } static D make_d(const V& v) { return D((R)v[0], (R)v[1], (R)v[2]); }
    static D* alt_d(unsigned f, const V& v) { return f == 0 ? new D : f == 1 ? new D((R)v[0]) : f == 2 ? new D((R)v[0], (R)v[1]) : 0; } static P* alt_p(unsigned f, const V& v) { return f == 0 ? new P : f == 1 ? new P((R)v[0]) : f == 2 ? new P((R)v[0], (R)v[1]) : 0; } SIM_ACC3(a, b, c) };
template<class D_> struct TSphere : Tr1<D_, int> { typedef Tr1<D_, int> Base; SIM_ACC1(dim) };
template<class D_, class W> struct TDisc { typedef D_ D; typedef typename D_::param_type P;
    static std::vector<W> w(const V& v) { return std::vector<W>(v.begin(), v.end()); }
    static P make_p(const V& v) { std::vector<W> x(w(v)); return P(x.begin(), x.end()); } static D make_d(const V& v) { std::vector<W> x(w(v)); return D(x.begin(), x.end()); }
    struct At { const std::vector<W>* w; W operator()(double x) const { return (*w)[(std::size_t)x]; } };
    template<class X> static X* alt(unsigned f, const std::vector<W>& w) {
        if (f == 0) return new X(w);                                                            // range
        if (f == 1) switch (w.size()) { case 0: return new X(std::initializer_list<W>{}); case 1: return new X(std::initializer_list<W>{ w[0] }); case 2: return new X{ w[0], w[1] }; case 3: return new X({ w[0], w[1], w[2] }); case 4: return new X{ w[0], w[1], w[2], w[3] }; default: return 0; }
        if (f == 2 && !w.empty()) { At g = { &w }; return new X(w.size(), 0.0, (double)w.size(), g); }      // function
        if (f == 3) { std::list<W> l(w.begin(), w.end()); return new X(l.begin(), l.end()); } return 0; }
    static D* alt_d(unsigned f, const V& v) { return alt<D>(f, w(v)); } static P* alt_p(unsigned f, const V& v) { return alt<P>(f, w(v)); }
    static V vals(const P& p) { std::vector<W> x(p.probabilities()); return V(x.begin(), x.end()); } static V acc(const D& d) { std::vector<W> x(d.probabilities()); return V(x.begin(), x.end()); } };
template<class D_> struct THyper { typedef D_ D; typedef typename D_::param_type P; typedef typename D_::result_type R;
    static void sp(const V& v, std::vector<R>& a, std::vector<R>& b) { std::size_t k = (std::size_t)v[0]; for (std::size_t i = 0; i < k; ++i) { a.push_back((R)v[1 + i]); b.push_back((R)v[1 + k + i]); } }
    static P make_p(const V& v) { std::vector<R> a, b; sp(v, a, b); return P(a.begin(), a.end(), b.begin(), b.end()); } static D make_d(const V& v) { std::vector<R> a, b; sp(v, a, b); return D(a.begin(), a.end(), b.begin(), b.end()); }
    template<class X> static X* alt(unsigned f, const V& v) { std::vector<R> a, b; sp(v, a, b); bool eq = true; for (R x : a) eq = eq && x == 1;
        if (f == 0) return new X(a, b); if (f == 1 && a.size() == 1) return new X({ a[0] }, { b[0] }); if (f == 1 && a.size() == 2) return new X({ a[0], a[1] }, { b[0], b[1] }); if (f == 1 && a.size() == 3) return new X({ a[0], a[1], a[2] }, { b[0], b[1], b[2] });
        if (!eq) return 0; if (f == 2) return new X(b.begin(), b.end()); if (f == 3) return new X(b);
        if (f == 4 && b.size() == 1) return new X(std::initializer_list<R>{ b[0] }); if (f == 4 && b.size() == 2) return new X(std::initializer_list<R>{ b[0], b[1] }); if (f == 4 && b.size() == 3) return new X(std::initializer_list<R>{ b[0], b[1], b[2] });
        if (f == 5) { std::list<R> l(b.begin(), b.end()); return new X(l.begin(), l.end()); } return 0; }
    static D* alt_d(unsigned f, const V& v) { return alt<D>(f, v); } static P* alt_p(unsigned f, const V& v) { return alt<P>(f, v); }
    template<class Q> static V get(const Q& p) { V v; std::vector<R> a(p.probabilities()), b(p.rates()); v.push_back((ld)a.size()); v.insert(v.end(), a.begin(), a.end()); v.insert(v.end(), b.begin(), b.end()); return v; }
    static V vals(const P& p) { return get(p); } static V acc(const D& d) { return get(d); } };
// piecewise distributions: parameters are intervals and weights; accessors return densities
template<class D_, bool Lin> struct TPiece { typedef D_ D; typedef typename D_::param_type P; typedef typename D_::result_type R;
    static void sp(const V& v, std::vector<R>& a, std::vector<R>& b) { std::size_t k = (std::size_t)v[0]; for (std::size_t i = 0; i < k; ++i) a.push_back((R)v[1 + i]); for (std::size_t i = 0; i < (Lin ? k : k - 1); ++i) b.push_back((R)v[1 + k + i]); }
    static P make_p(const V& v) { std::vector<R> a, b; sp(v, a, b); return P(a, b); } static D make_d(const V& v) { std::vector<R> a, b; sp(v, a, b); return D(a, b); }
    struct At { const std::vector<R>* a; const std::vector<R>* b; R operator()(R x) const { std::size_t i = 0; if (Lin) { while (i + 1 < a->size() && (*a)[i] < x) ++i; } else while (i + 2 < a->size() && (*a)[i + 1] <= x) ++i; return (*b)[i]; } };
    template<class X> static X* alt(unsigned f, const V& v) { std::vector<R> a, b; sp(v, a, b); At g = { &a, &b };
        if (f == 0) { b.push_back(77); return new X(a.begin(), a.end(), b.begin()); }         // extra weights are ignored
        if (f == 1 && a.size() == 2) return new X({ a[0], a[1] }, g); if (f == 1 && a.size() == 3) return new X({ a[0], a[1], a[2] }, g); if (f == 1 && a.size() == 4) return new X({ a[0], a[1], a[2], a[3] }, g);
        if (f == 2) { for (std::size_t i = 0; i + 1 < a.size(); ++i) if (a[i + 1] - a[i] != a[1] - a[0] || std::fmod(a[i] * 8, R(1)) != 0 || std::fabs(a[i]) > 1000) return 0; return new X(a.size() - 1, a.front(), a.back(), g); }
        if (f == 3) { std::list<R> l(a.begin(), a.end()); return new X(l, b); }
        // fewer than two boundaries: the default
        if (f == 4) return new X(a.begin(), a.begin() + (a.size() & 1), b.begin()); if (f == 5) { a.resize(a.size() & 1); b.resize(Lin ? a.size() : 0); return new X(a, b); } if (f == 6) return a.size() & 1 ? new X({ a[0] }, g) : new X(std::initializer_list<R>(), g);
        return 0; }
    static D* alt_d(unsigned f, const V& v) { return alt<D>(f, v); } static P* alt_p(unsigned f, const V& v) { return alt<P>(f, v); }
    // densities are turned back into weights (constant: probability of the bin; linear: density at the knot)
    template<class Q> static V get(const Q& p) { V v; std::vector<R> a(p.intervals()), b(p.densities()); v.push_back((ld)a.size()); v.insert(v.end(), a.begin(), a.end()); for (std::size_t i = 0; i < b.size(); ++i) v.push_back(Lin ? (ld)b[i] : i + 1 < a.size() ? (ld)b[i] * (ld)(a[i + 1] - a[i]) : (ld)b[i]); return v; }
    static V vals(const P& p) { return get(p); } static V acc(const D& d) { return get(d); } };
}
#endif
