H = "include/boost/random/"
CHK = r'''
#include <sstream>
#include <cstdio>
#include <vector>
#include <limits>
#include <cmath>
#include <string>
#include <cstdint>
#define CHECK(c) do { if(!(c)) { std::printf("property broken: %s\n", #c); return 1; } } while(0)
'''
bugs = [
dict(id="P06-seedseq-n68", property="P06",
  edits=[(H+"seed_seq.hpp", "(n >=  68) ?  7 :", "(n >   68) ?  7 :")],
  needs="a seed_seq request for exactly 68 words", breaks="generate() uses the wrong mixing distance at a threshold length",
  demo=r'''#include <boost/random/seed_seq.hpp>
#include <random>
'''+CHK+r'''
int main(){ for(int n=1;n<700;++n){ std::vector<std::uint32_t> c={1,2,3,77}; std::seed_seq a(c.begin(),c.end()); boost::random::seed_seq b(c.begin(),c.end()); std::vector<std::uint32_t> x(n),y(n); a.generate(x.begin(),x.end()); b.generate(y.begin(),y.end()); CHECK(x==y); } return 0; }'''),
dict(id="P02-lfsr-weak-seed", property="P02",
  edits=[(H+"linear_feedback_shift.hpp", "if(value < (1 << (w-k))) {", "if(value == 0) {")],
  needs="an arithmetic seed smaller than 2^(w-k)", breaks="a degenerate seed is not moved into the usable states: the register dies",
  demo=r'''#include <boost/random/linear_feedback_shift.hpp>
'''+CHK+r'''
int main(){ typedef boost::random::linear_feedback_shift_engine<std::uint32_t,32,29,2,4> E; for(std::uint32_t s=0;s<16;++s){ E e(s); std::uint32_t v = s < 8 ? s + 8 : s; E f(v); for(int i=0;i<100;++i) CHECK(e()==f()); } return 0; }'''),
dict(id="P13-discard-to-vector-end", property="P13",
  edits=[(H+"detail/qrng_base.hpp", "& static_cast<bool>(vec_n | extra);", "& static_cast<bool>(vec_n);")],
  needs="discarding exactly to the end of the last vector of a generator with a narrow word", breaks="discard() throws range_error although the same number of draws succeeds",
  demo=r'''#include <boost/random/niederreiter_base2.hpp>
#include <boost/random/sobol.hpp>
'''+CHK+r'''
int main(){ typedef boost::random::niederreiter_base2_engine<std::uint16_t,10> E; E e(3); e.seed(1020); for(;;){ E f(e); for(int k=1;k<=3;++k){ E a(e), b(e); bool ok=true; try{ for(int i=0;i<k;++i) a(); }catch(std::range_error&){ ok=false; } bool ok2=true; try{ b.discard(k); }catch(std::range_error&){ ok2=false; } CHECK(ok==ok2); if(ok) CHECK(a==b); } try{ e(); }catch(std::range_error&){ break; } } return 0; }'''),
dict(id="P15-uint-wrap-unchecked", property="P15",
  edits=[(H+"uniform_int_distribution.hpp", "if(result < result_increment) {", "if(result < result_increment && range != (std::numeric_limits<range_type>::max)()) {")],
  needs="a full-width 64-bit uniform_int_distribution on an engine whose range is not a power of two", breaks="values that wrap around are delivered, so small values are too frequent",
  demo=r'''#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/linear_congruential.hpp>
'''+CHK+r'''
int main(){ boost::random::uniform_int_distribution<std::uint64_t> d(0, ~std::uint64_t(0)); boost::random::minstd_rand g(7u); long h[8]={0}; const long N=400000; for(long i=0;i<N;++i) ++h[d(g)>>61]; for(int i=0;i<8;++i) CHECK(std::fabs(h[i]-N/8.0) < 8*std::sqrt(N/8.0)); return 0; }'''),
dict(id="P08-binomial-close-p", property="P08",
  edits=[(H+"binomial_distribution.hpp", "        _t = parm.t();\n        _p = parm.p();\n        init();", "        const bool same = _t == parm.t() && static_cast<float>(_p) == static_cast<float>(parm.p());\n        _t = parm.t();\n        _p = parm.p();\n        if(!same) init();")],
  needs="re-parameterising a binomial_distribution to a success probability that differs only beyond float precision", breaks="param() keeps derived constants of the previous parameters",
  demo=r'''#include <boost/random/binomial_distribution.hpp>
#include <boost/random/linear_congruential.hpp>
'''+CHK+r'''
int main(){ typedef boost::random::binomial_distribution<int,double> D; D a(2000000000, 0.25), b(2000000000, 0.25*(1+1e-8)); a.param(b.param()); CHECK(a==b); boost::random::minstd_rand g(5u), h(5u); for(int i=0;i<100000;++i) CHECK(a(g)==b(h)); return 0; }'''),
dict(id="P10-weibull-via-double", property="P10",
  edits=[(H+"weibull_distribution.hpp", "{ is >> parm._a >> std::ws >> parm._b; return is; }", "{\n            double a_in, b_in;\n            if(is >> a_in >> std::ws >> b_in) {\n                parm._a = static_cast<RealType>(a_in);\n                parm._b = static_cast<RealType>(b_in);\n            }\n            return is;\n        }")],
  needs="a long double weibull_distribution whose parameters need more than double precision or range", breaks="restored parameters differ from the ones written",
  demo=r'''#include <boost/random/weibull_distribution.hpp>
'''+CHK+r'''
int main(){ typedef boost::random::weibull_distribution<long double> D; D a(1.1L, 0.3L), b; std::stringstream s; s.precision(22); s<<a; s>>b; CHECK(!s.fail()); CHECK(a==b); return 0; }'''),
dict(id="P09-real-rounds-to-max", property="P09",
  edits=[(H+"uniform_real_distribution.hpp", "if(result < max_value) return result;", "if(result < max_value || numerator < divisor) return result;", 1)],
  needs="an integer engine near its maximum and an interval in which the product rounds up to the end", breaks="uniform_real_distribution delivers its excluded upper bound",
  demo=r'''#include <boost/random/uniform_real_distribution.hpp>
'''+CHK+r'''
struct E { typedef std::uint32_t result_type; static constexpr std::uint32_t min(){return 0;} static constexpr std::uint32_t max(){return 0xffffffffu;} int n; std::uint32_t operator()(){ return n++ ? 5u : 0xffffffffu; } };
int main(){ E e={0}; boost::random::uniform_real_distribution<double> d(1e9, 1e9+1e-6); CHECK(d(e) < d.b()); return 0; }'''),
dict(id="P07-open-before-copy", property="P07",
  edits=[("src/random_device.cpp", "  impl(const std::string & token) : path(token) {\n    fd = open(token.c_str(), O_RDONLY);\n    if(fd < 0)\n      error(\"cannot open\");\n  }", "  impl(const std::string & token) {\n    fd = open(token.c_str(), O_RDONLY);\n    path = token;\n    if(fd < 0)\n      error(\"cannot open\");\n  }"), ("src/random_device.cpp", "  const std::string path;", "  std::string path;")],
  needs="an allocation failure (or close) while a random_device with a long token is constructed", breaks="a failed construction leaves its descriptor open",
  demo=r'''#include <boost/random/random_device.hpp>
#include <new>
#include <cstdlib>
#include <fcntl.h>
#include <unistd.h>
'''+CHK+r'''
static long left = -1;
void* operator new(std::size_t n){ if(left==0) throw std::bad_alloc(); if(left>0) --left; return std::malloc(n?n:1); }
void operator delete(void* p) noexcept { std::free(p); } void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main(){ std::string t="/dev/../dev/../dev/../dev/../dev/zero"; int before=::open("/dev/null",O_RDONLY); ::close(before); for(int k=0;k<6;++k){ left=k; try { boost::random::random_device d(t); left=-1; } catch(std::bad_alloc&){} left=-1; } int after=::open("/dev/null",O_RDONLY); CHECK(before==after); return 0; }''', demo_flags="-I .", demo_link="src/random_device.cpp"),
dict(id="P12-sphere-static-sum", property="P12",
  edits=[(H+"uniform_on_sphere.hpp", "                detail::unit_normal_distribution<RealType> normal;\n                RealType sqsum;", "                detail::unit_normal_distribution<RealType> normal;\n                static RealType sqsum;")],
  needs="two threads drawing points of dimension above 3 at the same time", breaks="separate distributions share the running sum, so points leave the sphere",
  demo=r'''#include <boost/random/uniform_on_sphere.hpp>
#include <boost/random/splitmix64.hpp>
'''+CHK+r'''
boost::random::uniform_on_sphere<double>* other=0; 
struct E { typedef std::uint64_t result_type; static constexpr std::uint64_t min(){return 0;} static constexpr std::uint64_t max(){return ~std::uint64_t(0);} boost::random::splitmix64 g; int k=0; std::uint64_t operator()(){ if(++k%3==0 && other) { boost::random::uniform_on_sphere<double>* o=other; other=0; E e2; (*o)(e2); other=o; } return g(); } };
int main(){ boost::random::uniform_on_sphere<double> a(5), b(6); other=&b; E e; for(int i=0;i<1000;++i){ const std::vector<double>& v=a(e); double s=0; for(double x: v) s+=x*x; CHECK(std::fabs(s-1)<1e-9); } return 0; }'''),
dict(id="P05-triangle-unchecked", property="P05",
  edits=[(H+"triangle_distribution.hpp", "if(is >> a_in >> std::ws >> b_in >> std::ws >> c_in) {", "if(is >> a_in >> std::ws >> b_in) {\n                if(!(is >> std::ws >> c_in)) { is.clear(is.rdstate() & ~std::ios_base::failbit); c_in = b_in; }")],
  needs="triangle_distribution text truncated before its third number", breaks="truncated parameters are accepted silently",
  demo=r'''#include <boost/random/triangle_distribution.hpp>
'''+CHK+r'''
int main(){ boost::random::triangle_distribution<> d(1,2,3), e; std::stringstream s("1 2 "); s>>e; CHECK(s.fail()); return 0; }'''),
dict(id="P03-lcg-zero-inverse", property="P03",
  edits=[(H+"linear_congruential.hpp", "mod_type::mult(mod_type::mult(c, b_inv), a_z - 1));", "mod_type::mult(c, mod_type::mult(b_inv, a_z == 0 ? m - 1 : a_z - 1)));")],
  needs="x", breaks="x", demo=CHK+"int main(){return 0;}"),
dict(id="P02-lcg-add-boundary", property="P02",
  edits=[(H+"detail/const_mod.hpp", "else if(x < m - c)", "else if(x <= m - c)")],
  needs="an additive LCG with a non-power-of-two modulus reaching a state where a*x is exactly m - c", breaks="the state becomes m instead of 0: a value above max()",
  demo=r'''#include <boost/random/linear_congruential.hpp>
'''+CHK+r'''
int main(){ typedef boost::random::linear_congruential_engine<std::uint32_t, 1366, 150889, 714025> E; E e(1u); for(long i=0;i<1500000;++i){ std::uint32_t v=e(); CHECK(v < 714025u); } typedef boost::random::linear_congruential_engine<std::uint32_t, 4294967290u, 77u, 4294967291u> F; std::uint32_t x=77u; F f(x); CHECK(f() <= 4294967290u); return 0; }'''),
dict(id="P14-discardblock-equal-blocks", property="P14",
  edits=[(H+"discard_block.hpp", "if(_n >= returned_block) {", "if(_n >= returned_block && total_block != returned_block) {")],
  needs="x", breaks="x", demo=CHK+"int main(){return 0;}"),
dict(id="P04-invcong-eq-mod", property="P04",
  edits=[(H+"xor_combine.hpp", "x._rng1 == y._rng1 && x._rng2 == y._rng2", "x._rng1 == y._rng1 && x._rng2() == y._rng2()")],
  needs="x", breaks="x", demo=CHK+"int main(){return 0;}"),
dict(id="P01-discardblock-counter-mod", property="P01",
  edits=[(H+"discard_block.hpp", "os << s._rng << ' ' << s._n;", "os << s._rng << ' ' << s._n % returned_block;")],
  needs="a checkpoint taken when a block of discard_block_engine has just been fully delivered", breaks="the restored engine skips the discarding and continues with values that must never be delivered",
  demo=r'''#include <boost/random/ranlux.hpp>
'''+CHK+r'''
int main(){ boost::random::ranlux3 e; for(int i=0;i<100;++i){ std::stringstream s; s<<e; boost::random::ranlux3 f; s>>f; CHECK(e==f); boost::random::ranlux3 c(e); for(int k=0;k<300;++k) CHECK(c()==f()); e(); } return 0; }'''),
]
bugs = [b for b in bugs if b["needs"] != "x"]
