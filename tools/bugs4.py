H = "include/boost/random/"
CHK = r'''
#include <sstream>
#include <cstdio>
#include <vector>
#include <limits>
#include <cmath>
#include <string>
#include <cstdint>
#define CHECK(c) do { if(!(c)) { std::printf("property broken: %s\n", #c); return 1; } } while(0)
'''
bugs = [
dict(id="P13-faure-cache-grows-only", property="P13",
  edits=[(H+"faure.hpp", "if (coeff.size() != size_hint(hisum)) {", "if (coeff.size() < size_hint(hisum)) {")],
  needs="seeding a faure generator backwards across a power of its base", breaks="a table computed for larger indices is reused with the wrong stride",
  demo=r'''#include <boost/random/faure.hpp>
'''+CHK+r'''
int main(){ boost::random::faure a(5), b(5); b.seed(3000); b(); b.seed(7); a.seed(7); for(int i=0;i<200;++i) CHECK(a()==b()); return 0; }'''),
dict(id="P04-swc-carry-ignored", property="P04",
  edits=[(H+"subtract_with_carry.hpp", "return x_.carry == y.carry;", "return true;")],
  needs="two generators whose words agree but whose carries differ", breaks="generators with different futures compare equal",
  demo=r'''#include <boost/random/subtract_with_carry.hpp>
'''+CHK+r'''
int main(){ typedef boost::random::subtract_with_carry_engine<std::uint32_t,24,10,24> E; E a;  a.discard(1000); std::ostringstream o; o<<a; std::string t=o.str(); CHECK(t.size()>2); char& c=t[t.size()-1]; c = c=='0' ? '1' : '0'; std::istringstream i(t); E b; i>>b; bool differ=false; E x = a; E y = b; for(int k=0;k<200;++k) if(x()!=y()) differ=true; CHECK(!differ || a!=b); return 0; }'''),
dict(id="P04-shuffle-last-ignored", property="P04",
  edits=[(H+"shuffle_order.hpp", "{ return x._rng == y._rng && x.y == y.y && std::equal(x.v, x.v+k, y.v); }", "{ return x._rng == y._rng && std::equal(x.v, x.v+k, y.v); }")],
  needs="two shuffle_order engines that differ only in the value selecting the next table entry", breaks="engines with different futures compare equal",
  demo=r'''#include <boost/random/shuffle_order.hpp>
#include <boost/random/linear_congruential.hpp>
'''+CHK+r'''
int main(){ typedef boost::random::knuth_b E; E a; a.discard(10); std::ostringstream o; o<<a; std::string t=o.str(); std::string u=t.substr(0,t.rfind(' '))+" 5"; std::istringstream i(u); E b; i>>b; CHECK(!i.fail()); E x(a), y(b); bool differ=false; for(int k=0;k<2000;++k) if(x()!=y()) differ=true; CHECK(!differ || a!=b); return 0; }'''),
dict(id="P14-additive-tie", property="P14",
  edits=[(H+"additive_combine.hpp", "if(val2 < val1) return val1 - val2;", "if(val2 <= val1) return val1 - val2;")],
  needs="both component generators delivering the same value in one step", breaks="the combination delivers 0, which is outside [min(), max()], instead of modulus1-1",
  demo=r'''#include <boost/random/additive_combine.hpp>
'''+CHK+r'''
typedef boost::random::linear_congruential_engine<std::uint32_t,3,0,101> A; typedef boost::random::linear_congruential_engine<std::uint32_t,5,0,97> B;
int main(){ boost::random::additive_combine_engine<A,B> e(1u); for(int i=0;i<20000;++i){ std::uint32_t v=e(); CHECK(v>=1 && v<=100); } return 0; }'''),
dict(id="P12-mt-static-print", property="P12",
  edits=[(H+"mersenne_twister.hpp", "        UIntType data[n];", "        static UIntType data[n];")],
  needs="two threads saving Mersenne twisters at the same time", breaks="one generator's checkpoint contains words of another",
  demo_flags="-pthread", demo=r'''#include <boost/random/mersenne_twister.hpp>
#include <thread>
#include <atomic>
'''+CHK+r'''
int main(){ std::atomic<int> bad(0); auto f=[&](unsigned s){ boost::random::mt19937 e(s); e.discard(s%600); std::string first; for(int i=0;i<3000;++i){ std::ostringstream o; o<<e; if(i==0) { boost::random::mt19937 q; std::istringstream in(o.str()); in>>q; if(!(q==e)) ++bad; first=o.str(); } else if(o.str()!=first) ++bad; } }; std::thread a(f,11u), b(f,500u), c(f,77u), d(f,333u); a.join(); b.join(); c.join(); d.join(); CHECK(bad==0); return 0; }'''),
dict(id="P05-mixmax-counter-unbounded", property="P05",
  edits=[(H+"mixmax.hpp", "if (in && sum == savedsum && counter>0 && counter<=Ndim){", "if (in && sum == savedsum && counter!=0){")],
  needs="damaged checkpoint text whose position field reads as a huge number", breaks="the restored generator reads outside its state",
  demo=r'''#include <boost/random/mixmax.hpp>
'''+CHK+r'''
int main(){ boost::random::mixmax e; for(int i=0;i<5;++i) e(); std::ostringstream o; o<<e; std::string t=o.str(); std::size_t p=t.find(' ')+1, q=t.find(' ',p); t.replace(p,q-p,"4294967295"); std::istringstream i(t); boost::random::mixmax f; i>>f; CHECK(i.fail()); return 0; }'''),
dict(id="P10-gamma-restored-uninit", property="P10",
  edits=[(H+"gamma_distribution.hpp", "            param(parm);\n", "            _alpha = parm.alpha();\n            _beta = parm.beta();\n")],
  needs="restoring a gamma_distribution with alpha < 1 into one with another alpha", breaks="the derived constant of the old alpha is kept",
  demo=r'''#include <boost/random/gamma_distribution.hpp>
#include <boost/random/linear_congruential.hpp>
'''+CHK+r'''
int main(){ boost::random::gamma_distribution<> a(0.3,2), b(5,1); std::stringstream s; s<<a; s>>b; CHECK(a==b); boost::random::minstd_rand g(7u), h(7u); for(int i=0;i<1000;++i) CHECK(a(g)==b(h)); return 0; }'''),
dict(id="P09-binomial-overshoot", property="P09",
  edits=[(H+"binomial_distribution.hpp", "if(k < 0 || k > _t) continue;", "if(k < 0) continue;")],
  needs="an engine at its boundary values proposing a candidate beyond t in the rejection algorithm", breaks="binomial_distribution delivers a value above t",
  demo=r'''#include <boost/random/binomial_distribution.hpp>
'''+CHK+r'''
struct E { typedef std::uint32_t result_type; static constexpr std::uint32_t min(){return 0;} static constexpr std::uint32_t max(){return 0xffffffffu;} std::uint64_t s; std::uint32_t operator()(){ s=s*6364136223846793005ull+1442695040888963407ull; return (s>>60)<6 ? 0xffffffffu : (s>>60)<8 ? 0u : (std::uint32_t)(s>>32); } };
int main(){ E e={1}; for(int t=20;t<60;++t){ boost::random::binomial_distribution<int,double> d(t,0.5); for(int i=0;i<100000;++i){ int k=d(e); CHECK(k>=0 && k<=t); } } return 0; }'''),
dict(id="P03-polynomial-copy-bits", property="P03",
  edits=[(H+"detail/polynomial.hpp", "if(low != 0 && (n+1)*bits < high) {", "if(low != 0 && (n+1)*bits + 1 < high) {")],
  needs="a jump-ahead whose modular reduction straddles a word by one bit", breaks="a bit of the jump polynomial is lost",
  demo=r'''#define BOOST_RANDOM_MERSENNE_TWISTER_DISCARD_THRESHOLD 1000
#include <boost/random/mersenne_twister.hpp>
'''+CHK+r'''
int main(){ typedef boost::random::mersenne_twister_engine<std::uint32_t,32,17,8,23,0xe4bd75f5,11,0xffffffff,7,0x655e5280,15,0xffd58000,17,1812433253> M; for(int z=1001;z<200000;z=z*5/4+3){ M a, b; a.discard(z); for(int i=0;i<z;++i) b(); CHECK(a==b); } boost::random::mt19937 a, b; a.discard(30000000); for(int i=0;i<30000000;++i) b(); CHECK(a==b); return 0; }'''),
dict(id="P11-faure-cache-size-first", property="P11",
  edits=[(H+"faure.hpp", "        compute_coefficients(hisum);\n        ytemp.resize(static_cast<std::size_t>(hisum));", "        compute_coefficients(hisum);\n        std::vector<RealType>(static_cast<std::size_t>(hisum)).swap(ytemp);")],
  needs="an allocation failure while the generator crosses a power of its base", breaks="the size check that guards the cache already matches, so the next call uses a work vector that is too short",
  demo=r'''#include <cstdlib>
#include <new>
static long fail_at=0; void* operator new(std::size_t n){ if(fail_at && --fail_at==0) throw std::bad_alloc(); if(void* p=std::malloc(n?n:1)) return p; throw std::bad_alloc(); } void operator delete(void* p) noexcept { std::free(p); } void operator delete(void* p,std::size_t) noexcept { std::free(p); }
#include <boost/random/faure.hpp>
'''+CHK+r'''
int main(){ for(long k=1;k<6;++k){ boost::random::faure a(3), b(3); a.seed(2); bool failed=false; fail_at=k; try{ a.seed(700000); }catch(std::bad_alloc&){ failed=true; } fail_at=0; a.seed(700000); b.seed(700000); for(int i=0;i<30;++i) CHECK(a()==b()); } return 0; }'''),
dict(id="P07-eintr-as-data", property="P07",
  edits=[("src/random_device.cpp", "if(sz == -1)", "if(sz == -1 && errno == EINTR)\n        continue;\n      else if(sz == -1 && errno == EAGAIN)\n        break;\n      else if(sz == -1)")],
  needs="a non-blocking device that has no bytes yet", breaks="an uninitialised word is delivered",
  demo_flags="-I src", demo_link="src/random_device.cpp -lboost_system 2>/dev/null -Wl,--wrap=read", demo=r'''#include <boost/random/random_device.hpp>
#include <unistd.h>
#include <errno.h>
'''+CHK+r'''
static int n=0; extern "C" ssize_t __wrap_read(int, void* b, size_t c){ if(n++==1){ errno=EAGAIN; return -1; } unsigned char* p=(unsigned char*)b; for(size_t i=0;i<c;++i) p[i]=0x42; return c; }
int main(){ boost::random::random_device d; CHECK(d()==0x42424242u); bool threw=false; try{ d(); }catch(std::exception&){ threw=true; } CHECK(threw); return 0; }'''),
dict(id="P06-lagfib-partial-index", property="P06",
  edits=[(H+"lagged_fibonacci.hpp", "        detail::fill_array_int<w>(first, last, x);\n        i = long_lag;", "        i = long_lag;\n        detail::fill_array_int<w>(first, last, x);", 0)],
  needs="nothing: reordering (equivalent unless seeding fails)", breaks="none", demo="int main(){return 0;}"),
dict(id="P02-swc01-seed-carry", property="P02",
  edits=[(H+"subtract_with_carry.hpp", "carry = (x[long_lag-1] ? result_type(0) : result_type(1 / _modulus));", "carry = result_type(0);", 1)],
  needs="a seed range whose last word is zero", breaks="the initial carry of the floating-point engine is wrong",
  demo=r'''#include <boost/random/subtract_with_carry.hpp>
'''+CHK+r'''
int main(){ typedef boost::random::subtract_with_carry_01_engine<float,24,10,24> E; typedef boost::random::subtract_with_carry_engine<std::uint32_t,24,10,24> I; std::vector<std::uint32_t> v(24); for(int i=0;i<23;++i) v[i]=i*77777u+3; v[23]=0; auto f=v.begin(); E e(f,v.end()); f=v.begin(); I g(f,v.end()); for(int i=0;i<100;++i) CHECK(e()*16777216.0f==(float)g()); return 0; }'''),
dict(id="P08-sphere-shrunk-container", property="P08",
  edits=[(H+"uniform_on_sphere.hpp", "        _container.resize(parm.dim());\n        _dim = parm.dim();", "        if(static_cast<std::size_t>(parm.dim()) > _container.size())\n            _container.resize(parm.dim());\n        _dim = parm.dim();")],
  needs="reducing the dimension of a uniform_on_sphere after drawing", breaks="points of the old dimension are delivered",
  demo=r'''#include <boost/random/uniform_on_sphere.hpp>
#include <boost/random/linear_congruential.hpp>
'''+CHK+r'''
int main(){ boost::random::uniform_on_sphere<> a(5), b(2); boost::random::minstd_rand g(7u), h(7u); a(g); a.param(b.param()); g=h; CHECK(a==b); for(int i=0;i<100;++i) CHECK(a(g)==b(h)); return 0; }'''),
]
