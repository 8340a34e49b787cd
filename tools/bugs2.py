H = "include/boost/random/"
CHK = r'''
#include <sstream>
#include <cstdio>
#include <vector>
#include <limits>
#include <cmath>
#include <string>
#define CHECK(c) do { if(!(c)) { std::printf("property broken: %s\n", #c); return 1; } } while(0)
'''
bugs = [
dict(id="P07-short-read-restarts", property="P07",
  edits=[("src/random_device.cpp", "offset += sz;", "offset = (sz == static_cast<long>(sizeof(result) - offset)) ? sizeof(result) : static_cast<std::size_t>(sz);", 0)],
  needs="a device that delivers one word in three or more pieces",
  breaks="after two short reads in a row the read position is wrong, so a word is not made of the next bytes of the device",
  demo=r'''#include <boost/random/random_device.hpp>
#include <string.h>
#include <unistd.h>
'''+CHK+r'''
static unsigned char next_byte; static int plan[64], np, ip;
extern "C" ssize_t read(int, void* b, size_t n) { size_t k = ip < np ? plan[ip++] : n; if(k > n) k = n; for(size_t i=0;i<k;++i) ((unsigned char*)b)[i] = next_byte++; return k; }
int main(){ boost::random::random_device d; unsigned char want = 0; int pats[5][4]={{4},{1,3},{2,2},{1,1,2},{1,1,1,1}};
  for(int p=0;p<5;++p) for(int rep=0;rep<20;++rep){ np=0; ip=0; for(int i=0;i<4;++i) if(pats[p][i]) plan[np++]=pats[p][i]; unsigned w = d(); unsigned char b[4]; memcpy(b,&w,4); for(int i=0;i<4;++i) CHECK(b[i]==want++); }
  return 0; }''', demo_flags="-I .", demo_link="src/random_device.cpp"),
dict(id="P07-eof-midword-delivered", property="P07",
  edits=[("src/random_device.cpp", "else if(sz == 0) {", "else if(sz == 0 && offset != 0) {\n        break;\n      } else if(sz == 0) {")],
  needs="a device that ends in the middle of a word",
  breaks="end of file inside a word delivers a partly uninitialised value instead of an exception",
  demo=r'''#include <boost/random/random_device.hpp>
#include <unistd.h>
#include <stdlib.h>
'''+CHK+r'''
int main(){ char dir[]="/tmp/rdXXXXXX"; CHECK(mkdtemp(dir)); std::string f=std::string(dir)+"/dev"; FILE* o=fopen(f.c_str(),"wb"); fwrite("abcdefghij",1,10,o); fclose(o); bool threw=false;
  { boost::random::random_device d(f); d(); d(); try { d(); } catch(std::exception&) { threw=true; } } unlink(f.c_str()); rmdir(dir); CHECK(threw); return 0; }''', demo_link="src/random_device.cpp"),
dict(id="P12-mixmax-static-scratch", property="P12",
  edits=[(H+"mixmax.hpp", "boost::uint64_t Y[Ndim], cum[Ndim];", "static boost::uint64_t Y[Ndim], cum[Ndim];")],
  needs="two threads seeding separate mixmax engines at the same time",
  breaks="separate engines share scratch space during seeding, so one thread's engine gets a mixture of both seeds",
  demo=r'''#include <boost/random/mixmax.hpp>
#include <thread>
#include <atomic>
'''+CHK+r'''
int main(){ typedef boost::random::mixmax E; const int N=3000; std::vector<uint64_t> want[2]; for(int t=0;t<2;++t) for(int i=0;i<N;++i){ E e(uint64_t(0xfffffff1u*(i+1ull)*(t+1))|0xff00ff00ff00ull); want[t].push_back(e()); }
  std::atomic<int> bad(0), go(0); std::thread th[2]; for(int t=0;t<2;++t) th[t]=std::thread([&,t]{ ++go; while(go<2); for(int i=0;i<N;++i){ E e(uint64_t(0xfffffff1u*(i+1ull)*(t+1))|0xff00ff00ff00ull); if(e()!=want[t][i]) ++bad; } });
  th[0].join(); th[1].join(); CHECK(bad==0); return 0; }''', demo_link="-pthread"),
dict(id="P06-real-fill-past-end", property="P06",
  edits=[(H+"detail/seed_impl.hpp", '            if(first == last) boost::throw_exception(std::invalid_argument("Not enough elements in call to seed."));\n            val += (*first & mask) * mult;', '            if(first == last && j == 0) boost::throw_exception(std::invalid_argument("Not enough elements in call to seed."));\n            val += (*first & mask) * mult;')],
  needs="seeding a 48-bit floating-point lagged Fibonacci engine from a range that ends between the two words of one element",
  breaks="the range end is overrun instead of std::invalid_argument",
  demo=r'''#include <boost/random/lagged_fibonacci.hpp>
#include <stdexcept>
'''+CHK+r'''
int main(){ std::vector<unsigned> v(607*2+8, 12345u); for(int k=1; k<607*2-4; k+=101) for(int d=0; d<2; ++d) { boost::random::lagged_fibonacci607 e; std::vector<unsigned>::iterator f=v.begin(), l=v.begin()+k+d; bool t=false; try { e.seed(f,l); } catch(std::invalid_argument&) { t=true; } CHECK(t); CHECK(f==l); } return 0; }'''),
dict(id="P09-weibull-log-zero", property="P09",
  edits=[(H+"weibull_distribution.hpp", "pow(-log(1 - uniform_01<RealType>()(urng))", "pow(-log(uniform_01<RealType>()(urng))")],
  needs="an entropy value that makes the uniform variate exactly zero",
  breaks="weibull_distribution delivers infinity",
  demo=r'''#include <boost/random/weibull_distribution.hpp>
#include <cstdint>
'''+CHK+r'''
struct E { typedef uint32_t result_type; static uint32_t min(){return 0;} static uint32_t max(){return 0xffffffffu;} uint32_t v; uint32_t operator()(){ return v; } };
int main(){ boost::random::weibull_distribution<> d(2,3); uint32_t vs[]={0,1,0x80000000u,0xfffffffeu,0xffffffffu}; for(uint32_t v:vs){ E e; e.v=v; double x=d(e); CHECK(x>=0 && x<d.max() && std::isfinite(x)); } return 0; }'''),
dict(id="P10-laplace-precision-cap", property="P10",
  edits=[(H+"laplace_distribution.hpp", "{ os << parm._mean << ' ' << parm._beta; return os; }", "{ os << parm._mean << ' '; const std::streamsize p = os.precision(os.precision() > 17 ? 17 : os.precision()); os << parm._beta; os.precision(p); return os; }")],
  needs="a long double laplace_distribution whose scale needs more than 17 digits, written with sufficient precision",
  breaks="the restored scale differs from the one written",
  demo=r'''#include <boost/random/laplace_distribution.hpp>
'''+CHK+r'''
int main(){ typedef boost::random::laplace_distribution<long double> D; D a(1.0L/3, 2.0L/7), b(5,6); std::ostringstream o; o.precision(25); o<<a; std::istringstream i(o.str()); i>>b; CHECK(i); CHECK(a==b); CHECK(b.beta()==2.0L/7); return 0; }'''),
dict(id="P11-gray-resize-early", property="P11",
  edits=[(H+"piecewise_linear_distribution.hpp", "std::vector<RealType> new_intervals(parm._intervals);", "_intervals = parm._intervals;\n        std::vector<RealType> new_intervals(parm._intervals);")],
  needs="an allocation failure in param() after the interval boundaries were replaced by fewer ones",
  breaks="boundaries and bins disagree after std::bad_alloc, so the next draw reads outside the vector",
  demo=r'''#include <boost/random/piecewise_linear_distribution.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <cstdlib>
#include <new>
'''+CHK+r'''
static long left=-1; void* operator new(size_t n){ if(left>=0 && left--==0) throw std::bad_alloc(); void* p=malloc(n); if(!p) throw std::bad_alloc(); return p; } void operator delete(void* p) noexcept { free(p); } void operator delete(void* p, size_t) noexcept { free(p); }
int main(){ typedef boost::random::piecewise_linear_distribution<> D; std::vector<double> I1,W1,I2,W2; for(int i=0;i<40;++i){ I1.push_back(i); W1.push_back(1+i%3);} for(int i=0;i<3;++i){ I2.push_back(100+i); W2.push_back(1+i);} 
  for(int k=0;k<30;++k){ D a(I1,W1); D::param_type p(I2,W2); bool ok=true; left=k; try { a.param(p); } catch(std::bad_alloc&) { ok=false; } left=-1; std::vector<double> I=a.intervals(); CHECK(ok ? I==I2 : (I==I1 || I==I2)); CHECK(a.param().intervals().size()==a.param().densities().size()); boost::random::mt19937 g(k); for(int q=0;q<200;++q){ double x=a(g); CHECK(x>=a.min() && x<=a.max()); } } return 0; }'''),
dict(id="P14-independent-bits-y1", property="P14",
  edits=[(H+"independent_bits.hpp", "while(u > base_unsigned(y1 - 1));", "while(u > base_unsigned(y0 - 1));")],
  needs="a base engine whose range is not a power of two and a width that splits into unequal parts",
  breaks="values that must be rejected for the wider parts are accepted: the output is not the documented function of the base stream",
  demo=r'''#include <boost/random/independent_bits.hpp>
'''+CHK+r'''
struct B { typedef unsigned result_type; static constexpr bool has_fixed_range=false; static constexpr unsigned min(){return 0;} static constexpr unsigned max(){return 10;} unsigned s=0, n=0; unsigned operator()(){ ++n; s=(s*7+3)%11; return s; } };
// standard: range 11, w=7: m=3, n=3 (2+2+3 bits): y0=8 (w0=2), y1=8 ; w=11 with range 13 ...
template<unsigned R> struct C { typedef unsigned result_type; static constexpr bool has_fixed_range=false; static constexpr unsigned min(){return 0;} static constexpr unsigned max(){return R-1;} unsigned long s=1, n=0; unsigned operator()(){ ++n; s=s*6364136223846793005ul+1442695040888963407ul; return (s>>33)%R; } };
template<unsigned R,int w> bool ok(){ C<R> ref; boost::random::independent_bits_engine<C<R>,w,unsigned> e((C<R>())); unsigned m=0; while((2u<<m)<=R) ++m; 
  for(int t=0;t<2000;++t){ unsigned n=(w+m-1)/m; unsigned w0=w/n, n0=n-w%n, y0=(R>>w0)<<w0, y1=(R>>(w0+1))<<(w0+1); if(R-y0 > y0/n){ ++n; w0=w/n; n0=n-w%n; y0=(R>>w0)<<w0; y1=(R>>(w0+1))<<(w0+1);} unsigned S=0,u; for(unsigned k=0;k<n0;++k){ do u=ref(); while(u>=y0); S=(S<<w0)+(u&((1u<<w0)-1)); } for(unsigned k=n0;k<n;++k){ do u=ref(); while(u>=y1); S=(S<<(w0+1))+(u&((2u<<w0)-1)); } if(e()!=S) return false; } return e.base().n==ref.n; }
int main(){ CHECK((ok<256,16>())); CHECK((ok<11,7>())); CHECK((ok<12,5>())); CHECK((ok<1000,16>())); CHECK((ok<714025,31>())); CHECK((ok<20,7>())); CHECK((ok<6,5>())); CHECK((ok<10,16>())); return 0; }'''),
dict(id="P15-normal-tail-gap", property="P15",
  edits=[(H+"normal_distribution.hpp", "if(2*y > x*x) return x + tail_start;", "if(y > x*x) return x + tail_start;")],
  needs="normal draws beyond 3.44 standard deviations (one in 1700)",
  breaks="the tail of the normal distribution falls off too fast",
  demo=r'''#include <boost/random/normal_distribution.hpp>
#include <boost/random/mersenne_twister.hpp>
'''+CHK+r'''
int main(){ boost::random::normal_distribution<> d; boost::random::mt19937_64 g(5u); long N=60000000, t=0, b=0; for(long i=0;i<N;++i){ double x=std::fabs(d(g)); if(x>3.4426198558966521214){ ++t; if(x>3.8) ++b; } }
  double pt=std::erfc(3.4426198558966521214/std::sqrt(2.0)), pb=std::erfc(3.8/std::sqrt(2.0))/pt; CHECK(std::fabs(t-N*pt)<8*std::sqrt(N*pt)); CHECK(std::fabs(b-t*pb)<8*std::sqrt(t*pb*(1-pb))); return 0; }'''),
dict(id="P15-discrete-alias-tie", property="P15",
  edits=[(H+"discrete_distribution.hpp", "if(test < _impl._alias_table[static_cast<std::size_t>(result)].first) {", "if(test <= _impl._alias_table[static_cast<std::size_t>(result)].first) {")],
  needs="a discrete_distribution with integer weights",
  breaks="every bin takes one unit of weight from the bin it shares its column with, so small integer weights give wrong probabilities",
  demo=r'''#include <boost/random/discrete_distribution.hpp>
#include <boost/random/mersenne_twister.hpp>
'''+CHK+r'''
int main(){ typedef boost::random::discrete_distribution<int,int> D; int w[]={1,2,3,6}; D d(w,w+4); boost::random::mt19937 g(5u); long N=2000000; double c[4]={0}; for(long i=0;i<N;++i) ++c[d(g)]; for(int k=0;k<4;++k){ double e=N*w[k]/12.0; CHECK(std::fabs(c[k]-e) < 10*std::sqrt(e)); } return 0; }'''),
dict(id="P01-swc-restore-into-used", property="P01",
  edits=[(H+"subtract_with_carry.hpp", "        f.carry = value / f._modulus;\n        f.k = 0;", "        f.carry = value / f._modulus;")],
  needs="restoring a ranlux_01-type checkpoint into an engine object that has already been used",
  breaks="the restored words are read from the wrong position of the lag table",
  demo=r'''#include <boost/random/ranlux.hpp>
'''+CHK+r'''
int main(){ for(int p=0;p<60;++p) for(int q=0;q<60;++q){ boost::random::ranlux64_base_01 a(9u), b(3u); a.discard(p); for(int i=0;i<q;++i) b(); std::stringstream s; s.precision(20); s<<a; s>>b; CHECK(a==b); for(int i=0;i<60;++i) CHECK(a()==b()); } return 0; }'''),
dict(id="P05-discrete-truncated-accepted", property="P05",
  edits=[(H+"discrete_distribution.hpp", "            detail::read_vector(is, temp);\n            if(is) {", "            detail::read_vector(is, temp);\n            if(is.eof() && temp.size() > 1) is.clear(std::ios_base::eofbit);\n            if(is) {")],
  needs="a discrete_distribution checkpoint truncated after two or more weights (crash while writing)",
  breaks="a truncated weight list is accepted silently",
  demo=r'''#include <boost/random/discrete_distribution.hpp>
'''+CHK+r'''
int main(){ typedef boost::random::discrete_distribution<> D; double w[]={1,2,3,4,5}; D a(w,w+5); std::ostringstream o; o.precision(17); o<<a; std::string s=o.str(); for(size_t k=0;k<s.size();++k){ D b; std::istringstream i(s.substr(0,k)); i>>b; CHECK(!i); } return 0; }'''),
dict(id="P03-mt-discard-many-rem", property="P03",
  edits=[(H+"linear_feedback_shift.hpp", "boost::uintmax_t z", "boost::uintmax_t z", 0)],
  needs="", breaks="", demo="int main(){return 0;}"),
]
bugs.pop()
