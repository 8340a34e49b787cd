H = "include/boost/random/"
CHK = r'''
#include <sstream>
#include <cstdio>
#include <vector>
#include <limits>
#define CHECK(c) do { if(!(c)) { std::printf("property broken: %s\n", #c); return 1; } } while(0)
'''
bugs = [
dict(id="P02-swc-zero-last-carry", property="P02",
  edits=[(H+"subtract_with_carry.hpp", "carry = (x[long_lag-1] == 0);", "carry = (x[0] == 0);", 1)],
  needs="seeding from an iterator range whose first or last seed word is zero",
  breaks="the initial carry of subtract_with_carry (hence ranlux24/48/3/4) is taken from the wrong word for range seeding, so the sequence differs from the published recurrence",
  demo=r'''#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/ranlux.hpp>
'''+CHK+r'''
int main(){ std::vector<unsigned> w(24, 77u); w[23]=0; 
  for(int t=0;t<2;++t){ if(t){ w[23]=5; w[0]=0; }
  std::vector<unsigned>::iterator f=w.begin(); boost::random::ranlux24_base e(f, w.end());
  // x_n = x_{n-10} - x_{n-24} - c  (mod 2^24)
  std::vector<long> x(w.begin(), w.end()); long c = (x[23]==0);
  for(int i=24;i<200;++i){ long y = x[i-10]-x[i-24]-c; c = y<0; if(y<0) y+=1l<<24; x.push_back(y); CHECK((long)e()==y); } }
  return 0; }'''),
dict(id="P03-swc-discard-tail", property="P03",
  edits=[(H+"subtract_with_carry.hpp", "std::size_t limit = short_lag < k? short_lag : k;", "std::size_t limit = short_lag;")],
  needs="a discard that ends inside the first short_lag words of the block",
  breaks="discard(z) updates words beyond the new position, so discard is not z draws",
  demo=r'''#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/ranlux.hpp>
'''+CHK+r'''
int main(){ for(int z=1; z<60; ++z) for(int pre=0; pre<50; ++pre){ boost::random::ranlux48_base a, b; for(int i=0;i<pre;++i){a();b();}
  a.discard(z); for(int i=0;i<z;++i) b(); for(int i=0;i<40;++i) CHECK(a()==b()); } return 0; }'''),
dict(id="P04-mt-compare-short", property="P04",
  edits=[(H+"mersenne_twister.hpp", "for(std::size_t j = 0; j < offset; ++j)\n            if(back", "for(std::size_t j = 1; j < offset; ++j)\n            if(back")],
  needs="comparing two Mersenne twisters that stand at different block positions and differ only in the oldest word of the window",
  breaks="engines whose outputs are about to differ compare equal",
  demo=r'''#include <boost/random/mersenne_twister.hpp>
'''+CHK+r'''
int main(){ typedef boost::random::mt19937 E; 
  // a at block position 624 holding words w0..w623 ; b the same sequence rewound into another block but with w0 changed
  for(int pos=1; pos<624; pos+=37){
    E a(42u); a.discard(624+pos); std::ostringstream os; os<<a; std::vector<unsigned> w; { std::istringstream is(os.str()); unsigned x; while(is>>x) w.push_back(x); }
    w[0] ^= 0x80000000u; // the only bit of the oldest word the recurrence uses
    std::ostringstream o2; for(size_t i=0;i<w.size();++i) o2<<(i?" ":"")<<w[i]; E b; std::istringstream is(o2.str()); is>>b;
    E c(a), d(b); bool differ=false; for(int i=0;i<1300 && !differ;++i) differ = c()!=d(); 
    for(int back=0; back<2; ++back){ E a2(a), b2(b); if(back){ for(int i=0;i<1;++i){a2();b2();} }
      E c2(a2), d2(b2); bool df=false; for(int i=0;i<1300 && !df;++i) df = c2()!=d2();
      CHECK((a2==b2) == !df); CHECK((b2==a2) == !df); } } 
  return 0; }'''),
dict(id="P08-poisson-param-keeps-tables", property="P08",
  edits=[(H+"poisson_distribution.hpp", "        _mean = parm.mean();\n        init();", "        const bool same_method = (_mean < 10) == (parm.mean() < 10);\n        const bool changed = _mean != parm.mean();\n        _mean = parm.mean();\n        if(changed && (!same_method || use_inversion() || _u._ptrd.smu * _u._ptrd.smu < _mean)) init();")],
  needs="re-parameterising a rejection-method poisson_distribution (mean >= 10) to a smaller mean that still uses the rejection method",
  breaks="after param() the distribution still works with the hat function of the old mean: its results depend on its history",
  demo=r'''#include <boost/random/poisson_distribution.hpp>
#include <boost/random/mersenne_twister.hpp>
'''+CHK+r'''
int main(){ typedef boost::random::poisson_distribution<> D; double ms[]={0.5,3,9.9,10,12,20,50,500,1e5};
  for(double m1:ms) for(double m2:ms){ D a(m1), b(m2); boost::random::mt19937 g(7u), h(7u); for(int i=0;i<5;++i){ a(g); } a.param(D::param_type(m2)); h=g; for(int i=0;i<200;++i) CHECK(a(g)==b(h)); CHECK(g==h); } return 0; }'''),
dict(id="P13-failed-seed-wipes-vector", property="P13",
  edits=[(H+"detail/gray_coded_qrng.hpp", "      check_bit_range_t::code_size(seq_code);\n\n      set_zero_state();\n", "      set_zero_state();\n      check_bit_range_t::code_size(seq_code);\n")],
  needs="seed() beyond the range of a generator whose word is narrower than its type, while a vector is only partly delivered",
  breaks="seed() throws range_error but has already wiped the current vector: the generator does not continue unaffected",
  demo=r"""#include <boost/random/niederreiter_base2.hpp>
#include <stdexcept>
"""+CHK+r"""
int main(){ typedef boost::random::niederreiter_base2_engine<boost::uint32_t, 16> Q; Q a(4), b(4); for(int i=0;i<21;++i) CHECK(a()==b());
  bool threw=false; try { b.seed(100000u); } catch(const std::range_error&) { threw=true; } CHECK(threw);
  for(int i=0;i<40;++i) CHECK(a()==b()); return 0; }"""),
]
