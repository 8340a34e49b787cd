#include "shared.hpp"
#include "io.hpp"
#include <boost/random/seed_seq.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/variate_generator.hpp>
#include <boost/random/random_number_generator.hpp>
#include <boost/random/generate_canonical.hpp>
#include <boost/random/uniform_01.hpp>
#include <boost/random/normal_distribution.hpp>
#include <boost/random/discrete_distribution.hpp>
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/piecewise_linear_distribution.hpp>
#include <boost/random/exponential_distribution.hpp>
#include <boost/random/uniform_on_sphere.hpp>
#include <boost/random/binomial_distribution.hpp>
#include <boost/random/sobol.hpp>
#include <boost/random/faure.hpp>
#include <boost/random/niederreiter_base2.hpp>
#include <sstream>
namespace sim { namespace {
namespace br = boost::random;
u64 mixd(u64 h, double d) { return mix64(h ^ dbits(d)); }
struct Bundle : IShared {
    br::seed_seq ss; br::mt19937 mt; br::ranlux3 rl; boost::variate_generator<br::minstd_rand, br::normal_distribution<> > vg; br::uniform_int_distribution<> ui; br::discrete_distribution<> dd; br::uniform_01<br::minstd_rand, double> u01; br::exponential_distribution<> ex; br::binomial_distribution<> bi; br::sobol so; br::faure fa; br::niederreiter_base2 nb; br::lagged_fibonacci607 lf;
    static std::vector<u32> words(u64 s) { std::vector<u32> v(1 + s % 7); for (std::size_t i = 0; i < v.size(); ++i) v[i] = (u32)mix64(s + i); return v; }
    static std::vector<double> weights(u64 s) { std::vector<double> w(2 + s % 5); for (std::size_t i = 0; i < w.size(); ++i) w[i] = 0.25 + (double)(mix64(s * 31 + i) % 9); return w; }
    explicit Bundle(u64 s) : ss(words(s)), mt((u32)s), rl((u32)s), vg(br::minstd_rand((u32)s), br::normal_distribution<>(1, 2)), ui(-(int)(s % 100), (int)(s % 1000)), dd(weights(s)), u01(br::minstd_rand((u32)(s >> 7))), ex(1 + (double)(s % 5)), bi((int)(s % 60), 0.3), so(1 + s % 12), fa(1 + s % 9), nb(1 + s % 10), lf((u32)s) {}
    u64 op(int k, u64 seed) const {
        u64 h = (u64)k; br::minstd_rand g((u32)seed);
        switch (k) {
        case 0: { std::vector<u32> b(1 + seed % 60); ss.generate(b.begin(), b.end()); for (u32 x : b) h = mix64(h ^ x); break; }
        case 1: { boost::variate_generator<br::minstd_rand, br::normal_distribution<> > v(vg); for (int i = 0; i < 5; ++i) h = mixd(h, v()); break; }
        case 2: for (int i = 0; i < 6; ++i) h = mix64(h ^ (u32)ui(g)); break;
        case 3: { for (int i = 0; i < 6; ++i) h = mix64(h ^ (u64)dd(g)); for (double p : dd.probabilities()) h = mixd(h, p); break; }
        case 4: { br::random_number_generator<br::minstd_rand, int> rn(g); for (int i = 0; i < 6; ++i) h = mix64(h ^ (u32)rn(1 + i * 5)); for (int i = 0; i < 3; ++i) h = mixd(h, br::generate_canonical<double, 53>(g)); break; }
        case 5: { br::mt19937 m(mt); m.discard(seed % 700); for (int i = 0; i < 4; ++i) h = mix64(h ^ m()); h ^= m == mt; std::stringstream o; if (seed % 3 == 0) { o << mt; br::mt19937 q; o >> q; h ^= (q == mt) * 2; } break; }
        case 6: { br::ranlux3 q(rl); for (int i = 0; i < 40; ++i) h = mix64(h ^ q()); std::ostringstream o; o << rl; for (char c : o.str()) h = mix64(h ^ (unsigned char)c); break; }
        case 7: { br::exponential_distribution<> e(ex); for (int i = 0; i < 6; ++i) h = mixd(h, e(g)); for (int i = 0; i < 4; ++i) h = mixd(h, ex(g)); for (int i = 0; i < 4; ++i) h = mix64(h ^ (u64)bi(g)); break; }
        case 8: { br::sobol q(so); q.seed(seed % 500); for (int i = 0; i < 20; ++i) h = mix64(h ^ q()); br::sobol f(1 + seed % 9); for (int i = 0; i < 8; ++i) h = mix64(h ^ f()); h ^= so == q; break; }
        case 9: { br::faure q(fa); q.seed(seed % 300); for (int i = 0; i < 12; ++i) h = mixd(h, q()); br::faure f(1 + seed % 11); for (int i = 0; i < 8; ++i) h = mixd(h, f()); h ^= fa == q; break; }
        case 10: { br::niederreiter_base2 q(nb); q.seed(seed % 300); for (int i = 0; i < 12; ++i) h = mix64(h ^ q()); br::niederreiter_base2 f(1 + seed % 11); for (int i = 0; i < 8; ++i) h = mix64(h ^ f()); h ^= nb == q; break; }
        default: { br::lagged_fibonacci607 q; br::seed_seq s(ss); q.seed(s); for (int i = 0; i < 5; ++i) h = mixd(h, q()); h ^= lf == q; br::independent_bits_engine<br::mt19937, 48, unsigned long long> ib(mt); for (int i = 0; i < 3; ++i) h = mix64(h ^ ib()); br::uniform_01<br::minstd_rand, double> u(u01); for (int i = 0; i < 3; ++i) h = mixd(h, u()); } }
        return h;
    }
    u64 digest() const { std::ostringstream o; o.precision(17); o << mt << ' ' << rl << ' ' << ui << ' ' << dd << ' ' << ex << ' ' << bi << ' ' << so << ' ' << fa << ' ' << nb << ' ' << lf; u64 h = 1; for (char c : o.str()) h = mix64(h ^ (unsigned char)c); std::vector<u32> b(9); ss.generate(b.begin(), b.end()); for (u32 x : b) h = mix64(h ^ x); return h; }
};
}
IShared* make_shared_bundle(u64 seed) { return new Bundle(seed); }
}
