#ifndef SIM_ENGBOX_IMPL_HPP
#define SIM_ENGBOX_IMPL_HPP
#include "engbox.hpp"
#include <boost/random/seed_seq.hpp>
namespace sim {
template<class E, class S, int W, bool R> IEng* EngBox<E, S, W, R>::make_std_seq(const std::vector<u32>& v) const { boost::random::seed_seq q(v.begin(), v.end()); return new EngBox(BySeq(), q); }
template<class E, class S, int W, bool R> void EngBox<E, S, W, R>::seed_std_seq(const std::vector<u32>& v) { boost::random::seed_seq q(v.begin(), v.end()); e.seed(q); }
}
#endif
