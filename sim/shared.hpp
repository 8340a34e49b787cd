// Pieces of the library reached through const shared objects (instrumented for preemption).
#ifndef SIM_SHARED_HPP
#define SIM_SHARED_HPP
#include "core.hpp"
#include <vector>
namespace sim {
struct IShared {       // a bundle of const prototypes any client may use
    virtual ~IShared() {}
    virtual u64 op(int k, u64 seed) const = 0;       // a pure function of (prototype, k, seed)
    virtual u64 digest() const = 0;
};
enum { SHARED_OPS = 12 };
IShared* make_shared_bundle(u64 seed);
}
#endif
