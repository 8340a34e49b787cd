// P07: random_device delivers whole fresh words or reports failure.
#include "fiber.hpp"
#include "alloc.hpp"
#include "ref.hpp"
#include "engbox.hpp"
#include <boost/random/random_device.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/variate_generator.hpp>
#include <boost/random/uniform_01.hpp>
#include <boost/system/system_error.hpp>
#include <fcntl.h>
#include <cerrno>
#include <cstdarg>
#include <memory>
#include <new>
using namespace sim;
namespace {
// ---- the simulated kernel ---------------------------------------------------------
enum Call { C_NONE, C_FAIL, C_EOF, C_EINTR };
struct Client;
struct Ofd { std::string path; u64 serial, off; bool open; Client* owner; };
struct Client { int id; int op_errno; Call op_fault; bool injected_eintr; std::vector<u64> opened; bool in_lib; Client() : id(0), op_errno(0), op_fault(C_NONE), injected_eintr(false), in_lib(false) {} };
struct Kernel {
    Run& r; std::vector<Ofd> ofds; std::vector<int> table; int base; double p_open, p_read, p_short, p_close; bool yields; std::vector<std::string> paths; Client* cur[16]; std::string bad, badcls; u64 key; bool missing_default;
    explicit Kernel(Run& rr) : r(rr), base(3), yields(false), key(0), missing_default(false) { for (auto& c : cur) c = 0; }
    Client* client() { int s = Sched::self(); return cur[s < 0 ? 0 : s]; }
    void violation(const char* cls, const std::string& m) { if (bad.empty()) { bad = m; badcls = cls; } }
    static unsigned char byte(const Ofd& o, u64 off, u64 key) { return (unsigned char)(mix64(key ^ (o.serial * 0x9E37ull) ^ (off << 20)) >> 13); }
    int fdof(u64 serial) { for (std::size_t i = 0; i < table.size(); ++i) if (table[i] >= 0 && ofds[table[i]].serial == serial) return (int)i + base; return -1; }
    void pause() { if (yields && Sched::active()) { ++r.sim_steps; u64 n = r.pick(3); while (n--) Sched::yield(); } }
    int do_open(const char* path, int flags) {
        pause(); Client* c = client(); r.ev(std::string(path)); if ((flags & O_ACCMODE) != O_RDONLY) violation("opened-for-writing", cat("the device was opened with flags ", flags)); if (flags & (O_CREAT | O_TRUNC)) violation("opened-for-writing", "the device was opened with O_CREAT or O_TRUNC");
        bool known = false; for (auto& p : paths) if (p == path) known = true;
        if (!known || r.chance(p_open)) { static const int es[] = { ENOENT, EACCES, EMFILE, ENFILE, EINTR, ENXIO, EIO, ENODEV, ENOMEM }; int e = !known ? ENOENT : es[r.pick(9)]; SIM_FAULT("open-fails"); c->op_fault = e == EINTR ? C_EINTR : C_FAIL; c->op_errno = e; errno = e; return -1; }
        Ofd o; o.path = path; o.serial = ofds.size(); o.off = 0; o.open = true; o.owner = c; ofds.push_back(o); c->opened.push_back(o.serial); std::size_t i = 0; while (i < table.size() && table[i] >= 0) ++i; if (i == table.size()) table.push_back(-1); table[i] = (int)o.serial; r.step(cat("client ", c->id, ": open(", path, ") = ", i + base)); pause(); errno = (int)r.pick(40); return (int)i + base;
    }
    long do_read(int fd, void* buf, std::size_t n) {
        pause(); Client* c = client(); ++r.sim_steps; int i = fd - base;
        if (i < 0 || i >= (int)table.size() || table[i] < 0) { violation("read-closed-descriptor", cat("read() on descriptor ", fd, ", which is not open")); errno = EBADF; c->op_fault = C_FAIL; c->op_errno = EBADF; return -1; }
        Ofd& o = ofds[table[i]]; if (o.owner != c) violation("foreign-descriptor", cat("client ", c->id, " read from a descriptor opened by client ", o.owner->id));
        if (n > 4096) violation("read-too-much", cat("read() of ", n, " bytes"));
        if (r.chance(p_read)) switch (r.pick(4)) {
            case 0: SIM_FAULT("read-eof"); c->op_fault = C_EOF; return 0;
            case 1: SIM_FAULT("read-eintr"); c->injected_eintr = true; if (c->op_fault == C_NONE) c->op_fault = C_EINTR; c->op_errno = EINTR; errno = EINTR; return -1;
            default: { static const int es[] = { EIO, EAGAIN, EBADF, EISDIR, EINVAL, EFAULT }; SIM_FAULT("read-error"); c->op_fault = C_FAIL; c->op_errno = es[r.pick(6)]; errno = c->op_errno; return -1; } }
        std::size_t k = n; if (n > 1 && r.chance(p_short)) { k = 1 + r.pick(n - 1); SIM_FAULT("short-read"); }
        unsigned char* p = static_cast<unsigned char*>(buf); u64 ser = o.serial;
        for (std::size_t j = 0; j < k; ++j) p[j] = byte(ofds[ser], ofds[ser].off + j, key);
        ofds[ser].off += k; r.ev(k, ser); pause(); errno = (int)r.pick(40); return (long)k;
    }
    int do_close(int fd) {
        pause(); Client* c = client(); int i = fd - base; r.step(cat("client ", c->id, ": close(", fd, ")"));
        if (i < 0 || i >= (int)table.size() || table[i] < 0) { violation("double-close", cat("close() of descriptor ", fd, ", which is not open")); errno = EBADF; return -1; }
        Ofd& o = ofds[table[i]]; if (o.owner != c) violation("foreign-descriptor", cat("client ", c->id, " closed a descriptor opened by client ", o.owner->id));
        o.open = false; table[i] = -1; pause();
        if (r.chance(p_close)) { static const int es[] = { EIO, EINTR, ENOSPC }; SIM_FAULT("close-error"); errno = es[r.pick(3)]; return -1; }
        return 0;
    }
};
Kernel* K = 0;
}
extern "C" {
int __real_open(const char*, int, ...); long __real_read(int, void*, std::size_t); int __real_close(int); int __real_open64(const char*, int, ...); int __real_openat(int, const char*, int, ...);
int __wrap_open(const char* p, int f, ...) { if (K && R) { AllocPause ap; return K->do_open(p, f); } int m = 0; if (f & O_CREAT) { va_list a; va_start(a, f); m = va_arg(a, int); va_end(a); } return __real_open(p, f, m); }
int __wrap_open64(const char* p, int f, ...) { if (K && R) { AllocPause ap; return K->do_open(p, f); } int m = 0; if (f & O_CREAT) { va_list a; va_start(a, f); m = va_arg(a, int); va_end(a); } return __real_open64(p, f, m); }
int __wrap_openat(int d, const char* p, int f, ...) { if (K && R) { AllocPause ap; return K->do_open(p, f); } return __real_openat(d, p, f, 0); }
long __wrap_read(int fd, void* b, std::size_t n) { if (K && R) { AllocPause ap; return K->do_read(fd, b, n); } return __real_read(fd, b, n); }
long __wrap___read_chk(int fd, void* b, std::size_t n, std::size_t) { return __wrap_read(fd, b, n); }
int __wrap_close(int fd) { if (K && R) { AllocPause ap; return K->do_close(fd); } return __real_close(fd); }
}
namespace {
typedef boost::random::random_device Dev;
struct Unwind {};
// an engine fed with given words, for comparing adaptors over the device
struct WordGen { typedef unsigned result_type; static constexpr bool has_fixed_range = false; static constexpr result_type min() { return 0; } static constexpr result_type max() { return ~0u; } const std::vector<u32>* w; std::size_t i; result_type operator()() { return i < w->size() ? (*w)[i++] : (++i, 0u); } };
struct FixedSrc : ref::Src { const std::vector<u32>& v; std::size_t pos; explicit FixedSrc(const std::vector<u32>& s) : v(s), pos(0) {} bool is_seq() const { return true; } void words(u32* o, std::size_t n) { for (std::size_t i = 0; i < n; ++i) o[i] = pos < v.size() ? v[pos] : 0, ++pos; } };
struct Service {
    Run& r; Kernel k; bool allocs;
    explicit Service(Run& rr) : r(rr), k(rr), allocs(false) {}
    struct Held { std::unique_ptr<Dev> d; u64 serial; };
    void check() { if (!k.bad.empty()) { Violation v = { k.badcls, k.bad }; throw v; } }
    u32 word(u64 serial, u64 off) { unsigned char b[4]; for (int j = 0; j < 4; ++j) b[j] = Kernel::byte(k.ofds[serial], off + j, k.key); u32 w; std::memcpy(&w, b, 4); return w; }
    // result of a library call: 0 fine, 1 reported failure, 2 bad_alloc
    template<class F> int call(Client& c, const char* what, F f, u64 at = 0) {
        c.op_fault = C_NONE; c.op_errno = 0; c.injected_eintr = false; int res = 0; std::string bad; int code = -1; bool sys = false;
        try { if (at) { AllocFault af(at, 1); f(); } else f(); }
        catch (std::bad_alloc&) { res = 2; } catch (boost::system::system_error& e) { res = 1; sys = true; code = e.code().value(); if (!*e.what()) bad = "an empty message"; } catch (std::exception&) { res = 1; } catch (Violation&) { throw; } catch (Unwind&) { throw; }
        check(); r.ev(res);
        if (res == 0 && (c.op_fault == C_FAIL || c.op_fault == C_EOF)) r.fail("failure-not-reported", cat(what, ": the device reported ", c.op_fault == C_EOF ? "end of file" : "an error", " but the call returned normally"));
        if (res == 1 && c.op_fault == C_NONE) r.fail("spurious-failure", cat(what, " failed although every system call succeeded"));
        if (res == 2 && !at) r.fail("spurious-failure", cat(what, " threw bad_alloc although no allocation failed"));
        if (res == 1 && sys && c.op_fault == C_FAIL && code != c.op_errno) r.fail("wrong-error", cat(what, ": system error ", c.op_errno, " was reported as ", code));
        if (res == 1 && !sys && c.op_fault == C_FAIL) r.fail("wrong-error", cat(what, ": the system error is not reported as a system_error"));
        if (!bad.empty()) r.fail("wrong-error", cat(what, ": ", bad));
        return res;
    }
    std::string token() { return r.among(k.paths); }
    // construct; on success exactly one descriptor, of the named device, is held
    bool make(Client& c, Held& h) {
        std::size_t n0 = c.opened.size(); bool def = r.pick(4) == 0; std::string t = r.chance(0.1) ? "/sim/absent" : token(); u64 at = allocs && r.chance(0.2) ? 1 + r.pick(6) : 0; u64 live = g_alloc.armed_live; r.step(cat("client ", c.id, ": opens ", def ? "the default device" : t.c_str(), at ? cat(", allocation ", at, " fails") : "")); r.sig(1 + def);
        int res = call(c, "constructing a random_device", [&] { if (at) { Dev* d = def ? new Dev : new Dev(t); AllocPause ap; h.d.reset(d); } else h.d.reset(def ? new Dev : new Dev(t)); }, at);
        std::size_t held = 0; for (std::size_t i = n0; i < c.opened.size(); ++i) if (k.ofds[c.opened[i]].open) ++held;
        if (res) { SIM_PROBE("construction failed"); if (held) r.fail("descriptor-leak", cat("constructing a random_device failed but left ", held, " descriptor open")); if (at && g_alloc.armed_live != live && !k.yields) r.fail("memory-leak", "constructing a random_device failed and leaked memory"); return false; }
        if (held != 1) r.fail("descriptor-count", cat("a random_device holds ", held, " descriptors")); for (std::size_t i = n0; i < c.opened.size(); ++i) if (k.ofds[c.opened[i]].open) h.serial = c.opened[i];
        const std::string& p = k.ofds[h.serial].path; if (def ? p != "/dev/urandom" && p != "/dev/random" : p != t) r.fail("wrong-device", cat("asked for ", def ? "the default device" : t.c_str(), ", opened ", p));
        if (!(h.d->entropy() >= 0 && h.d->entropy() <= 32) || (Dev::min)() != 0 || (Dev::max)() != ~0u) r.fail("interface", "entropy() outside [0, 32] or wrong min()/max()");
        return true;
    }
    void destroy(Client& c, Held& h, bool unwinding) {
        r.step(cat("client ", c.id, ": destroys its device", unwinding ? " during stack unwinding" : "")); u64 s = h.serial; r.sig(3 + unwinding);
        try { std::unique_ptr<Dev> d(std::move(h.d)); if (unwinding) throw Unwind(); d.reset(); } catch (Unwind&) {}
        check(); if (k.ofds[s].open) r.fail("descriptor-leak", "destroying a random_device left its descriptor open");
    }
    void draw(Client& c, Held& h, u64 n) {
        r.step(cat("client ", c.id, ": draws ", n)); r.sig(5);
        for (u64 i = 0; i < n; ++i) { u64 off = k.ofds[h.serial].off; unsigned v = 0; u64 at = allocs && r.chance(0.03) ? 1 : 0; int res = call(c, "drawing", [&] { v = (*h.d)(); }, at); if (res) { SIM_PROBE("draw failed"); continue; } expect(h, off, v, "drawing"); r.ev(v); if (k.ofds[h.serial].off != off + 4) r.fail("bytes-wasted", cat("a draw consumed ", k.ofds[h.serial].off - off, " bytes")); }
    }
    void expect(Held& h, u64 off, u32 v, const char* what) { u32 w = word(h.serial, off); if (v != w) r.fail("wrong-word", cat(what, " at device byte ", off, " gave ", v, ", the device delivered ", w)); }
    void fill(Client& c, Held& h, u64 n) {
        std::vector<u32> b(n + 2, 0x5A5A5A5Au); u64 off = k.ofds[h.serial].off; r.step(cat("client ", c.id, ": fills ", n, " words")); r.sig(6);
        int res = call(c, "generate()", [&] { h.d->generate(b.data() + 1, b.data() + 1 + n); }); u64 done = (k.ofds[h.serial].off - off) / 4; if (b[0] != 0x5A5A5A5Au || b[n + 1] != 0x5A5A5A5Au) r.fail("overrun", "generate() wrote outside the range"); if (done > n) r.fail("bytes-wasted", "generate() consumed more than it delivered"); if (!res && k.ofds[h.serial].off != off + 4 * n && !c.injected_eintr) r.fail("bytes-wasted", cat("generate() of ", n, " words consumed ", k.ofds[h.serial].off - off, " bytes"));
        for (u64 i = 0; i < done; ++i) expect(h, off + 4 * i, b[1 + i], "generate()"); for (u64 i = done; i < n; ++i) if (b[1 + i] != 0x5A5A5A5Au) r.fail("value-after-failure", "generate() stored a value for a word that was never read");
    }
    template<class E, class M> void seed_engine(Client& c, Held& h, const char* name, M model, unsigned w) {
        u64 off = k.ofds[h.serial].off; std::unique_ptr<E> e(new E()); bool ctor = r.pick(2); r.step(cat("client ", c.id, ": seeds ", name)); r.sig(7);
        int res = call(c, "seeding from a random_device", [&] { if (ctor) e.reset(new E(*h.d)); else e->seed(*h.d); }); if (res) { SIM_PROBE("seeding failed"); e->seed(5u); model.seed(5); for (int i = 0; i < 5; ++i) { u64 v = num(*e, w), x = model.next(); if (v != x) r.fail("wrong-sequence", cat(name, ": re-seeded after a failed seed from the device it delivers ", v, ", expected ", x)); } return; }
        u64 used = k.ofds[h.serial].off - off; std::vector<u32> ws; for (u64 i = 0; i + 4 <= used; i += 4) ws.push_back(word(h.serial, off + i)); FixedSrc s(ws); model.seed(s); if (!c.injected_eintr && s.pos != ws.size()) r.fail("bytes-wasted", cat(name, ": seeding took ", ws.size(), " words, needs ", s.pos));
        if (!c.injected_eintr) for (int i = 0; i < 8; ++i) { u64 v = num(*e, w), x = model.next(); r.ev(v); if (v != x) r.fail("wrong-sequence", cat(name, ": seeded from the device, draw ", i, " is ", v, ", expected ", x)); }
    }
    template<class E> static u64 num(E& e, unsigned w) { typename E::result_type v = e(); return w ? (u64)((long double)v * (long double)(1ull << w)) : (u64)v; }
    void adaptors(Client& c, Held& h) {
        u64 off = k.ofds[h.serial].off; r.step(cat("client ", c.id, ": draws through distributions")); r.sig(8); boost::random::uniform_int_distribution<int> ui(0, 1 + (int)r.pick(1000)); boost::variate_generator<Dev&, boost::random::uniform_int_distribution<int> > vg(*h.d, ui); boost::random::uniform_01<double> u01; std::vector<double> got; bool stop = false; int n = 1 + (int)r.pick(4); for (int i = 0; i < n && !stop; ++i) { double v = 0; int res = call(c, "a distribution over random_device", [&] { v = i % 2 ? u01(*h.d) : (double)vg(); }); if (res || c.injected_eintr) stop = true; else got.push_back(v); }
        if (&vg.engine() != h.d.get()) r.fail("interface", "variate_generator::engine() is not the device"); std::vector<u32> ws; for (u64 i = 0; i < (k.ofds[h.serial].off - off) / 4; ++i) ws.push_back(word(h.serial, off + 4 * i)); WordGen g = { &ws, 0 };
        for (std::size_t i = 0; i < got.size(); ++i) { double v = i % 2 ? u01(g) : (double)ui(g); if (v != got[i]) r.fail("wrong-value", cat("a distribution over random_device delivered ", got[i], ", the same words give ", v)); }
    }
    void client(Client& c) {
        std::vector<Held> held; unsigned ops = 2 + (unsigned)r.pick(14);
        for (unsigned o = 0; o < ops; ++o) {
            u64 kd = r.pick(9); if (held.empty() || (kd == 0 && held.size() < 4)) { Held h; h.serial = 0; if (make(c, h)) held.push_back(std::move(h)); continue; }
            std::size_t i = r.pick(held.size()); Held& h = held[i]; typedef ref::Lcg L;
            switch (kd) {
            case 1: { destroy(c, h, r.pick(3) == 0); held.erase(held.begin() + i); break; }
            case 2: fill(c, h, r.pick(12)); break; case 3: adaptors(c, h); break;
            case 4: switch (r.pick(3)) { case 0: seed_engine<boost::random::minstd_rand>(c, h, "minstd_rand", L(32, 48271, 0, 2147483647), 0); break; case 1: seed_engine<boost::random::ranlux64_base_01>(c, h, "ranlux64_base_01", ref::Swc(48, 10, 24), 48); break; default: seed_engine<boost::random::rand48>(c, h, "rand48", ref::Rand48(), 0); } break;
            default: draw(c, h, 1 + r.pick(8)); }
            if (k.ofds[h.serial].open == false && kd != 1) r.fail("closed-early", "a live random_device's descriptor was closed");
        }
        while (!held.empty()) { destroy(c, held.back(), false); held.pop_back(); }
    }
};
void common(Run& r, Service& s, unsigned nclients, bool fibers) {
    alloc_forget(); Kernel& k = s.k; k.key = r.pick64(); k.base = r.pick(4) == 0 ? (int)r.pick(3) : 3; k.paths = { "/dev/urandom", "/dev/random", "/sim/hwrng", cat("/sim/", std::string(1 + r.pick(60), 'd')) };
    double lvl = r.pick(4) == 0 ? 0 : r.pick(2) ? 0.02 : 0.15; k.p_open = lvl * 2; k.p_read = lvl; k.p_short = r.pick(3) == 0 ? 0 : 0.5; k.p_close = lvl * 2; s.allocs = !fibers && r.pick(3) == 0;
    std::vector<Client> cs(nclients); for (unsigned i = 0; i < nclients; ++i) { cs[i].id = (int)i; k.cur[i] = &cs[i]; } K = &k; struct Off { ~Off() { K = 0; } } off; r.sig(nclients);
    if (fibers) { k.yields = true; Sched sc(r); sc.max_switches = 3000; for (unsigned i = 0; i < nclients; ++i) { Client* c = &cs[i]; sc.add([&s, c] { s.client(*c); }); } sc.run(); }
    else s.client(cs[0]);
    s.check(); for (auto& o : k.ofds) if (o.open) r.fail("descriptor-leak", "a descriptor is still open after every random_device was destroyed");
}
void single(Run& r) { Service s(r); common(r, s, 1, false); }
void many(Run& r) { Service s(r); common(r, s, 2 + (unsigned)r.pick(4), true); }
}
int main(int argc, char** argv) {
    CheckInfo c; c.property = "P07";
    c.technique_rule = "One case is one seeded simulation of 1 to 5 client threads (fibers; a system call may block and let others run) that open, draw from, bulk-read, seed engines from, wrap and destroy random_device objects on a simulated kernel: lowest-free descriptor numbers (also 0, 1, 2), reads split arbitrarily, open/read/close failing with any errno, end of file, close errors, destruction during unwinding, allocation failures. Every value is compared with the device's byte stream, every descriptor is accounted for. Cases are distinct when their shape signature differs.";
    c.worlds = { { "single-client", single, 2 }, { "clients", many, 3 } };
    c.real = { "src/random_device.cpp (POSIX implementation), random_device.hpp, engines and distributions over it" };
    c.stub = { "open, openat, read, close system calls (link-time interposition)", "thread scheduling (fibers)", "allocator" };
    c.assumptions = { "the implementation reaches the device through open/openat/read/close", "a reported EINTR may be retried or reported" };
    c.quick_runs = 40000000; c.thorough_runs = 4000000000ull; c.quick_secs = 30; c.thorough_secs = 1200;
    return run_main(argc, argv, c);
}
