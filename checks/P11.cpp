// P11: allocation failure never leaks or corrupts a random object.
#include "hist.hpp"
#include "dist.hpp"
#include "qrng.hpp"
#include <boost/random/seed_seq.hpp>
#include <boost/random/discrete_distribution.hpp>
#include <boost/random/piecewise_constant_distribution.hpp>
#include <boost/random/piecewise_linear_distribution.hpp>
#include <boost/random/hyperexponential_distribution.hpp>
#include <boost/random/uniform_on_sphere.hpp>
#include <new>
using namespace sim;
namespace {
enum Rc { RC_OK, RC_NOMEM, RC_BUDGET };
struct Call { Rc rc; bool fired; u64 seen; u64 before, after; };
// run f with allocation number at .. at+len-1 failing (at == 0: none)
template<class F> Call guarded(Run& r, const std::string& what, u64 at, u64 len, F f) {
    Call c; c.rc = RC_OK; c.fired = false; c.seen = 0; c.before = g_alloc.armed_live; std::string bad; u64 inj0 = g_alloc.injected;
    try { AllocFault a(at, len); f(); c.seen = a.seen(); a.stop(); }
    catch (std::bad_alloc&) { c.rc = RC_NOMEM; } catch (BudgetExceeded&) { c.rc = RC_BUDGET; } catch (Violation&) { throw; }
    catch (std::ios_base::failure&) { bad = "an ios_base::failure although stream exceptions are off"; } catch (std::exception& e) { bad = e.what(); }
    c.fired = g_alloc.injected != inj0; c.after = g_alloc.armed_live;
    if (!bad.empty()) r.fail("wrong-exception", cat(what, ": with allocation ", at, " failing it threw ", bad, " instead of std::bad_alloc"));
    if (c.rc == RC_NOMEM && !c.fired) r.fail("spurious-bad-alloc", cat(what, ": threw bad_alloc although no allocation failed"));
    return c;
}
void pick_fault(Run& r, u64 n, u64& at, u64& len) { at = 0; len = 0; if (!n || r.chance(0.1)) return; at = n - r.pick(n); switch (r.pick(4)) { case 0: len = 1 + r.pick(4); break; case 1: len = ~0ull >> 1; break; default: len = 1; } }
struct OutBuf : SimOut<char> { std::ostream o; explicit OutBuf(std::size_t n, int prec = 6) : o(this) { data.reserve(n + 64); o.precision(prec); } };
int prec_of(const Num& n) { return (int)std::ceil(n.digits * 0.30103) + 1; }
// ---- distributions ------------------------------------------------------------
struct DW {
    struct Obj { std::unique_ptr<IDist> d; std::size_t p; bool sound; };
    Run& r; const DistSpec& sp; std::vector<Obj> O; std::vector<std::unique_ptr<IParam> > P; std::vector<V> PV; int kind;
    DW(Run& rr, const DistSpec& s) : r(rr), sp(s), kind(0) { r.sig(name_hash(sp.name)); r.step(sp.name); }
    std::string nm(std::size_t p) { return cat(sp.name, show(PV[p])); }
    std::string text(const IDist& d) { SimOut<char> b; std::ostream o(&b); o.precision(prec_of(sp.num)); d.save(o); return b.data; }
    std::string text(const IParam& p) { SimOut<char> b; std::ostream o(&b); o.precision(prec_of(sp.num)); p.save(o); return b.data; }
    // a sound object behaves exactly like a freshly constructed one
    void verify(IDist& d, std::size_t p, const std::string& what) {
        std::unique_ptr<IDist> f(O[0].d->make(*P[p])); V a = d.acc(), b = f->acc();
        if (a != b) r.fail("state-wrong", cat(nm(p), ": ", what, ": parameters read ", show(a), ", a fresh object reads ", show(b)));
        if (!d.eq(*f) || d.ne(*f)) r.fail("state-wrong", cat(nm(p), ": ", what, ": compares different from a fresh object"));
        Tape t(r.pick64()); Reader x(t), y(t); x.budget = y.budget = 20000; int k = (int)r.pick(NKINDS);
        try { for (int z = 0; z < 2; ++z) { Val u = d.draw(x, k), v = f->draw(y, k); r.ev(u.hash()); if (!u.same(v) || x.idx != y.idx) r.fail("state-wrong", cat(nm(p), ": ", what, ": delivers ", u.str(), ", a fresh object delivers ", v.str())); } } catch (BudgetExceeded&) {}
    }
    void sound(std::size_t i, const std::string& what) { if (O[i].sound) verify(*O[i].d, O[i].p, what); }
    // an object whose update failed must still be usable in every way
    void exercise(IDist& d, const std::string& what) {
        SIM_PROBE("object used after a failed update"); V a = d.acc(); std::string t = text(d); r.ev(t);
        if (!d.eq(d) || d.ne(d)) r.fail("broken-object", cat(sp.name, ": ", what, ": not equal to itself"));
        std::unique_ptr<IDist> c(d.clone()); if (!c->eq(d)) r.fail("broken-object", cat(sp.name, ": ", what, ": a copy compares different"));
        c->assign(d); std::unique_ptr<IParam> p(d.get()); d.reset();
        if (!in_domain(sp, a)) { if (!(sp.flags & D_VEC)) { SIM_PROBE("failed update left parameters outside the comfortable domain"); return; } r.fail("broken-object", cat(sp.name, ": ", what, ": the object is left with parameters ", show(a), ", which no caller ever set")); }
        Tape tp(r.pick64()); Reader rd(tp), rc(tp); rd.budget = rc.budget = 20000; int k = (int)r.pick(NKINDS);
        try { for (int z = 0; z < 3; ++z) { Val x = d.draw(rd, k), y = c->draw(rc, k); r.ev(x.hash()); if (!x.same(y)) r.fail("broken-object", cat(sp.name, ": ", what, ": the object and its copy deliver ", x.str(), " and ", y.str())); if (!inside(sp.fam, a, x, sp.num)) r.fail("broken-object", cat(sp.name, ": ", what, ": parameters read ", show(a), " but a draw gives ", x.str())); } } catch (BudgetExceeded&) {}
    }
    // apply op to clones without faults to learn how many allocations it makes, then for real
    void op() {
        std::size_t i = r.pick(O.size()), j = r.pick(O.size()), p = r.pick(P.size()); unsigned k = (unsigned)r.pick(13); if ((sp.flags & D_NOTEXT) && k == 12) k = 5;
        static const char* const names[] = { "construct from values", "construct from a parameter set", "copy-construct", "assign", "move-assign", "param(p)", "param()", "accessors", "draw", "draw with explicit parameters", "save", "compare", "restore" };
        Obj& o = O[i]; std::string what = cat("#", i, " ", names[k]); std::unique_ptr<IDist> out; std::unique_ptr<IParam> pout; Val v; V av; Tape tp(r.pick64()); int kd = (int)r.pick(NKINDS); u64 used = 0; bool sok = false; std::string txt;
        std::string src = k == 12 ? text(*std::unique_ptr<IDist>(o.d->make(*P[p]))) : std::string(); std::size_t tsz = k == 10 ? text(*o.d).size() : 0;
        auto run = [&](IDist& d, const IDist& other, u64 at, u64 len) -> Call {
            OutBuf ob(tsz, prec_of(sp.num)); SimIn<char> ib(src); std::istream in(&ib); Reader rd(tp); rd.budget = 20000; std::unique_ptr<IDist> tmp; if (k == 4) tmp.reset(other.clone()); out.reset(); pout.reset();
            Call c = guarded(r, cat(sp.name, " ", what), at, len, [&] {
                switch (k) {
                case 0: out.reset(d.make_vals(PV[p])); break; case 1: out.reset(d.make(*P[p])); break; case 2: out.reset(d.clone()); break;
                case 3: d.assign(other); break; case 4: d.move_assign(*tmp); break; case 5: d.set(*P[p]); break; case 6: pout.reset(d.get()); break; case 7: av = d.acc(); break;
                case 8: v = d.draw(rd, kd); break; case 9: v = d.draw_p(rd, kd, *P[p]); break; case 10: d.save(ob.o); break; case 11: sok = d.eq(other); break; default: d.load(in); } });
            used = rd.idx; if (k == 10) { sok = ob.o.good(); txt = ob.data; } if (k == 12) sok = !in.fail(); return c; };
        u64 n; { std::unique_ptr<IDist> a(o.d->clone()), b(O[j].d->clone()); n = run(*a, i == j ? *a : *b, 0, 0).seen; out.reset(); pout.reset(); v = Val(); av = V(); }
        u64 at, len; pick_fault(r, n, at, len); u64 live = g_alloc.armed_live; r.step(cat(what, " p", p, " (", n, " allocations, failing ", at, " x ", len, ")")); r.sig(k * 8 + (at ? 1 : 0) + (len > 1 ? 2 : 0));
        Call c = run(*o.d, *O[j].d, at, len); r.ev(c.rc);
        bool mut = k == 3 || k == 4 || k == 5 || k == 12, failed = c.rc != RC_OK || (k == 12 && !sok);
        if (c.rc == RC_NOMEM) { SIM_PROBE("bad_alloc delivered"); if (!mut && c.after != live) r.fail("leak", cat(sp.name, " ", what, ": ", (long long)(c.after - live), " allocations leaked when allocation ", at, " of ", n, " failed")); }
        if (c.fired && !failed && k != 10) SIM_PROBE("completed in spite of a failed allocation");
        if (!c.fired && failed && c.rc != RC_BUDGET) r.fail("fails-without-fault", cat(sp.name, " ", what, ": failed although no allocation failed"));
        if (mut) {
            if (failed) { o.sound = false; exercise(*o.d, what); if (k == 3 || k == 4) { if (i == j) { } } }
            else { bool snd = k == 3 || k == 4 ? O[j].sound : (k != 12 || (sp.flags & D_EXACTIO)); std::size_t np = k == 3 || k == 4 ? O[j].p : p; o.sound = snd; o.p = np; if (!snd) exercise(*o.d, what); }
        } else if (c.rc == RC_OK) switch (k) {
            case 0: { std::unique_ptr<IDist> f(o.d->make_vals(PV[p])); if (out->acc() != f->acc() || !out->eq(*f)) r.fail("state-wrong", cat(nm(p), ": constructed with parameters ", show(out->acc()))); if (O.size() < 4 && r.pick(2)) { Obj x; x.p = p; x.sound = sp.flags & D_EXACT; x.d = std::move(out); O.push_back(std::move(x)); } break; }
            case 1: verify(*out, p, what); if (O.size() < 4) { Obj x; x.p = p; x.sound = true; x.d = std::move(out); O.push_back(std::move(x)); } break;
            case 2: if (o.sound) verify(*out, o.p, what); if (!out->eq(*o.d)) r.fail("state-wrong", cat(sp.name, ": a copy compares different")); if (O.size() < 4) { Obj x; x.p = o.p; x.sound = o.sound; x.d = std::move(out); O.push_back(std::move(x)); } break;
            case 6: { std::unique_ptr<IParam> q(o.d->get()); if (!pout->eq(*q)) r.fail("state-wrong", cat(sp.name, ": param() differs after an allocation failure inside it")); break; }
            case 7: if (av != o.d->acc()) r.fail("state-wrong", cat(sp.name, ": accessors differ after an allocation failure inside them")); break;
            case 8: case 9: { std::unique_ptr<IDist> f(k == 9 ? o.d->make(*P[p]) : o.d->clone()); Reader rd(tp); rd.budget = 20000; try { Val w = k == 9 ? f->draw_p(rd, kd, *P[p]) : f->draw(rd, kd); if (!v.same(w) || rd.idx != used) r.fail("state-wrong", cat(sp.name, " ", what, ": gave ", v.str(), ", without the fault ", w.str())); r.ev(v.hash()); } catch (BudgetExceeded&) {} break; }
            case 10: if (sok && txt != text(*o.d)) r.fail("save-corrupt", cat(sp.name, ": a save during which allocation ", at, " failed claims success but wrote ", txt)); break;
            default: break; }
        pout.reset(); out.reset();
        // nobody else is affected, and const operations leave their object alone
        for (std::size_t z = 0; z < O.size(); ++z) if (z == i || r.pick(3) == 0) sound(z, what);
        { std::unique_ptr<IParam> q(O[0].d->make_param(PV[p])); if (!q->eq(*P[p]) || q->vals() != P[p]->vals()) r.fail("source-changed", cat(nm(p), ": ", what, " changed the parameter set it was given")); }
    }
    void param_op() {
        std::size_t p = r.pick(P.size()), q = r.pick(P.size()); unsigned k = (unsigned)r.pick((sp.flags & D_NOTEXT) ? 4 : 6); std::unique_ptr<IParam> w(P[p]->clone()), out; std::string src = text(*P[q]), txt; bool sok = true; V av; static const char* const names[] = { "construct", "copy", "assign", "accessors", "save", "restore" };
        std::string what = cat("parameter set ", names[k]); std::size_t tsz = text(*w).size();
        auto run = [&](IParam& x, u64 at, u64 len) { OutBuf ob(tsz, prec_of(sp.num)); SimIn<char> ib(src); std::istream in(&ib); Call c = guarded(r, cat(sp.name, " ", what), at, len, [&] { switch (k) { case 0: out.reset(O[0].d->make_param(PV[q])); break; case 1: out.reset(x.clone()); break; case 2: x.assign(*P[q]); break; case 3: av = x.vals(); break; case 4: x.save(ob.o); break; default: x.load(in); } }); if (k == 4) { sok = ob.o.good(); txt = ob.data; } if (k == 5) sok = !in.fail(); return c; };
        u64 n; { std::unique_ptr<IParam> a(w->clone()); n = run(*a, 0, 0).seen; out.reset(); av = V(); } u64 at, len; pick_fault(r, n, at, len); u64 live = g_alloc.armed_live; r.step(cat(what, " (", n, " allocations, failing ", at, " x ", len, ")")); r.sig(200 + k * 2 + (at != 0));
        Call c = run(*w, at, len); bool failed = c.rc != RC_OK || (k == 5 && !sok); if (!c.fired && failed) r.fail("fails-without-fault", cat(sp.name, " ", what, ": failed although no allocation failed"));
        if (c.rc && (k < 2 || k == 3 || k == 4) && c.after != live) r.fail("leak", cat(sp.name, " ", what, ": leaked when allocation ", at, " of ", n, " failed"));
        if (k == 4 && !c.rc && sok && txt != text(*w)) r.fail("save-corrupt", cat(sp.name, ": a save of a parameter set during which allocation ", at, " failed claims success but wrote ", txt));
        if (k == 0 && out && !out->eq(*P[q])) r.fail("state-wrong", cat(sp.name, ": parameter set constructed differently")); if (k == 1 && out && !out->eq(*P[p])) r.fail("state-wrong", cat(sp.name, ": copied parameter set differs"));
        if (k == 2 || k == 5) {
            if (failed) { SIM_PROBE("parameter set used after a failed update"); V a = w->vals(); std::unique_ptr<IParam> cp(w->clone()); if (!cp->eq(*w) || w->ne(*w)) r.fail("broken-object", cat(sp.name, ": parameter set not equal to its copy after a failed ", names[k])); r.ev(text(*w)); std::unique_ptr<IDist> d(O[0].d->make(*w)); bool dom = in_domain(sp, a); if (!dom && (sp.flags & D_VEC)) r.fail("broken-object", cat(sp.name, ": a failed ", names[k], " left the parameter set ", show(a), ", which no caller ever set")); Tape t(r.pick64()); Reader rd(t); rd.budget = 20000; try { if (dom) d->draw(rd, 0); } catch (BudgetExceeded&) {} w->assign(*P[q]); }
            if (k == 2 || failed || (sp.flags & D_EXACTIO)) if (!w->eq(*P[q])) r.fail("state-wrong", cat(sp.name, ": parameter set differs from what it was ", names[k], "ed to"));
        } else if (!w->eq(*P[p])) r.fail("source-changed", cat(sp.name, ": ", what, " changed the parameter set"));
    }
};
void distribution(Run& r) {
    alloc_forget(); const std::vector<DistSpec>& all = dists();
    const DistSpec* sp = &r.among(all); if (!(sp->flags & D_VEC) && r.pick(4)) { std::vector<const DistSpec*> v; for (auto& s : all) if (s.flags & D_VEC) v.push_back(&s); sp = v[r.pick(v.size())]; }
    {
        DW w(r, *sp); std::unique_ptr<IDist> proto(sp->make()); unsigned np = 2 + (unsigned)r.pick(3);
        for (unsigned k = 0; k < np; ++k) { V v; do gen_params(r, sp->fam, L_MODERATE, sp->num, v); while (0); std::unique_ptr<IParam> p(proto->make_param(v)); w.P.push_back(std::move(p)); w.PV.push_back(v); }
        for (unsigned k = 0; k < 1 + r.pick(2); ++k) { DW::Obj o; o.p = k; o.sound = true; o.d.reset(proto->make(*w.P[k])); w.O.push_back(std::move(o)); }
        unsigned ops = 2 + (unsigned)r.pick(14);
        for (unsigned k = 0; k < ops; ++k) { if (r.pick(5) == 0) w.param_op(); else w.op(); if (r.pick(6) == 0) { std::size_t i = r.pick(w.O.size()), p = r.pick(w.P.size()); r.step(cat("#", i, " put back to service with p", p)); w.O[i].d->set(*w.P[p]); w.O[i].p = p; w.O[i].sound = true; w.sound(i, "param(p) after the failures"); } }
        for (std::size_t i = 0; i < w.O.size(); ++i) { if (!w.O[i].sound) { w.O[i].d->set(*w.P[0]); w.O[i].p = 0; w.O[i].sound = true; } w.sound(i, "service after the failures"); }
    }
    if (g_alloc.armed_live) r.fail("leak", cat(sp->name, ": ", g_alloc.armed_live, " allocations are still live after every object was destroyed"));
}
// ---- the other constructors of the distributions that own memory ----------------
template<class D, class F, class G> void ctor_case(Run& r, const char* name, F make, G same) {
    alloc_forget(); r.step(name); r.sig(name_hash(name)); u64 n = 0;
    { std::unique_ptr<D> ref(make()); std::unique_ptr<D> dry; Call c = guarded(r, name, 0, 0, [&] { dry.reset(make()); }); n = c.seen; if (!same(*dry, *ref)) r.fail("state-wrong", cat(name, ": two constructions differ")); dry.reset();
      for (u64 at = 1; at <= n; ++at) { std::unique_ptr<D> d; u64 len = r.pick(4) ? 1 : 1 + r.pick(50); Call q = guarded(r, name, at, len, [&] { d.reset(make()); }); if (!q.rc && !same(*d, *ref)) r.fail("state-wrong", cat(name, ": construction survived a failed allocation (", at, " of ", n, ") but differs")); d.reset(); if (g_alloc.armed_live) r.fail("leak", cat(name, ": ", g_alloc.armed_live, " allocations leaked when allocation ", at, " of ", n, " failed")); } }
    if (g_alloc.armed_live) r.fail("leak", cat(name, ": allocations leaked"));
}
struct Fn { double a; double operator()(double x) const { return 1 + (x - a) * (x - a); } };
void constructors(Run& r) {
    namespace br = boost::random; u64 k = r.pick(14); std::size_t nw = r.pick(9), m = 2 + r.pick(6); std::vector<double> w, iv; for (std::size_t i = 0; i < m; ++i) { w.push_back(0.5 + (double)r.pick(9)); iv.push_back((double)i + 0.25); } std::vector<double> w1(w); w1.pop_back(); Fn fn = { (double)r.pick(3) };
    typedef br::discrete_distribution<> DD; typedef br::discrete_distribution<int, int> DI; typedef br::piecewise_constant_distribution<> PC; typedef br::piecewise_linear_distribution<> PL; typedef br::hyperexponential_distribution<> HE;
    auto eq = [](const auto& a, const auto& b) { return a == b; };
    switch (k) {
    case 0: ctor_case<DD>(r, "discrete(nw, xmin, xmax, fw)", [&] { return new DD(nw, 0.0, 4.0, fn); }, eq); break;
    case 1: ctor_case<DD>(r, "discrete(initializer_list)", [&] { return new DD{ 1.0, 2.0, 3.5 }; }, eq); break;
    case 2: ctor_case<DI>(r, "discrete<int,int>(range)", [&] { return new DI(std::vector<int>(m, 3)); }, eq); break;
    case 3: ctor_case<DD::param_type>(r, "discrete::param_type(nw, xmin, xmax, fw)", [&] { return new DD::param_type(nw, 0.0, 4.0, fn); }, eq); break;
    case 4: ctor_case<PC>(r, "piecewise_constant(nw, xmin, xmax, fw)", [&] { return new PC(nw, 0.0, 4.0, fn); }, eq); break;
    case 5: ctor_case<PC>(r, "piecewise_constant(iterators)", [&] { return new PC(iv.begin(), iv.end(), w1.begin()); }, eq); break;
    case 6: ctor_case<PC>(r, "piecewise_constant(initializer_list, f)", [&] { return new PC({ 0.0, 1.0, 2.5 }, fn); }, eq); break;
    case 7: ctor_case<PC::param_type>(r, "piecewise_constant::param_type(nw, ...)", [&] { return new PC::param_type(nw, 0.0, 4.0, fn); }, eq); break;
    case 8: ctor_case<PL>(r, "piecewise_linear(nw, xmin, xmax, fw)", [&] { return new PL(nw, 0.0, 4.0, fn); }, eq); break;
    case 9: ctor_case<PL>(r, "piecewise_linear(iterators)", [&] { return new PL(iv.begin(), iv.end(), w.begin()); }, eq); break;
    case 10: ctor_case<PL>(r, "piecewise_linear(initializer_list, f)", [&] { return new PL({ 0.0, 1.0, 2.5 }, fn); }, eq); break;
    case 11: ctor_case<HE>(r, "hyperexponential(ranges)", [&] { return new HE(w, iv); }, eq); break;
    case 12: ctor_case<HE>(r, "hyperexponential(rates)", [&] { return new HE(iv.begin(), iv.end()); }, eq); break;
    default: ctor_case<PC>(r, "piecewise_constant(ranges)", [&] { return new PC(iv, w1); }, eq); break;
    }
}
// ---- engines ------------------------------------------------------------------
void engine(Run& r) {
    alloc_forget(); static unsigned long long thr[] = { 10000000ull, 100, 3000 }; sim_mt_threshold = thr[r.pick(3)];
    {
        const EngSpec& sp = pick_engine(r, 1300, r.pick(3) == 0 ? ENG_MT : 0); Hist h(r, sp, 1 + (unsigned)r.pick(2)); unsigned ops = 2 + (unsigned)r.pick(10); std::string name = sp.name;
        if (r.pick(2)) h.reseed(0, false); h.draw(0, h.burst());
        for (unsigned o = 0; o < ops; ++o) {
            unsigned i = (unsigned)r.pick(h.s.size()); h.ensure(i); Slot& x = h.s[i]; unsigned k = (unsigned)r.pick(7); std::unique_ptr<IEng> out; u64 z = sp.flags & ENG_MT ? sim_mt_threshold / 2 + r.pick(2 * sim_mt_threshold) : h.discard_amount(); if (z > 5000) z = 5000 + (sp.flags & ENG_MT && sim_mt_threshold > 5000 ? 0 : z % 3000); if ((sp.flags & ENG_FASTJUMP) && r.pick(3) == 0) z = r.pick64();
            std::vector<u32> sv(r.pick(6)); for (auto& e : sv) e = (u32)r.pick64(); StreamCfg plain; plain.chunk = 64; plain.precision = 6; std::string src = k == 1 ? h.save_text((unsigned)r.pick(h.s.size()), plain) : std::string(), txt; std::string own = k == 2 ? h.save_text(i, plain) : std::string(); bool sok = true; std::vector<u32> buf(k == 5 ? 1 + r.pick(20) : 0);
            if ((sp.flags & ENG_MT) && r.pick(2)) k = 0; if (k == 5 && (sp.flags & ENG_RAWBULK)) k = 2; static const char* const names[] = { "discard", "restore", "save", "seed from seed_seq", "construct from seed_seq", "generate", "copy" };
            std::string what = cat(name, " ", names[k]); std::unique_ptr<ref::Model> after(x.m->clone());
            auto run = [&](IEng& e, u64 at, u64 len) { OutBuf ob(own.size()); SimIn<char> ib(src); std::istream in(&ib); Call c = guarded(r, what, at, len, [&] { switch (k) { case 0: e.discard(z); break; case 1: e.load(in); break; case 2: e.save(ob.o); break; case 3: e.seed_std_seq(sv); break; case 4: out.reset(e.make_std_seq(sv)); break; case 5: e.generate(buf.data(), buf.data() + buf.size()); break; default: out.reset(e.clone()); } }); if (k == 1) sok = !in.fail(); if (k == 2) { sok = ob.o.good(); txt = ob.data; } return c; };
            if (k == 1 && src.empty()) src = h.save_text(i, plain); if (k == 2 && own.empty()) own = h.save_text(i, plain);
            u64 n; { std::unique_ptr<IEng> c(x.e->clone()); n = run(*c, 0, 0).seen; out.reset(); } u64 at, len; pick_fault(r, n, at, len); u64 live = g_alloc.armed_live; r.step(cat("#", i, " ", names[k], " (", n, " allocations, failing ", at, " x ", len, ")")); r.sig(k * 4 + (at != 0) + 2 * (len > 1));
            Call c = run(*x.e, at, len); bool mut = k == 0 || k == 1 || k == 3 || k == 5, failed = c.rc != RC_OK || ((k == 1) && !sok); r.ev(c.rc);
            if (!c.fired && (failed || !sok)) r.fail("fails-without-fault", cat(what, ": failed although no allocation failed"));
            if (c.rc && c.after != live) r.fail("leak", cat(what, ": ", (long long)(c.after - live), " allocations leaked when allocation ", at, " of ", n, " failed"));
            if (c.rc) SIM_PROBE("bad_alloc delivered");
            if (k == 2 && !c.rc && sok && txt != own) r.fail("save-corrupt", cat(what, ": claims success but the text is damaged"));
            if (k == 4 && out && !c.rc) { std::unique_ptr<ref::Model> m(sp.model()); StdSeqSrc ss(sv); m->seed(ss); for (int q = 0; q < 5; ++q) { u64 a = out->draw(), b = m->next(); if (a != b && !h.canonical_equal(a, b)) r.fail("state-wrong", cat(what, ": wrong sequence")); } }
            if (k == 6 && out && !out->eq(*x.e)) r.fail("state-wrong", cat(what, ": differs"));
            out.reset();
            if (mut && failed) { SIM_PROBE("object used after a failed update"); x.known = false; if (k != 3) { std::unique_ptr<IEng> cp(x.e->clone()); if (!cp->eq(*x.e)) r.fail("broken-object", cat(what, ": a copy compares different after the failure")); for (int q = 0; q < 30; ++q) { u64 v = x.e->draw(); r.ev(v); } x.e->discard(3); SimOut<char> b; std::ostream os(&b); x.e->save(os); } h.reseed(i, false); h.probe(i, h.probe_len(), "state-wrong", "re-seeded after a failed allocation"); }
            else if (mut) { if (k == 0) { if (z > 40000000 && !x.m->can_jump()) { x.known = false; h.reseed(i, false); } else x.m->jump(z); } else if (k == 3) { x.m.reset(sp.model()); StdSeqSrc ss(sv); x.m->seed(ss); } else if (k == 5) { std::vector<u32> wv(buf.size()); if (sp.flags & ENG_REAL) ref::bulk_real(*x.m, sp.real_bits, wv); else ref::bulk_int(*x.m, wv); if (wv != buf) r.fail("state-wrong", cat(what, ": wrong words")); } else { x.known = false; h.reseed(i, false); } if (x.known) h.probe(i, 4 + r.pick(20), "state-wrong", cat("after ", names[k], " with allocation ", at, " failing")); }
            else h.probe(i, 4 + r.pick(20), "state-wrong", cat("after ", names[k], " with allocation ", at, " failing"));
        }
    }
    if (g_alloc.armed_live) r.fail("leak", cat("engines: ", g_alloc.armed_live, " allocations are still live after every object was destroyed"));
}
// ---- quasi-random generators -----------------------------------------------------
void quasi(Run& r) {
    alloc_forget();
    {
        const QSpec& sp = r.among(qrngs()); struct QO { std::unique_ptr<IQ> q; std::unique_ptr<QModel> m; }; std::vector<QO> s(1 + r.pick(2)); r.sig(name_hash(sp.name)); r.step(sp.name);
        auto dim = [&] { return (std::size_t)(1 + (r.pick(4) ? r.pick(8) : r.pick(sp.fam == Q_FAURE ? 40 : 200))); };
        auto check = [&](QO& x, unsigned n, const std::string& what) { for (unsigned k = 0; k < n && !x.m->at_end(); ++k) { ld v = x.q->draw(), w = x.m->next(); r.ev(dbits(v)); if (sp.tol == 0 ? v != w : !(std::fabs(v - w) <= sp.tol * 4)) r.fail("state-wrong", cat(sp.name, "(", x.m->dim, "): ", what, ": component ", x.m->c - 1, " of vector ", x.m->n, " is ", v, ", expected ", w)); } };
        for (auto& x : s) { std::size_t d = dim(); x.q.reset(sp.make(d)); x.m.reset(new QModel(sp, d)); check(x, (unsigned)r.pick(20), "construction"); }
        unsigned ops = 2 + (unsigned)r.pick(12);
        for (unsigned o = 0; o < ops; ++o) {
            std::size_t i = r.pick(s.size()), j = r.pick(s.size()); QO& x = s[i]; unsigned k = (unsigned)r.pick(9); static const char* const names[] = { "construct", "copy", "assign", "move-assign", "seed", "discard", "draw", "save", "restore" };
            std::size_t d = dim(); u64 z = r.pick(3) ? r.pick(500) : r.pick64() & (sp.last >> 1); if (z > sp.seedmax) z = sp.seedmax; std::unique_ptr<IQ> out, tmp; ld v = 0; std::string what = cat(sp.name, " ", names[k]), src, own, txt; bool sok = true;
            { SimOut<char> b; std::ostream os(&b); s[j].q->save(os); src = b.data; } { SimOut<char> b; std::ostream os(&b); x.q->save(os); own = b.data; }
            bool rng = false; unsigned nd = 1 + (unsigned)r.pick(12), drawn = 0;
            auto run = [&](IQ& q, u64 at, u64 len) { OutBuf ob(own.size()); SimIn<char> ib(src); std::istream in(&ib); tmp.reset(k == 3 ? s[j].q->clone() : 0); return guarded(r, what, at, len, [&] { try { switch (k) { case 0: out.reset(q.make(d)); break; case 1: out.reset(q.clone()); break; case 2: q.assign(i == j ? q : *s[j].q); break; case 3: q.move_assign(*tmp); break; case 4: q.seed(z); break; case 5: q.discard(z); break; case 6: for (drawn = 0; drawn < nd; ++drawn) v = q.draw(); break; case 7: q.save(ob.o); sok = ob.o.good(); { AllocPause ap; txt = ob.data; } break; default: q.load(in); sok = !in.fail(); } } catch (std::range_error&) { rng = true; } }); };
            u64 n; { std::unique_ptr<IQ> c(x.q->clone()); n = run(*c, 0, 0).seen; out.reset(); } u64 at, len; pick_fault(r, n, at, len); u64 live = g_alloc.armed_live; bool rng0 = rng; rng = false; sok = true; QModel before(*x.m);
            r.step(cat("#", i, " ", names[k], " (", n, " allocations, failing ", at, " x ", len, ")")); r.sig(k * 4 + (at != 0) + 2 * (len > 1));
            Call c = run(*x.q, at, len); r.ev(c.rc); bool failed = c.rc != RC_OK || !sok; tmp.reset();
            if (!c.fired && (failed || rng != rng0)) r.fail("fails-without-fault", cat(what, ": failed although no allocation failed"));
            if (c.rc && (k < 2 || k == 7) && c.after != live) r.fail("leak", cat(what, ": allocations leaked when allocation ", at, " of ", n, " failed"));
            if (c.rc) SIM_PROBE("bad_alloc delivered");
            if (k == 7 && !failed && txt != own) r.fail("save-corrupt", cat(what, ": claims success but wrote ", txt));
            if (k == 0 && out) { QO y; y.q = std::move(out); y.m.reset(new QModel(sp, d)); check(y, 8, "constructed"); }
            if (k == 1 && out) { QO y; y.q = std::move(out); y.m.reset(new QModel(before)); check(y, 8, "copied"); }
            bool mut = k >= 2 && k <= 6 || k == 8;
            if (rng) { SIM_FAULT("sequence-exhausted"); if (k == 6) for (unsigned t = 0; t < drawn; ++t) x.m->next(); check(x, 6, "after a range_error"); continue; }
            if (!mut || !failed) {
                switch (k) { case 2: case 3: case 8: *x.m = QModel(*s[j].m); break; case 4: x.m->seed(z); break; case 5: x.m->discard(z); break; case 6: for (unsigned t = 0; t < nd; ++t) { ld w = x.m->next(); if (t + 1 == nd && (sp.tol == 0 ? v != w : !(std::fabs(v - w) <= sp.tol * 4))) r.fail("state-wrong", cat(what, ": wrong value")); } break; default: break; }
                if (x.q->dimension() != x.m->dim) r.fail("state-wrong", cat(what, ": dimension ", x.q->dimension(), ", expected ", x.m->dim)); check(x, (unsigned)r.pick(8), cat("after ", names[k]));
            } else {       // a failed update: usable, then exact after the next seed / assignment / restore
                SIM_PROBE("object used after a failed update"); if (x.q->dimension() < 1) r.fail("broken-object", cat(what, ": dimension 0")); std::size_t dd = x.q->dimension();
                if (dd != before.dim && dd != s[j].m->dim) r.fail("broken-object", cat(what, ": dimension changed to ", dd)); std::unique_ptr<IQ> cp(x.q->clone()); if (!cp->eq(*x.q)) r.fail("broken-object", cat(what, ": a copy compares different")); SimOut<char> b; std::ostream os(&b); x.q->save(os);
                try { for (int t = 0; t < 9; ++t) { ld q = x.q->draw(); r.ev(dbits(q)); if (!(q >= x.q->min_v() && q <= x.q->max_v())) r.fail("broken-object", cat(what, ": draws outside [min(), max()]")); } } catch (std::range_error&) {}
                u64 sd = r.pick(300) % (sp.last < 300 ? sp.last : 300); switch (r.pick(3)) { case 0: x.m.reset(new QModel(sp, dd)); x.m->seed(sd); x.q->seed(sd); break; case 1: if (i != j) { x.q->assign(*s[j].q); x.m.reset(new QModel(*s[j].m)); } else { x.m.reset(new QModel(sp, dd)); x.q->seed(); } break; default: { SimIn<char> ib(own); std::istream in(&ib); x.q->load(in); if (in.fail()) r.fail("not-recovered", cat(what, ": intact restore rejected")); x.m.reset(new QModel(before)); } }
                check(x, 2 + (unsigned)r.pick(12), cat("back in service after a failed ", names[k]));
            }
        }
    }
    if (g_alloc.armed_live) r.fail("leak", cat("quasi-random generators: ", g_alloc.armed_live, " allocations are still live after every object was destroyed"));
}
// ---- seed_seq -------------------------------------------------------------------
void seedseq(Run& r) {
    alloc_forget();
    {
        typedef boost::random::seed_seq S; std::vector<u32> v(r.size_biased(300)); for (auto& x : v) x = (u32)r.pick64(); S base(v.begin(), v.end()); std::vector<u32> buf(r.size_biased(700)), want(buf.size()), pv(v.size() + 1, 7); ref::std_seed_seq(v, want); unsigned ops = 1 + (unsigned)r.pick(8);
        for (unsigned o = 0; o < ops; ++o) {
            unsigned k = (unsigned)r.pick(6); std::unique_ptr<S> out; static const char* const names[] = { "construct from iterators", "construct from range", "construct from initializer list", "copy", "generate", "param" };
            auto run = [&](u64 at, u64 len) { return guarded(r, cat("seed_seq ", names[k]), at, len, [&] { switch (k) { case 0: out.reset(new S(v.begin(), v.end())); break; case 1: out.reset(new S(v)); break; case 2: out.reset(new S{ 1u, 2u, 3u }); break; case 3: out.reset(new S(base)); break; case 4: base.generate(buf.begin(), buf.end()); break; default: base.param(pv.begin()); } }); };
            u64 n = run(0, 0).seen; out.reset(); u64 at, len; pick_fault(r, n, at, len); u64 live = g_alloc.armed_live; r.step(cat("seed_seq ", names[k], " (", n, " allocations, failing ", at, ")")); r.sig(k * 2 + (at != 0)); for (auto& x : buf) x = 0x55;
            Call c = run(at, len); if (c.rc && c.after != live) r.fail("leak", cat("seed_seq ", names[k], ": leaked")); if (c.rc) SIM_PROBE("bad_alloc delivered");
            if (!c.rc && k == 4 && buf != want) r.fail("state-wrong", "seed_seq: generate delivered other words than the algorithm");
            if (out) { std::vector<u32> g(8), w(8), src(v); if (k == 2) src = { 1, 2, 3 }; out->generate(g.begin(), g.end()); ref::std_seed_seq(src, w); if (g != w || out->size() != src.size()) r.fail("state-wrong", cat("seed_seq ", names[k], ": wrong contents")); }
            out.reset(); std::vector<u32> g(5), w(5); base.generate(g.begin(), g.end()); ref::std_seed_seq(v, w); if (g != w) r.fail("source-changed", cat("seed_seq changed by ", names[k]));
        }
    }
    if (g_alloc.armed_live) r.fail("leak", "seed_seq: allocations are still live after every object was destroyed");
}
}
int main(int argc, char** argv) {
    CheckInfo c; c.property = "P11";
    c.technique_rule = "One case is one seeded simulation: objects of one type (distribution and parameter sets, engine, quasi-random generator, seed sequence) go through a scheduled mix of construction, copying, assignment, re-parameterisation, drawing, saving and restoring; each operation is first measured on a copy to learn how many allocations it makes and is then executed with a chosen allocation (or run of allocations, or all from there on) failing. The exception, the account of live memory, the source and bystander objects, the object's usability and its exactness after the next successful update are checked (AddressSanitizer underneath). Cases are distinct when their shape signature (type, operations, failing pattern) differs.";
    c.worlds = { { "distribution", distribution, 8 }, { "constructors", constructors, 1 }, { "engine", engine, 3 }, { "quasi-random", quasi, 3 }, { "seed-sequence", seedseq, 1 } };
    c.real = { "all distributions, engines, adaptors and quasi-random generators of boost/random, seed_seq" };
    c.stub = { "global operator new/delete (failing allocator with live accounting)", "stream devices", "engines under distributions (entropy tapes)" };
    c.assumptions = { "only operator new can fail (the library allocates through std::vector)" };
    c.quick_runs = 40000000; c.thorough_runs = 4000000000ull; c.quick_secs = 50; c.thorough_secs = 1500;
    return run_main(argc, argv, c);
}
