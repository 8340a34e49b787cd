// P08: what a distribution delivers depends only on its parameters and its entropy.
#include "dist.hpp"
#include "io.hpp"
using namespace sim;
namespace {
struct Out { int kind; Val v; u64 used; };       // 0 value, 1 budget exhausted, 2 simulated entropy failure, 3 other exception
struct World1 {
    Run& r; const DistSpec& sp;
    struct Obj { std::unique_ptr<IDist> d; std::size_t p; };
    std::vector<std::unique_ptr<IParam> > P; std::vector<V> PV; std::vector<Obj> O;
    bool loose, disc;      // loose: weights are normalised, so parameters are compared up to rounding; disc: explicit-parameter draws may use another algorithm
    World1(Run& run, const DistSpec& s) : r(run), sp(s), loose(!(s.flags & D_EXACT)), disc(s.fam == F_DISC || s.fam == F_DISCI) {}
    bool near(const V& a, const V& b) { return loose ? same_params(sp.fam, a, b, sp.num, false) : a == b; }
    u64 budget() { return 6000; }
    Out go(IDist& d, const Tape& t, u64 start, int kind, const IParam* p, u64 fail_at, int fk, std::function<void()>* hook = 0, u64 hook_at = 0) {
        Out o; o.kind = 0; o.v.n = 0; Reader rd(t, start); rd.budget = budget(); rd.fail_at = fail_at; rd.fail_kind = fk; rd.hook = hook; rd.hook_at = hook_at;
        try { o.v = p ? d.draw_p(rd, kind, *p) : d.draw(rd, kind); }
        catch (BudgetExceeded&) { o.kind = 1; } catch (EntropyFailed&) { o.kind = 2; } catch (std::runtime_error& e) { if (std::string(e.what()) != "entropy") throw; o.kind = 2; }
        if (rd.fired && o.kind == 0) r.fail("failure-swallowed", cat(sp.name, show(PV[0]), ": the entropy source threw but operator() returned normally"));
        o.used = rd.idx - start; return o;
    }
    void same(const Out& a, const Out& b, std::size_t p, int kind, const std::string& how) {
        if (a.kind != b.kind || a.used != b.used || (a.kind == 0 && !a.v.same(b.v)))
            r.fail("history-dependent", cat(sp.name, show(PV[p]), " on ", kind_name[kind], ": ", how, " gave ", a.kind ? "an abort" : a.v.str(), " using ", a.used, " entropy values; a fresh distribution with the same parameters and entropy gives ", b.kind ? "an abort" : b.v.str(), " using ", b.used));
        r.ev(a.kind ? a.kind : a.v.hash(), a.used);
    }
    Out reference(std::size_t p, const Tape& t, u64 start, int kind, u64 fail_at) {
        unsigned char f = g_alloc.fill; g_alloc.fill = (unsigned char)(f + 0x31); std::unique_ptr<IDist> d(O[0].d->make(*P[p])); g_alloc.fill = f;
        return go(*d, t, start, kind, 0, fail_at, 0);
    }
    Out reference_p(std::size_t p, const Tape& t, u64 start, int kind, u64 fail_at) {
        if (!disc) return reference(p, t, start, kind, fail_at);
        std::unique_ptr<IDist> d(O[0].d->fresh()); std::unique_ptr<IParam> c(P[p]->clone()); Out o = go(*d, t, start, kind, c.get(), fail_at, 0);
        if (o.kind == 0 && !inside(sp.fam, P[p]->vals(), o.v, sp.num)) r.fail("wrong-support", cat(sp.name, show(PV[p]), " passed explicitly: delivered ", o.v.str()));
        return o;
    }
    void check(std::size_t i, const char* after) {
        Obj& o = O[i]; std::unique_ptr<IParam> g(o.d->get());
        if (!loose && (!g->eq(*P[o.p]) || g->ne(*P[o.p]) || !P[o.p]->eq(*g))) r.fail("param-mismatch", cat(sp.name, ": param() does not compare equal to the parameters set ", show(PV[o.p]), " (after ", after, ")"));
        V a = o.d->acc(), b = P[o.p]->vals(), c = g->vals();
        if (!near(a, b) || !near(c, b)) r.fail("param-mismatch", cat(sp.name, ": accessors give ", show(a), ", param() gives ", show(c), ", parameters set were ", show(b), " (after ", after, ")"));
        std::unique_ptr<IDist> f(o.d->make(*P[o.p])); f.reset(f->clone());
        if (!o.d->eq(*f) || o.d->ne(*f) || !f->eq(*o.d)) r.fail("equal-params-unequal", cat(sp.name, show(PV[o.p]), ": does not compare equal to a fresh distribution with the same parameters (after ", after, ")"));
    }
    void add_param() {
        V v; gen_params(r, sp.fam, r.pick(3) == 0 ? L_WIDE : L_MODERATE, sp.num, v);
        if (!P.empty() && r.pick(4) == 0) { V w; if (neighbour(r, sp.fam, sp.num, PV[r.pick(PV.size())], w)) v = w; }        // one value of an earlier set changed
        P.emplace_back(O[0].d->make_param(v)); PV.push_back(v); r.step(cat("parameters ", P.size() - 1, ": ", show(v)));
        IParam& p = *P.back();
        if ((sp.flags & D_EXACT) && !same_params(sp.fam, v, p.vals(), sp.num, true)) r.fail("param-mismatch", cat(sp.name, ": constructed from ", show(v), " the parameters read back are ", show(p.vals())));
        else if (sp.fam != F_PWL && !same_params(sp.fam, v, p.vals(), sp.num, false)) r.fail("param-mismatch", cat(sp.name, ": constructed from ", show(v), " the parameters read back are ", show(p.vals())));
        if (!p.eq(p) || p.ne(p)) r.fail("param-mismatch", cat(sp.name, ": a parameter set does not compare equal to itself ", show(v)));
        std::unique_ptr<IDist> d(O[0].d->make_vals(v)), e(O[0].d->make(p));
        if ((!loose && !d->eq(*e)) || !near(d->acc(), p.vals())) r.fail("param-mismatch", cat(sp.name, show(v), ": value construction and param construction differ"));
    }
};
void service(Run& r) {
    const DistSpec& sp = r.among(dists()); r.sig(name_hash(sp.name)); r.step(sp.name);
    World1 w(r, sp); static const unsigned char fills[] = { 0, 0xff, 0xa7, 0x5c }; g_alloc.fill = fills[r.pick(4)];
    unsigned n = 1 + (unsigned)r.pick(3), np = 1 + (unsigned)r.pick(4);
    { World1::Obj o; Run& rr = r; (void)rr; o.d.reset(sp.make()); o.p = 0; w.O.push_back(std::move(o)); }
    // the default-constructed distribution has the default parameters; its own param set opens the pool
    { w.P.emplace_back(w.O[0].d->get()); w.PV.push_back(w.P[0]->vals()); if (sp.fam == F_SPHERE || w.PV[0].size() || 1) w.check(0, "default construction"); }
    for (unsigned k = 0; k < np; ++k) w.add_param();
    for (unsigned k = 1; k < n; ++k) { World1::Obj o; o.p = r.pick(w.P.size()); o.d.reset(w.O[0].d->make(*w.P[o.p])); w.O.push_back(std::move(o)); }
    if (r.pick(4)) { w.O[0].p = w.P.size() - 1; w.O[0].d->set(*w.P[w.O[0].p]); w.check(0, "param(p)"); }
    unsigned ops = 2 + (unsigned)r.pick(14); int kind = (int)r.pick(NKINDS);
    for (unsigned k = 0; k < ops; ++k) {
        std::size_t i = r.pick(w.O.size()); World1::Obj& o = w.O[i]; std::size_t j = r.pick(w.P.size()), q = r.pick(w.O.size());
        if (r.chance(0.15)) kind = (int)r.pick(NKINDS);
        u64 op = r.pick(17); r.sig(op);
        switch (op) {
        case 0: case 1: case 2: case 3: case 4: {     // draws, possibly in a row, possibly hostile, possibly aborted, possibly while another client runs
            Tape t = r.chance(0.3) ? Tape::hostile(r) : Tape(r.pick64()); u64 at = 0; unsigned m = 1 + (unsigned)r.pick(6);
            r.step(cat("#", i, " draws ", m, " on ", kind_name[kind]));
            for (unsigned z = 0; z < m; ++z) {
                u64 fail = r.chance(0.15) ? at + r.pick(1 + r.pick(12)) : ~0ull; int fk = (int)r.pick(2);
                std::function<void()> other; bool nest = w.O.size() > 1 && r.chance(0.2); std::size_t b = (i + 1 + r.pick(w.O.size() - 1 + (w.O.size() == 1))) % w.O.size();
                u64 nk = nest ? r.pick(3) : 0; u64 ns = nest ? r.pick64() : 0, nseed = ns; int k2 = nest ? (int)r.pick(NKINDS) : 0; std::size_t np2 = nest ? r.pick(w.P.size()) : 0;
                Tape t2(nseed); Out no, want; bool ran = false; std::size_t bp = w.O[b].p;
                if (nest && b != i) { other = [&]() { ran = true; World1::Obj& x = w.O[b]; if (nk == 1) { x.d->set(*w.P[np2]); x.p = np2; } no = w.go(*x.d, t2, 0, k2, nk == 2 ? w.P[np2].get() : 0, ~0ull, 0); bp = nk == 2 ? np2 : x.p; }; }
                Out got = w.go(*o.d, t, at, kind, 0, fail, fk, other ? &other : 0, at + (nest ? r.pick(4) : 0));
                Out ref = w.reference(o.p, t, at, kind, fail); w.same(got, ref, o.p, kind, z ? "a later draw" : "a draw");
                if (ran) { SIM_FAULT("other-client-runs-mid-draw"); want = nk == 2 ? w.reference_p(bp, t2, 0, k2, ~0ull) : w.reference(bp, t2, 0, k2, ~0ull); w.same(no, want, bp, k2, "a draw made while another draw was waiting for entropy"); }
                at += got.used; if (got.kind) { SIM_PROBE("aborted draw"); if (got.kind == 1) break; }
            }
            w.check(i, "draws"); break; }
        case 5: case 6: {                             // explicit parameter set
            Tape t = r.chance(0.2) ? Tape::hostile(r) : Tape(r.pick64()); u64 fail = r.chance(0.15) ? r.pick(1 + r.pick(12)) : ~0ull; r.step(cat("#", i, " draws with explicit parameters ", j, " on ", kind_name[kind]));
            Out got = w.go(*o.d, t, 0, kind, w.P[j].get(), fail, (int)r.pick(2)); w.same(got, w.reference_p(j, t, 0, kind, fail), j, kind, "a draw with an explicit parameter set");
            w.check(i, "a draw with an explicit parameter set"); if (!w.near(w.P[j]->vals(), std::unique_ptr<IDist>(o.d->make(*w.P[j]))->acc())) r.fail("param-mismatch", cat(sp.name, ": drawing changed the parameter set passed in")); break; }
        case 7: case 8: r.step(cat("#", i, ".param(", j, ")")); if (r.pick(4) == 0) { std::unique_ptr<IParam> c(w.P[j]->clone()); o.d->set(*c); } else o.d->set(*w.P[j]); o.p = j; w.check(i, "param(p)"); break;
        case 9: r.step(cat("#", i, ".reset()")); o.d->reset(); w.check(i, "reset()"); break;
        case 10: { r.step(cat("#", i, " = #", q)); o.d->assign(*w.O[q].d); o.p = w.O[q].p; w.check(i, "assignment"); w.check(q, "being assigned from"); break; }
        case 11: { r.step(cat("#", i, " copied, moved")); std::unique_ptr<IDist> c(o.d->clone()); o.d.reset(r.pick(2) ? c->clone() : c->move_out()); w.check(i, "copy construction"); break; }
        case 12: { r.step(cat("#", i, " move-assigned from a copy of #", q)); std::unique_ptr<IDist> c(w.O[q].d->clone()); o.d->move_assign(*c); o.p = w.O[q].p; if (r.pick(2)) { c->assign(*o.d); std::swap(c, o.d); } w.check(i, "move assignment"); break; }
        case 13: if (q != i) { r.step(cat("swap #", i, " #", q)); o.d->swap(*w.O[q].d); std::swap(o.p, w.O[q].p); w.check(i, "swap"); w.check(q, "swap"); } break;
        case 14: {                                    // equality is about futures
            bool e = o.d->eq(*w.O[q].d), e2 = w.O[q].d->eq(*o.d), ne = o.d->ne(*w.O[q].d); bool pe = w.P[o.p]->eq(*w.P[w.O[q].p]), pn = w.P[o.p]->ne(*w.P[w.O[q].p]);
            r.step(cat("compare #", i, " #", q));
            if (e != e2 || e == ne || pe == pn) r.fail("bad-equality", cat(sp.name, ": == is not symmetric or != is not its negation"));
            if (pe && !e) r.fail("equal-params-unequal", cat(sp.name, show(w.PV[o.p]), ": distributions with equal parameters compare different"));
            if (e || pe) for (unsigned z = 0; z < 4; ++z) { Tape t(r.pick64()); Out a = w.go(*o.d, t, 0, kind, 0, ~0ull, 0), b = w.go(*w.O[q].d, t, 0, kind, 0, ~0ull, 0); if (a.kind != b.kind || a.used != b.used || (!a.kind && !a.v.same(b.v))) r.fail("equal-but-different", cat(sp.name, ": distributions with parameters ", show(w.PV[o.p]), " and ", show(w.PV[w.O[q].p]), " compare equal but deliver ", a.v.str(), " and ", b.v.str(), " from the same entropy")); }
            else { SIM_PROBE("unequal pair"); } break; }
        case 15: {                                    // parameter sets travel too
            r.step(cat("parameter set ", j, " copied, assigned, swapped")); std::unique_ptr<IParam> c(w.P[j]->clone()), d(w.P[r.pick(w.P.size())]->clone()); d->assign(*c); if (!d->eq(*w.P[j]) || d->vals() != w.P[j]->vals()) r.fail("param-mismatch", cat(sp.name, ": an assigned parameter set differs from its source"));
            std::unique_ptr<IParam> m(c->move_out()); c->assign(*m); m->swap(*d); std::unique_ptr<IParam> z(sp.make()->get()); d->move_assign(*z); d->assign(*m); w.P[j].reset(d.release()); o.d->set(*w.P[j]); o.p = j; w.check(i, "param(copied set)"); break; }
        default: {                                    // an object dies mid-service and is replaced
            SIM_FAULT("client-crash"); r.step(cat("#", i, " destroyed and replaced")); std::size_t alive = (i + 1) % w.O.size(); std::unique_ptr<IDist> nd((w.O.size() > 1 ? w.O[alive].d : o.d)->make(*w.P[j])); o.d.reset(); o.d = std::move(nd); o.p = j; w.check(i, "construction"); }
        }
    }
    // closing comparison on every object
    for (std::size_t i = 0; i < w.O.size(); ++i) { Tape t(r.pick64()); u64 at = 0; for (unsigned z = 0; z < 3; ++z) { Out a = w.go(*w.O[i].d, t, at, kind, 0, ~0ull, 0); w.same(a, w.reference(w.O[i].p, t, at, kind, ~0ull), w.O[i].p, kind, "a final draw"); at += a.used; if (a.kind) break; } w.check(i, "the run"); }
}
bool vector_params(Fam f) { return f == F_DISC || f == F_DISCI || f == F_HYPER || f == F_PWC || f == F_PWL; }
// the documented default parameters of each family; false where it has none
bool default_values(const DistSpec& sp, const V& v, V& want) {
    switch (sp.fam) {
    case F_UINT: case F_SMALL: { ld hi = std::string(sp.name) == "uniform_int_old" || sp.fam == F_SMALL ? 9 : sp.num.imax; want = { 0, hi }; break; }
    case F_UREAL: want = { 0, 1 }; break; case F_BERN: want = { 0.5L }; break; case F_BINOM: want = { 1, 0.5L }; break; case F_GEOM: case F_GEOM_OLD: want = { 0.5L }; break; case F_NEGB: want = { 1, 0.5L }; break; case F_POIS: want = { 1 }; break;
    case F_TRI: want = { 0, 0.5L, 1 }; break; case F_NORM: case F_LOGN: case F_LAPL: want = { 0, 1 }; break; case F_LOGN_OLD: want = { 1, 1 }; break; case F_EXPO: want = { 1 }; break; case F_GAMMA: case F_BETA: case F_FISH: case F_WEIB: case F_NCCS: want = { 1, 1 }; break;
    case F_CHI2: case F_STUD: want = { 1 }; break; case F_CAUCHY: want = { 0, 1 }; break; case F_EXTR: want = { 1, 1 }; if (v == V{ 0, 1 }) want = v; break; case F_SPHERE: want = { 2 }; break;
    case F_DISC: case F_DISCI: want = { 1 }; break; case F_HYPER: want = { 1, 1, 1 }; break; case F_PWC: want = { 2, 0, 1, 1 }; break; case F_PWL: want = { 2, 0, 1, 1, 1 }; break;
    default: return false;
    }
    return true;
}
void same_service(Run& r, const DistSpec& sp, IDist& d, IDist& e, int kind, const std::string& what) {
    if (!e.eq(d) || !d.eq(e) || e.ne(d)) r.fail("equal-params-unequal", cat(sp.name, ": ", what, " do not compare equal: ", show(d.acc()), " / ", show(e.acc())));
    for (unsigned z = 0; z < 3; ++z) { Tape t(r.pick64()); Reader a(t), b(t); a.budget = b.budget = 6000; try { Val x = d.draw(a, kind), y = e.draw(b, kind); if (!x.same(y) || a.idx != b.idx) r.fail("history-dependent", cat(sp.name, ": ", what, " deliver ", x.str(), " and ", y.str())); } catch (BudgetExceeded&) { return; } }
}
// default arguments: a default-constructed distribution is the one with the documented default parameters
void defaults(Run& r) {
    const DistSpec& sp = r.among(dists()); r.sig(name_hash(sp.name)); std::unique_ptr<IDist> d(sp.make()); V v = d->acc(), want; r.step(cat(sp.name, " default ", show(v)));
    if (!default_values(sp, v, want)) return;
    if (v != want) r.fail("wrong-default", cat(sp.name, ": default construction gives ", show(v), ", documented ", show(want)));
    int kind = (int)r.pick(NKINDS); std::unique_ptr<IDist> e(d->make_vals(want)); same_service(r, sp, *d, *e, kind, "default-constructed and explicitly constructed distributions");
    std::unique_ptr<IParam> p(d->make_param(want));
    if (!vector_params(sp.fam)) {
        std::unique_ptr<IParam> q(d->param_alt(0, want)); if (q && (!q->eq(*p) || q->vals() != want)) r.fail("wrong-default", cat(sp.name, ": a default-constructed parameter set has ", show(q->vals()), ", documented ", show(want)));
        // trailing arguments left out take their documented defaults
        V w; gen_params(r, sp.fam, L_MODERATE, sp.num, w); unsigned lead = 1 + (unsigned)r.pick(2); if (lead >= want.size() || w.size() != want.size()) return; for (std::size_t i = lead; i < want.size(); ++i) w[i] = want[i];
        if ((sp.fam == F_UINT || sp.fam == F_SMALL || sp.fam == F_UREAL) && !(w[0] <= w[1])) { w[0] = w[1] - (ld)r.pick(10); if (w[0] < sp.num.imin && sp.fam != F_UREAL) w[0] = w[1]; } if (sp.fam == F_UREAL && w[0] == w[1]) w[0] = 0; if (sp.fam == F_TRI && lead == 1 && !(w[0] <= w[1])) w[0] = 0.25L; if (sp.fam == F_TRI && lead == 2 && !(w[1] <= w[2])) return; if (!in_domain(sp, w)) return;
        std::unique_ptr<IDist> a(d->make_alt(lead, w)), b(d->make_vals(w)); std::unique_ptr<IParam> ap(d->param_alt(lead, w)), bp(d->make_param(w)); r.step(cat("leading arguments of ", show(w)));
        if (a) { SIM_PROBE("trailing default argument"); if (a->acc() != b->acc()) r.fail("wrong-default", cat(sp.name, ": constructed from the first ", lead, " of ", show(w), " it has parameters ", show(a->acc()))); same_service(r, sp, *a, *b, kind, "distributions built with a trailing argument omitted and given"); }
        if (ap && (!ap->eq(*bp) || ap->vals() != bp->vals())) r.fail("wrong-default", cat(sp.name, ": a parameter set constructed from the first ", lead, " of ", show(w), " has ", show(ap->vals())));
    }
}
// every documented constructor of the vector-parameter distributions gives the same distribution as the iterator one
void constructors(Run& r) {
    static std::vector<const DistSpec*> vs; if (vs.empty()) for (auto& s : dists()) if (vector_params(s.fam)) vs.push_back(&s);
    const DistSpec& sp = *vs[r.pick(vs.size())]; r.sig(name_hash(sp.name)); std::unique_ptr<IDist> d(sp.make()); unsigned form = (unsigned)r.pick(7); r.sig(form); int kind = (int)r.pick(NKINDS);
    V v; gen_params(r, sp.fam, r.pick(3) == 0 ? L_WIDE : L_MODERATE, sp.num, v); bool piece = sp.fam == F_PWC || sp.fam == F_PWL;
    if (sp.fam == F_HYPER && r.pick(2)) for (std::size_t i = 0; i < (std::size_t)v[0]; ++i) v[1 + i] = 1;
    if (piece && r.pick(3) == 0) { static const ld w[] = { 0.125L, 0.5L, 1, 2, 3 }; ld x = (ld)r.pick(40) - 20, h = w[r.pick(5)]; for (std::size_t i = 0; i < (std::size_t)v[0]; ++i) v[1 + i] = x + h * (ld)i; }
    if ((sp.fam == F_DISC || sp.fam == F_DISCI) && r.pick(8) == 0) v.clear();
    bool dflt = v.empty() || (piece && form >= 4); V want = v; if (dflt) default_values(sp, v, want);
    std::unique_ptr<IDist> a(d->make_alt(form, v)), b(d->make_vals(want)); std::unique_ptr<IParam> p(d->param_alt(form, v)), q(d->make_param(want)); r.step(cat(sp.name, " constructor form ", form, " ", show(v)));
    if (a) { SIM_PROBE("other constructor"); if (sp.fam == F_PWC && form < 2) { b.reset(d->make_alt(1 - form, v)); if (!b) b.reset(a->clone()); }      // these two normalise the weights once more than the others
        same_service(r, sp, *a, *b, kind, cat("distributions built by constructor form ", form, " and from iterators, ", show(want), ",")); std::unique_ptr<IParam> g(a->get()); if (!same_params(sp.fam, g->vals(), q->vals(), sp.num, false) || !same_params(sp.fam, a->acc(), b->acc(), sp.num, false)) r.fail("param-mismatch", cat(sp.name, ": built by constructor form ", form, " from ", show(v), ", param() gives ", show(g->vals()))); }
    if (p) { if (!p->eq(*q) || p->ne(*q) || p->vals() != q->vals()) r.fail("param-mismatch", cat(sp.name, ": parameter set built by constructor form ", form, " from ", show(v), " has ", show(p->vals()), ", expected ", show(q->vals()))); std::unique_ptr<IDist> e(d->make(*p)), f(d->make(*q)); same_service(r, sp, *e, *f, kind, cat("distributions from a parameter set built by constructor form ", form)); }
}
}
int main(int argc, char** argv) {
    CheckInfo c; c.property = "P08";
    c.technique_rule = "One case is one seeded simulation of a service: up to three objects of one distribution type and up to five parameter sets, under a scheduled mix of draws on twelve engine shapes (fair or hostile entropy, entropy that throws at a chosen word, another client drawing or re-parameterising while a draw waits for entropy), explicit-parameter draws, param(), reset(), copies, moves, swaps and replacement; every draw is repeated by a fresh object on the same entropy and must agree bit for bit, value and consumption. constructors: every other way of writing the same parameters (defaults, partial arguments, initializer lists, functions, single values, degenerate forms) must behave as the iterator or full form. Every case draws; cases are distinct when their shape signature (type, operations, faults) differs.";
    c.worlds = { { "service", service, 12 }, { "defaults", defaults, 1 }, { "constructors", constructors, 1 } };
    c.real = { "all distributions of boost/random (56 instantiations) and their param_types", "generate_uniform_real / generate_uniform_int / int_float_pair helpers" };
    c.stub = { "engines (entropy tapes in twelve result types and ranges)", "allocator contents" };
    c.assumptions = { "a moved-from distribution is only assigned or destroyed" };
    c.quick_runs = 40000000; c.thorough_runs = 4000000000ull; c.quick_secs = 50; c.thorough_secs = 1500; c.hidden_state_is_violation = true;
    return run_main(argc, argv, c);
}
