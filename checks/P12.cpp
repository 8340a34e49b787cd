// P12: separate random objects are independent under any thread interleaving.
#include "fiber.hpp"
#include "hist.hpp"
#include "dist.hpp"
#include "qrng.hpp"
#include "shared.hpp"
using namespace sim;
namespace {
struct Op { int k; u64 a, b; };
struct World12 {
    Run& r; int mode;                                   // 0 engines, 1 distributions, 2 quasi-random, 3 prototypes, 4 mixed
    std::unique_ptr<IEng> se; std::vector<const EngSpec*> es; std::unique_ptr<IDist> sd; std::vector<const DistSpec*> ds; std::vector<std::unique_ptr<IParam> > sp; std::unique_ptr<IQ> sq; std::vector<const QSpec*> qs; std::unique_ptr<IShared> sh; std::size_t qdim; std::vector<u32> seq; std::string etext, dtext, qtext;
    struct Client { std::vector<Op> ops; std::size_t ei, di, qi; std::vector<u64> res; };
    std::vector<Client> cs;
    explicit World12(Run& rr) : r(rr), mode(0), qdim(1) {}
    template<class O> static std::string text(const O& o) { SimOut<char> b; std::ostream s(&b); s.precision(25); o.save(s); return b.data; }
    // one client's program: its own objects, read-only use of the shared ones
    void program(Client& c) {
        c.res.clear(); std::unique_ptr<IEng> e; std::unique_ptr<IDist> d; std::unique_ptr<IQ> q;
        const EngSpec* E = es[c.ei]; const DistSpec* D = ds[c.di]; const QSpec* Q = qs[c.qi];
        for (std::size_t n = 0; n < c.ops.size(); ++n) {
            const Op& o = c.ops[n]; u64 h = (u64)o.k; int kind = o.k; Tape t(o.a); Reader rd(t); rd.budget = 3000; if (o.b % 11 == 0) { rd.fail_at = o.b % 5; }
            SimOut<char> ob; std::ostream os(&ob); os.precision(12); std::string txt; std::vector<u32> buf(1 + o.b % 9); std::vector<ld> qb(1 + o.b % 9); Val val; V vv; bool fl = false;
            { if (!e) { Preemptible p; e.reset(E->make()); } if (!d) { Preemptible p; d.reset(D->make()); } if (!q) { Preemptible p; q.reset(Q->make(qdim)); } }
            if (kind == 9) { Preemptible p; e->save(os); } 
            bool sameE = E == es[0], sameD = D == ds[0], sameQ = Q == qs[0];
            try { switch (kind) {
            case 0: { u64 m = o.b % 40; Preemptible p; for (u64 i = 0; i < m; ++i) h = mix64(h ^ e->draw()); break; }
            case 1: { Preemptible p; e.reset(e->make_int(o.a)); h ^= e->draw(); break; }
            case 2: { Preemptible p; e.reset(e->make_std_seq(seq)); h ^= e->draw(); break; }
            case 3: { Preemptible p; if (sameE) { e.reset(se->clone()); h ^= e->draw(); } break; }
            case 4: { Preemptible p; if (sameE) fl = se->eq(*e), h ^= fl; break; }
            case 5: { u64 z = o.b % 900; Preemptible p; e->discard(z); h ^= e->draw(); break; }
            case 6: { if (!(E->flags & ENG_RAWBULK)) { Preemptible p; e->generate(buf.data(), buf.data() + buf.size()); } for (u32 x : buf) h = mix64(h ^ x); break; }
            case 7: { Preemptible p; se->save(os); break; }
            case 8: { Preemptible p; if (sameE) e->assign(*se); h ^= e->draw(); break; }
            case 9: { SimIn<char> ib(ob.data); std::istream is(&ib); Preemptible p; e->load(is); h ^= e->draw(); break; }
            case 10: case 11: case 12: { u64 m = 1 + o.b % 6; for (u64 i = 0; i < m; ++i) { { Preemptible p; val = d->draw(rd, (int)(o.a % NKINDS)); } h = mix64(h ^ val.hash()); } break; }
            case 13: { if (sameD) { { Preemptible p; val = d->draw_p(rd, (int)(o.a % NKINDS), *sp[o.b % sp.size()]); } h ^= val.hash(); } break; }
            case 14: { if (sameD) { Preemptible p; d.reset(sd->make(*sp[o.b % sp.size()])); } break; }
            case 15: { if (sameD) { Preemptible p; d.reset(sd->clone()); } break; }
            case 16: { if (sameD) { Preemptible p; d->set(*sp[o.b % sp.size()]); } { Preemptible p; vv = d->acc(); } for (ld x : vv) h = mix64(h ^ dbits(x)); break; }
            case 17: { if (sameD) { Preemptible p; fl = sd->eq(*d); } h ^= fl; break; }
            case 18: { if (sameD && !(D->flags & D_NOTEXT)) { Preemptible p; sd->save(os); sp[o.b % sp.size()]->save(os); } break; }
            case 19: { if (sameD) { for (int i = 0; i < 3; ++i) { Val v; { Preemptible p; fl = sd->draw_const(rd, (int)(o.a % 4), v); } if (fl) { val = v; h = mix64(h ^ val.hash()); } } } break; }
            case 20: { if (sameD) { std::unique_ptr<IParam> pp; { Preemptible p; pp.reset(sd->get()); vv = pp->vals(); fl = pp->eq(*sp[0]); } for (ld x : vv) h = mix64(h ^ dbits(x)); h ^= fl; } break; }
            case 21: { Preemptible p; d->reset(); break; }
            case 22: { u64 m = o.b % 20; Preemptible p; for (u64 i = 0; i < m; ++i) h = mix64(h ^ dbits(q->draw())); break; }
            case 23: { std::size_t dm = 1 + o.b % 12; Preemptible p; q.reset(q->make(dm)); h = mix64(h ^ dbits(q->draw())); break; }
            case 24: { if (sameQ) { Preemptible p; q.reset(sq->clone()); h = mix64(h ^ dbits(q->draw())); } break; }
            case 25: { u64 z = o.b % 300; Preemptible p; q->seed(z % (Q->last < 300 ? Q->last : 300)); h = mix64(h ^ dbits(q->draw())); break; }
            case 26: { u64 z = o.b % (Q->last < 1000 ? 3 : 400); Preemptible p; q->discard(z); h = mix64(h ^ dbits(q->draw())); break; }
            case 27: { if (sameQ) { Preemptible p; fl = sq->eq(*q); sq->save(os); } h ^= fl; break; }
            case 28: { Preemptible p; q->generate(qb.data(), qb.size()); for (ld x : qb) h = mix64(h ^ dbits(x)); break; }
            default: { int k = (int)(o.a % SHARED_OPS); Preemptible p; h = sh->op(k, o.b); break; }
            } } catch (EntropyFailed&) { h ^= 0xfa11; } catch (BudgetExceeded&) { h ^= 0xb0d9e7; } catch (std::range_error&) { h ^= 0x4a46e; { Preemptible p; q->seed(); } } catch (std::runtime_error&) { h ^= 0x4a47; }
            if (kind == 7 || kind == 18 || kind == 27) { for (char x : ob.data) h = mix64(h ^ (unsigned char)x); }
            c.res.push_back(h);
        }
    }
};
void interleave(Run& r) {
    World12 w(r); sim_mt_threshold = r.pick(2) ? 100 : 10000000ull; w.mode = (int)r.pick(5); unsigned n = 2 + (unsigned)r.pick(5); bool same = r.pick(4) != 3;
    bool mt_only = false; for (unsigned i = 0; i < n; ++i) { w.es.push_back(i && same ? w.es[0] : &pick_engine(r, 700)); const DistSpec* d; d = i && same ? w.ds[0] : &r.among(dists()); w.ds.push_back(d); w.qs.push_back(i && same ? w.qs[0] : &r.among(qrngs())); } (void)mt_only;
    r.sig(w.mode); r.sig(name_hash(w.mode == 1 ? w.ds[0]->name : w.mode == 2 ? w.qs[0]->name : w.es[0]->name)); std::vector<V> pv; u64 es0 = r.pick64(), shs = r.pick64(); w.qdim = 1 + r.pick(10); for (u64 k = r.pick(5); k-- > 0;) w.seq.push_back((u32)r.pick64());
    for (unsigned k = 0; k < 1 + r.pick(3); ++k) { V v; gen_params(r, w.ds[0]->fam, L_MODERATE, w.ds[0]->num, v); pv.push_back(v); }
    bool cold = r.pick(4) != 3; static const int lo[] = { 0, 10, 22, 29, 0 }, cnt[] = { 10, 12, 7, 1, 30 };
    for (unsigned i = 0; i < n; ++i) { World12::Client c; c.ei = i; c.di = i; c.qi = i; unsigned m = 1 + (unsigned)r.pick(10); for (unsigned k = 0; k < m; ++k) { Op o; o.k = lo[w.mode] + (int)r.pick(cnt[w.mode]); o.a = w.mode == 3 || o.k == 29 ? r.pick(SHARED_OPS) : r.pick64(); o.b = r.pick(100000); c.ops.push_back(o); } w.cs.push_back(c); }
    r.step(cat(n, " clients, mode ", w.mode, ": ", w.es[0]->name, " / ", w.ds[0]->name, " / ", w.qs[0]->name, cold ? ", concurrent phase first" : ", after a sequential phase"));
    std::vector<std::vector<u64> > alone(n), conc(n); u64 dg0 = 0;
    auto prepare = [&] { w.se.reset(w.es[0]->make()); w.se->seed(es0); w.sd.reset(w.ds[0]->make()); w.sp.clear(); for (auto& v : pv) w.sp.emplace_back(w.sd->make_param(v)); w.sd.reset(w.sd->make(*w.sp[0])); w.sq.reset(w.qs[0]->make(w.qdim)); w.sh.reset(w.mode >= 3 ? make_shared_bundle(shs) : 0); };
    auto sequential = [&] { for (unsigned i = 0; i < n; ++i) { w.program(w.cs[i]); alone[i] = w.cs[i].res; } };
    prepare(); w.etext = w.text(*w.se); w.dtext = w.ds[0]->flags & D_NOTEXT ? std::string() : w.text(*w.sd); w.qtext = w.text(*w.sq); if (w.sh && !cold) dg0 = w.sh->digest();
    if (!cold) sequential();
    static const u64 qmax[] = { 3, 12, 60, 400, 3000 };
    { Sched s(r); s.preempt = true; s.quantum_max = qmax[r.pick(5)]; s.max_switches = 200 + r.pick(1500); for (unsigned i = 0; i < n; ++i) { World12* p = &w; s.add([p, i] { p->program(p->cs[i]); }); } s.run(); r.sig(s.switches); r.sim_steps += Sched::blocks(); if (s.switches > 20) SIM_PROBE("more than 20 context switches"); SIM_PROBE("interleaved execution"); if (s.switches > n) SIM_FAULT("preemption-schedule"); }
    for (unsigned i = 0; i < n; ++i) conc[i] = w.cs[i].res;
    if (w.text(*w.se) != w.etext) r.fail("shared-object-changed", cat("a shared const ", w.es[0]->name, " changed while clients read it")); if (!(w.ds[0]->flags & D_NOTEXT) && w.text(*w.sd) != w.dtext) r.fail("shared-object-changed", cat("a shared const ", w.ds[0]->name, " changed while clients read it")); if (w.text(*w.sq) != w.qtext) r.fail("shared-object-changed", cat("a shared const ", w.qs[0]->name, " changed while clients read it")); if (w.sh && !cold && w.sh->digest() != dg0) r.fail("shared-object-changed", "a shared const prototype changed while clients read it");
    if (cold) { prepare(); sequential(); }
    for (unsigned i = 0; i < n; ++i) for (std::size_t k = 0; k < alone[i].size(); ++k) { r.ev(conc[i][k]); if (k >= conc[i].size() || conc[i][k] != alone[i][k]) { int o = w.cs[i].ops[k].k; r.fail("interference", cat("client ", i, " operation ", k, " (kind ", o, " on ", o < 10 ? w.es[i]->name : o < 22 ? w.ds[i]->name : o < 29 ? w.qs[i]->name : "shared prototypes", o == 29 ? cat(" #", w.cs[i].ops[k].a % SHARED_OPS) : "", ") gave another result than when running alone")); } }
}
}
int main(int argc, char** argv) {
    CheckInfo c; c.property = "P12";
    c.technique_rule = "One case is one seeded simulation, in a fresh process, of 2 to 6 client threads (fibers) that each run a random program over their own engines, distributions and quasi-random generators and use shared const prototypes, parameter sets and seed sequences read-only. The library is compiled with basic-block instrumentation and the seeded scheduler preempts clients at any basic block. Every operation's result is compared with the result of the same program running alone; shared objects must not change. Cases are distinct when type, mode and schedule length signature differ.";
    c.worlds = { { "interleave", interleave, 1 } };
    c.real = { "all engines, distributions, quasi-random generators, adaptors, seed_seq (instrumented)" };
    c.stub = { "threads (fibers with basic-block preemption; locks of static initialisers yield)", "entropy under distributions", "stream devices" };
    c.assumptions = { "context switches happen between basic blocks (sequentially consistent memory)", "the library does not use thread-local storage" };
    c.fork_each = true; c.hidden_state_is_violation = true;
    c.quick_runs = 40000000; c.thorough_runs = 4000000000ull; c.quick_secs = 45; c.thorough_secs = 1500;
    return run_main(argc, argv, c);
}
