// P10: distribution checkpoints restore parameters and behaviour.
#include "dist.hpp"
#include "io.hpp"
using namespace sim;
namespace {
int digits10_of(const Num& n) { return (int)std::ceil(n.digits * 0.30103) + 1; }
struct Fmt {
    bool wide, throwing, upper, showpoint, showpos, sci, grouping; int width; u64 ochunk, ichunk;
    static Fmt random(Run& r) { Fmt f; f.wide = r.chance(0.3); f.throwing = r.chance(0.35); f.upper = r.chance(0.15); f.showpoint = r.chance(0.15); f.showpos = r.chance(0.1); f.sci = r.chance(0.15); f.grouping = r.chance(0.05); f.width = r.chance(0.1) ? (int)r.range(1, 30) : 0; f.ochunk = r.pick(3) ? r.pick(65) : 0; f.ichunk = 1 + r.pick(64); return f; }
    template<class S> void out(S& s, int prec) const { s.precision(prec); if (upper) s.setf(std::ios_base::uppercase); if (showpoint) s.setf(std::ios_base::showpoint); if (showpos) s.setf(std::ios_base::showpos); if (sci) s.setf(std::ios_base::scientific, std::ios_base::floatfield); if (width) s.width(width); both(s); }
    template<class S> void both(S& s) const { if (grouping) { static const std::locale l(std::locale(std::locale::classic(), new Grouping), new WGrouping); s.imbue(l); } if (throwing) s.exceptions(std::ios_base::failbit | std::ios_base::badbit); }
};
void age(Run& r, const DistSpec& sp, IDist& d, bool safe) {      // give an object a history
    unsigned n = (unsigned)r.pick(4); if (!safe) return;
    for (unsigned k = 0; k < n; ++k) { Tape t(r.pick64()); Reader rd(t); rd.budget = 6000; if (r.chance(0.15)) rd.fail_at = r.pick(6); try { d.draw(rd, (int)r.pick(NKINDS)); } catch (BudgetExceeded&) {} catch (EntropyFailed&) {} if (r.chance(0.2)) d.reset(); }
}
struct Item { const DistSpec* sp; bool param; bool safe; std::unique_ptr<IDist> d; std::unique_ptr<IParam> p; V v; };
template<class C> void go(Run& r, std::vector<Item>& items, const Fmt& f) {
    SimOut<C> ob; ob.set_chunk(f.ochunk); std::basic_ostream<C> o(&ob); std::vector<std::size_t> begin;
    for (Item& it : items) {
        f.out(o, digits10_of(it.sp->num)); std::ios_base::fmtflags fl = o.flags(); std::streamsize pr = o.precision();
        std::unique_ptr<IDist> before(it.d->clone());
        if (it.param) it.p->save(o); else it.d->save(o);
        if (!o.good()) r.fail("save-failed", cat(it.sp->name, show(it.v), ": writing to a working stream set an error state"));
        if (o.flags() != fl || o.precision() != pr) r.fail("save-changed-stream", cat(it.sp->name, ": writing changed the stream's formatting"));
        if (!before->eq(*it.d)) r.fail("save-changed-object", cat(it.sp->name, show(it.v), ": writing changed the distribution"));
        o.width(0); o << C(' ') << C('#') << C('7') << C('1') << C('\n');
    }
    o.flush(); std::basic_string<C> text = ob.data; r.ev(narrow_s(text)); if (r.verbose) r.note(narrow_s(text));
    SimIn<C> ib(text); ib.chunk = f.ichunk; std::basic_istream<C> in(&ib); f.both(in);
    for (Item& it : items) {
        const DistSpec& sp = *it.sp; bool exact = sp.flags & D_EXACTIO;
        // the reader: fresh, or an object with another history, or the writer itself
        V ov; gen_params(r, sp.fam, L_MODERATE, sp.num, ov); std::unique_ptr<IDist> d2(sp.make()); std::unique_ptr<IParam> p2; u64 who = r.pick(3);
        if (who == 1) { d2.reset(d2->make_vals(ov)); age(r, sp, *d2, true); } else if (who == 2 && !it.param) { d2.reset(it.d->clone()); age(r, sp, *d2, it.safe); if (r.pick(2)) { std::unique_ptr<IParam> q(d2->make_param(ov)); d2->set(*q); } }
        p2.reset(who ? d2->make_param(ov) : d2->get()); r.sig(who);
        try { if (it.param) p2->load(in); else d2->load(in); } catch (std::ios_base::failure&) {}
        if (in.fail()) r.fail("restore-fails", cat(sp.name, it.param ? " parameters" : "", show(it.v), ": operator>> failed on text written by operator<<"));
        C a = 0; unsigned n = 0; in >> a >> n; if (in.fail() || a != C('#') || n != 71) r.fail("stream-not-continued", cat(sp.name, it.param ? " parameters" : "", show(it.v), ": the data following the checkpoint could not be read"));
        if (it.param) {
            if (exact ? !p2->eq(*it.p) || it.p->ne(*p2) || p2->vals() != it.p->vals() : !same_params(sp.fam, p2->vals(), it.p->vals(), sp.num, false)) r.fail("parameters-differ", cat(sp.name, " parameters written ", show(it.p->vals()), " read back ", show(p2->vals())));
            std::unique_ptr<IDist> t(d2->make(*p2)); d2 = std::move(t);
            std::unique_ptr<IDist> w(it.d->make(*it.p)); it.d = std::move(w);
        }
        V x = it.d->acc(), y = d2->acc();
        if (exact ? !d2->eq(*it.d) || it.d->ne(*d2) || x != y : !same_params(sp.fam, x, y, sp.num, false)) r.fail("parameters-differ", cat(sp.name, " written with ", show(x), ", read back with ", show(y), exact ? " or not equal" : ""));
        if (it.safe) for (unsigned z = 0; z < 3; ++z) {
            int kind = (int)r.pick(NKINDS); Tape t = r.pick(4) ? Tape(r.pick64()) : Tape::hostile(r); Reader ra(t), rb(t); ra.budget = rb.budget = 6000;
            try { Val p = it.d->draw(ra, kind), q = d2->draw(rb, kind); r.ev(q.hash()); if (exact && (!p.same(q) || ra.idx != rb.idx)) r.fail("restored-draws-differ", cat(sp.name, show(it.v), ": original delivers ", p.str(), ", restored delivers ", q.str())); if (!exact && !inside(sp.fam, sp.fam == F_PWL || sp.fam == F_PWC || sp.fam == F_DISC || sp.fam == F_HYPER ? it.v : y, q, sp.num)) r.fail("restored-draws-differ", cat(sp.name, show(it.v), ": the restored distribution delivers ", q.str())); }
            catch (BudgetExceeded&) { break; }
        }
        // writing again gives the same text
        if (exact) { SimOut<C> b1, b2; std::basic_ostream<C> o1(&b1), o2(&b2); f.out(o1, digits10_of(sp.num)); f.out(o2, digits10_of(sp.num)); it.d->save(o1); d2->save(o2); if (b1.data != b2.data) r.fail("texts-differ", cat(sp.name, show(it.v), ": a restored distribution writes ", narrow_s(b2.data), ", the original ", narrow_s(b1.data))); }
    }
}
void checkpoint(Run& r) {
    unsigned n = 1 + (unsigned)r.pick(3); std::vector<Item> items;
    for (unsigned k = 0; k < n; ++k) {
        Item it; it.sp = &r.among(dists()); it.param = !(it.sp->flags & D_NOTEXT) && r.pick(3) == 0; Level l = r.pick(3) == 0 ? L_EXTREME : r.pick(2) ? L_WIDE : L_MODERATE; it.safe = l != L_EXTREME; r.sig(name_hash(it.sp->name)); r.sig(it.param);
        gen_params(r, it.sp->fam, l, it.sp->num, it.v); std::unique_ptr<IDist> proto(it.sp->make()); it.p.reset(proto->make_param(it.v));
        if (r.pick(8) == 0) { it.d = std::move(proto); it.v = it.d->acc(); it.safe = true; it.p.reset(it.d->get()); }
        else if (r.pick(2)) { it.d.reset(proto->make_vals(it.v)); } else { age(r, *it.sp, *proto, true); proto->set(*it.p); it.d = std::move(proto); }
        age(r, *it.sp, *it.d, it.safe); r.step(cat(it.sp->name, it.param ? " parameters" : "", show(it.v))); items.push_back(std::move(it));
    }
    Fmt f = Fmt::random(r); r.sig(f.wide + 2 * f.throwing + 4 * f.sci + 8 * f.grouping);
    for (auto& it : items) if (f.grouping && it.sp->num.max10 > 100 && 0) f.grouping = false;
    if (f.wide) go<wchar_t>(r, items, f); else go<char>(r, items, f);
}
// a service that crashes and restarts from its last checkpoint re-delivers the values lost since
void crash_restart(Run& r) {
    const DistSpec& sp = r.among(dists()); r.sig(name_hash(sp.name)); std::unique_ptr<IDist> d(sp.make()); V v = d->acc(); bool exact = sp.flags & D_EXACTIO; int kind = (int)r.pick(NKINDS);
    if (!exact) return checkpoint(r);
    Tape t(r.pick64()); u64 pos = 0, cpos = 0; std::string file; std::vector<Val> since; unsigned ops = 3 + (unsigned)r.pick(12);
    { SimOut<char> b; std::ostream o(&b); o.precision(digits10_of(sp.num)); d->save(o); file = b.data; }
    for (unsigned k = 0; k < ops; ++k) switch (r.pick(5)) {
        case 0: case 1: { Reader rd(t, pos); rd.budget = 6000; try { Val x = d->draw(rd, kind); since.push_back(x); r.ev(x.hash()); pos = rd.idx; } catch (BudgetExceeded&) { return; } break; }
        case 2: { gen_params(r, sp.fam, r.pick(2) ? L_MODERATE : L_WIDE, sp.num, v); std::unique_ptr<IParam> p(d->make_param(v)); d->set(*p); r.step(cat(sp.name, " param ", show(v))); SimOut<char> b; std::ostream o(&b); o.precision(digits10_of(sp.num)); d->save(o); file = b.data; cpos = pos; since.clear(); break; }
        case 3: { r.step("checkpoint"); SimOut<char> b; b.set_chunk(r.pick(20)); std::ostream o(&b); o.precision(digits10_of(sp.num)); d->save(o); o.flush(); file = b.data; cpos = pos; since.clear(); break; }
        default: { SIM_FAULT("client-crash"); r.step(cat("crash, ", since.size(), " values lost")); d.reset(sp.make()); SimIn<char> b(file); b.chunk = 1 + r.pick(20); std::istream in(&b); d->load(in); if (in.fail()) r.fail("restore-fails", cat(sp.name, show(v), ": operator>> failed on ", file)); pos = cpos;
            for (std::size_t i = 0; i < since.size(); ++i) { Reader rd(t, pos); rd.budget = 6000; Val x = d->draw(rd, kind); pos = rd.idx; if (!x.same(since[i])) r.fail("replay-differs", cat(sp.name, show(v), ": after a restart value ", i, " is ", x.str(), ", it was ", since[i].str())); } }
    }
}
}
int main(int argc, char** argv) {
    CheckInfo c; c.property = "P10";
    c.technique_rule = "One case is one seeded simulation: one to three distributions or parameter sets with histories (generated parameters from moderate to the extremes of the number format) written to a simulated stream (narrow or wide, buffered or not, formatting flags, grouping locale) and read back by readers with other histories through short reads, with other data following; or a service that draws, is re-parameterised, checkpoints, crashes and restarts. Parameters, equality, following data and delivered values are compared with the writer. Every case writes and reads at least once; cases are distinct when their shape signature differs.";
    c.worlds = { { "checkpoint", checkpoint, 5 }, { "crash-restart", crash_restart, 2 } };
    c.real = { "all distributions of boost/random (56 instantiations), their param_types and stream operators" };
    c.stub = { "streams' devices", "engines (entropy tapes)" };
    c.assumptions = { "streams write with max_digits10 digits" };
    c.quick_runs = 40000000; c.thorough_runs = 4000000000ull; c.quick_secs = 45; c.thorough_secs = 1500; c.hidden_state_is_violation = true;
    return run_main(argc, argv, c);
}
