// P05: I/O failure during save or restore is reported and contained.
#include "hist.hpp"
#include "dist.hpp"
#include <algorithm>
using namespace sim;
namespace {
u64 tokens(const std::string& t) {         // whitespace-separated words; brackets count on their own
    u64 n = 0; bool in = false;
    for (char c : t) { bool sp = c == ' ' || c == '\n' || c == '\t' || c == '\r', br = c == '[' || c == ']' || c == '{' || c == '}' || c == ','; if (br) { ++n; in = false; } else if (sp) in = false; else if (!in) { in = true; ++n; } }
    return n;
}
std::vector<std::pair<std::size_t, std::size_t> > words(const std::string& t) {
    std::vector<std::pair<std::size_t, std::size_t> > w; std::size_t i = 0;
    while (i < t.size()) { while (i < t.size() && (t[i] == ' ' || t[i] == '\n')) ++i; std::size_t b = i; while (i < t.size() && t[i] != ' ' && t[i] != '\n') ++i; if (i > b) w.push_back(std::make_pair(b, i)); }
    return w;
}
enum Spoil { SP_TRUNC, SP_FLIP, SP_DROP, SP_REPLACE, SP_TORN, SP_SWAP, SP_EIO, SP_EIO_ONCE, SP_DUP, SP_KINDS };
struct Damage { Spoil k; std::size_t at; std::string text, how; };
Damage damage(Run& r, const std::string& t, const std::string& other) {
    Damage d; d.k = (Spoil)r.pick(SP_KINDS); d.at = t.empty() ? 0 : r.pick(3) == 0 ? t.size() - 1 - r.pick(std::min<u64>(t.size(), 12)) : r.pick(t.size()); d.text = t; auto w = words(t); std::size_t wi = w.empty() ? 0 : r.pick(3) == 0 ? w.size() - 1 : r.pick(w.size()); r.sig(300 + d.k);
    switch (d.k) {
    case SP_TRUNC: d.text.resize(d.at); SIM_FAULT("checkpoint-truncated"); d.how = cat("truncated at ", d.at, " of ", t.size()); break;
    case SP_FLIP: { static const char ch[] = "0123456789-+.ex \n[]{},;:\0z"; if (!t.empty()) d.text[d.at] = r.pick(4) == 0 ? (char)(t[d.at] ^ (1 << r.pick(7))) : ch[r.pick(27)]; SIM_FAULT("checkpoint-byte-damaged"); d.how = cat("character ", d.at, " damaged"); break; }
    case SP_DROP: if (!w.empty()) d.text.erase(w[wi].first, w[wi].second - w[wi].first); SIM_FAULT("checkpoint-token-lost"); d.how = cat("token ", wi, " lost"); break;
    case SP_DUP: if (!w.empty()) d.text.insert(w[wi].first, t.substr(w[wi].first, w[wi].second - w[wi].first) + " "); SIM_FAULT("checkpoint-token-duplicated"); d.how = cat("token ", wi, " duplicated"); break;
    case SP_REPLACE: { static const char* v[] = { "0", "1", "2", "-1", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "2147483647", "-2147483648", "99999999999999999999999", "0.5", "1e400", "nan", "inf", "-0", "7fffffff", "1e-320", "2147483648", "2305843009213693951", "-9223372036854775808", "255", "65536" };
        if (!w.empty()) d.text.replace(w[wi].first, w[wi].second - w[wi].first, v[r.pick(sizeof v / sizeof *v)]); SIM_FAULT("checkpoint-token-damaged"); d.how = cat("token ", wi, " replaced"); break; }
    case SP_TORN: { std::size_t c = std::min(d.at, other.size()); d.text = t.substr(0, c) + other.substr(c); SIM_FAULT("checkpoint-torn-write"); d.how = cat("new up to ", c, ", old after it"); break; }
    case SP_SWAP: { if (w.size() > 1) { std::size_t wj = r.pick(w.size()); std::size_t a = std::min(wi, wj), b = std::max(wi, wj); if (a != b) { std::string x = t.substr(w[a].first, w[a].second - w[a].first), y = t.substr(w[b].first, w[b].second - w[b].first); d.text = t.substr(0, w[a].first) + y + t.substr(w[a].second, w[b].first - w[a].second) + x + t.substr(w[b].second); } } SIM_FAULT("checkpoint-tokens-exchanged"); d.how = "two tokens exchanged"; break; }
    case SP_EIO: d.how = cat("read error from ", d.at); break;
    default: d.how = cat("one read error at ", d.at); break;
    }
    return d;
}
struct Outcome { bool accepted, fired; };
// read through a simulated device; accepted: no exception and stream not failed
template<class F> Outcome read(Run& r, const Damage& d, const StreamCfg& c, F f, const std::string& name) {
    Outcome o = { false, false };
    auto go = [&](auto& b, auto& is) {
        if (d.k == SP_EIO) b.fault = IN_THROW; else if (d.k == SP_EIO_ONCE) b.fault = IN_THROW_ONCE; b.at = d.at; b.chunk = c.chunk; c.apply(is, false); bool threw = false;
        try { f(is); } catch (std::ios_base::failure&) { threw = true; } catch (IoError&) { threw = true; } catch (std::bad_alloc&) { threw = true; } catch (BudgetExceeded&) { r.fail("restore-hangs", cat(name, ": operator>> does not finish on bad input")); }
        o.accepted = !threw && !is.fail(); o.fired = b.fired;
    };
    if (c.wide) { SimIn<wchar_t> b(widen_s<wchar_t>(d.text)); std::wistream is(&b); go(b, is); } else { SimIn<char> b(d.text); std::istream is(&b); go(b, is); }
    return o;
}
// write through a simulated failing device.  returns true if success was reported
template<class F> bool write(Run& r, const StreamCfg& c, OutFault k, std::size_t limit, const std::string& intact, std::string& out, F f, const std::string& name, bool dist_prec = false, int prec = 0) {
    bool ok = false;
    auto go = [&](auto& b, auto& o) {
        b.set_chunk(c.chunk); b.limit = limit; b.fault = k; c.apply(o, true); if (dist_prec) o.precision(prec); std::ios_base::fmtflags fl = o.flags(); std::streamsize pr = o.precision(); auto fill = o.fill(); bool threw = false; std::locale loc = o.getloc();
        try { f(o); } catch (std::ios_base::failure&) { threw = true; } catch (IoError&) { threw = true; }
        if (o.flags() != fl || o.precision() != pr || o.fill() != fill || !(o.getloc() == loc)) r.fail("save-changed-stream", cat(name, ": a save changed the stream's formatting", b.fired ? " when the device failed" : ""));
        try { if (!threw) o.flush(); } catch (std::ios_base::failure&) { threw = true; } catch (IoError&) { threw = true; }
        ok = !threw && o.good(); out = narrow_s(b.data);
        if (b.fired && ok) r.fail("save-error-silent", cat(name, ": the device failed during operator<< and neither the stream nor an exception reports it"));
        if (!b.fired && !ok) r.fail("save-failed", cat(name, ": operator<< reported an error on a working device"));
    };
    if (c.wide) { SimOut<wchar_t> b; std::wostream o(&b); go(b, o); } else { SimOut<char> b; std::ostream o(&b); go(b, o); }
    if (ok && out != intact) r.fail("save-silent-loss", cat(name, ": the text stored by a save that reported success is not the state"));
    return ok;
}
void warm(Run& r, Hist& h, unsigned i) { unsigned n = (unsigned)r.pick(4); for (unsigned k = 0; k < n; ++k) switch (r.pick(5)) { case 0: h.draw(i, h.burst()); break; case 1: h.discard(i, h.discard_amount()); break; case 2: h.bulk(i, r.pick(20)); break; default: h.reseed(i, false); } }
void recover(Run& r, Hist& h, unsigned i, unsigned src, const char* when) {
    switch (r.pick(4)) {
    case 0: h.carry_over(src, i, StreamCfg::random(r)); break;
    case 1: h.copy(src, i); break;
    default: h.reseed(i, false);
    }
    if (!h.s[i].known) h.reseed(i, false);      // swapped
    if (!h.s[src].known) h.reseed(src, false);
    h.probe(i, h.probe_len(), "not-recovered", cat("after recovering from ", when));
    if (h.s[i].known) { std::unique_ptr<IEng> c(h.s[i].e->clone()); if (!c->eq(*h.s[i].e)) r.fail("not-recovered", cat(h.spec.name, ": a copy differs from the recovered engine")); }
    h.draw(i, r.pick(20));
}
OutFault out_fault(Run& r) { static const OutFault f[] = { OUT_NONE, OUT_FULL, OUT_THROW, OUT_TRANSIENT }; return f[r.pick(4)]; }
void engine_save(Run& r) {
    const EngSpec& sp = pick_engine(r, 20000); Hist h(r, sp, 1); warm(r, h, 0);
    unsigned rounds = 1 + (unsigned)r.pick(3);
    for (unsigned k = 0; k < rounds; ++k) {
        StreamCfg c = StreamCfg::random(r); std::string t = h.save_text(0, c), out; OutFault f = out_fault(r); std::size_t lim = r.pick(3) == 0 ? t.size() - std::min<std::size_t>(t.size(), r.pick(8)) : r.pick(t.size() + 2); std::unique_ptr<IEng> before(h.s[0].e->clone());
        r.step(cat("save to a device with room for ", lim, " of ", t.size(), " characters, ", c.describe(), " fault ", (int)f));
        write(r, c, f, lim, t, out, [&](auto& o) { h.s[0].e->save(o); }, sp.name);
        if (!before->eq(*h.s[0].e)) r.fail("save-changed-object", cat(sp.name, ": a save changed the engine"));
        h.probe(0, h.probe_len(), "save-changed-object", "after a save"); h.draw(0, h.burst());
    }
}
void engine_load(Run& r) {
    const EngSpec& sp = pick_engine(r, 20000); Hist h(r, sp, 2); warm(r, h, 0); warm(r, h, 1);
    unsigned rounds = 1 + (unsigned)r.pick(3);
    for (unsigned k = 0; k < rounds; ++k) {
        StreamCfg c = StreamCfg::random(r, false), w; std::string other = h.save_text(0, w); if (r.pick(2)) h.draw(0, h.burst()); std::string t = h.save_text(0, w);
        Damage d = damage(r, t, other); r.step(cat("#1 restored from a checkpoint of #0, ", d.how, ", ", c.describe())); if (r.verbose && t.size() < 300) r.note("   text: " + d.text);
        Outcome o = read(r, d, c, [&](auto& is) { h.s[1].e->load(is); }, sp.name); r.sig(o.accepted); r.ev(o.accepted);
        if (o.accepted && o.fired) r.fail("read-error-accepted", cat(sp.name, ": the device failed during operator>> and success was reported"));
        bool complete = d.text == t; if (o.accepted && (d.k == SP_TRUNC || d.k == SP_DROP) && tokens(d.text) < tokens(t)) r.fail("incomplete-accepted", cat(sp.name, ": a checkpoint with ", tokens(d.text), " of ", tokens(t), " tokens was accepted"));
        if (complete && !o.fired && !o.accepted) r.fail("intact-rejected", cat(sp.name, ": an intact checkpoint was rejected"));
        h.s[1].known = false;
        if (o.accepted) {
            SIM_PROBE(complete ? "intact checkpoint accepted" : "damaged but complete checkpoint accepted");
            if (complete) { h.s[1].m.reset(h.s[0].m->clone()); h.s[1].known = true; h.s[1].id = h.s[0].id; h.s[1].pos = h.s[0].pos; h.probe(1, h.probe_len(), "restored-differs", "after an accepted restore"); }
            // in service: everything must be safe and consistent
            IEng& e = *h.s[1].e; std::unique_ptr<IEng> cp(e.clone()); bool strict = complete || !(sp.flags & ENG_REAL); if (strict && (!cp->eq(e) || cp->ne(e))) r.fail("accepted-inconsistent", cat(sp.name, ": an engine restored with success differs from its copy"));
            std::string t2 = h.save_text(1, w); std::unique_ptr<IEng> back(e.fresh()); with_in(w, t2, [&](auto& is) { back->load(is); if (strict && is.fail()) r.fail("accepted-inconsistent", cat(sp.name, ": restore succeeded from ", d.how, " text but the engine's own checkpoint is rejected")); });
            if (strict && !back->eq(e)) r.fail("accepted-inconsistent", cat(sp.name, ": restore succeeded (", d.how, ") but the engine's own checkpoint restores to a different engine"));
            u64 n = h.probe_len(); for (u64 i = 0; i < n; ++i) { u64 a = cp->draw(), b = back->draw(); if (strict && a != b && !h.canonical_equal(a, b)) r.fail("accepted-inconsistent", cat(sp.name, ": restore succeeded (", d.how, ") but a checkpoint of the engine continues differently at draw ", i)); if (!cp->last_in_range()) SIM_PROBE("damaged text put an engine outside its range"); }
            h.discard(1, r.pick(3 * sp.state + 10)); h.draw(1, h.burst()); e.eq(*h.s[0].e);
        } else SIM_PROBE("bad checkpoint rejected");
        if (r.pick(3) || k + 1 == rounds) recover(r, h, 1, 0, "a bad restore");
    }
}
// a service checkpointing to unreliable storage: it trusts only saves that reported success,
// and after a crash restores the newest of them, retrying failed reads
void service(Run& r) {
    const EngSpec& sp = pick_engine(r, 2000); Hist h(r, sp, 1); struct File { std::string t; std::unique_ptr<ref::Model> m; u64 id, pos; StreamCfg c; }; std::vector<File> good; unsigned ops = 4 + (unsigned)r.pick(16);
    auto keep = [&](const std::string& t, const StreamCfg& c) { File f; f.t = t; f.m.reset(h.s[0].m->clone()); f.id = h.s[0].id; f.pos = h.s[0].pos; f.c = c; good.push_back(std::move(f)); };
    h.reseed(0, false); { StreamCfg c; keep(h.save_text(0, c), c); }
    for (unsigned k = 0; k < ops; ++k) switch (r.pick(6)) {
        case 0: case 1: h.draw(0, h.burst()); break;
        case 2: if (r.pick(3) == 0) h.reseed(0, false); else h.discard(0, h.discard_amount()); break;
        case 3: case 4: { StreamCfg c = StreamCfg::random(r); std::string t = h.save_text(0, c), out; OutFault f = out_fault(r); std::size_t lim = r.pick(t.size() + 10); r.step("checkpoint"); if (write(r, c, f, lim, t, out, [&](auto& o) { h.s[0].e->save(o); }, sp.name)) keep(out, c); else r.step("checkpoint failed"); break; }
        default: {
            SIM_FAULT("crash"); if (r.pick(2)) h.s[0].e.reset(h.s[0].e->fresh()); File& g = good.back(); bool up = false;
            for (unsigned tries = 0; tries < 4 && !up; ++tries) { Damage d; d.text = g.t; d.at = r.pick(g.t.size()); d.k = tries == 3 ? SP_DUP : r.pick(2) ? SP_EIO : r.pick(2) ? SP_EIO_ONCE : SP_DUP; r.step(cat("restart, attempt ", tries)); Outcome o = read(r, d, g.c, [&](auto& is) { h.s[0].e->load(is); }, sp.name); if (o.accepted && o.fired) r.fail("read-error-accepted", cat(sp.name, ": the device failed during operator>> and success was reported")); up = o.accepted; if (!o.fired && !up) r.fail("intact-rejected", cat(sp.name, ": an intact checkpoint was rejected after failed attempts")); }
            if (!up) r.fail("intact-rejected", cat(sp.name, ": never restored"));
            h.s[0].m.reset(g.m->clone()); h.s[0].known = true; h.s[0].id = g.id; h.s[0].pos = g.pos; h.probe(0, h.probe_len(), "restored-differs", "after restoring the newest successful checkpoint"); break; }
    }
    h.draw(0, h.burst());
}
// ---- distributions ------------------------------------------------------------
int prec_of(const Num& n) { return (int)std::ceil(n.digits * 0.30103) + 1; }
std::string text_of(const DistSpec& sp, const IDist* d, const IParam* p, const StreamCfg& c) {
    auto go = [&](auto& b, auto& o) { c.apply(o, true); o.precision(prec_of(sp.num)); if (d) d->save(o); else p->save(o); o.flush(); return narrow_s(b.data); };
    if (c.wide) { SimOut<wchar_t> b; std::wostream o(&b); return go(b, o); } SimOut<char> b; std::ostream o(&b); return go(b, o);
}
const DistSpec& pick_dist(Run& r) { for (;;) { const DistSpec& s = r.among(dists()); if (!(s.flags & D_NOTEXT)) return s; if (r.pick(2) == 0) { return dists()[0]; } } }
void age(Run& r, IDist& d) { unsigned n = (unsigned)r.pick(3); for (unsigned k = 0; k < n; ++k) { Tape t(r.pick64()); Reader rd(t); rd.budget = 6000; try { d.draw(rd, (int)r.pick(NKINDS)); } catch (BudgetExceeded&) {} } }
StreamCfg dist_cfg(Run& r) { StreamCfg c = StreamCfg::random(r); c.hex = c.grouping = false; return c; }
void dist_save(Run& r) {
    const DistSpec& sp = pick_dist(r); r.sig(name_hash(sp.name)); V v; gen_params(r, sp.fam, r.pick(2) ? L_MODERATE : L_WIDE, sp.num, v); std::unique_ptr<IDist> d(sp.make()); d.reset(d->make_vals(v)); age(r, *d); std::unique_ptr<IParam> p(d->get()); bool par = r.pick(3) == 0;
    StreamCfg c = dist_cfg(r); std::string t = text_of(sp, par ? 0 : d.get(), p.get(), c), out; OutFault f = out_fault(r); std::size_t lim = r.pick(t.size() + 2); std::unique_ptr<IDist> before(d->clone()); std::string nm = cat(sp.name, par ? " parameters" : "", show(v));
    r.step(cat("save ", nm, " to a device with room for ", lim, " of ", t.size(), " characters, ", c.describe(), " fault ", (int)f));
    write(r, c, f, lim, t, out, [&](auto& o) { if (par) p->save(o); else d->save(o); }, nm, true, prec_of(sp.num));
    std::unique_ptr<IParam> p2(d->get()); if (!before->eq(*d) || !p2->eq(*p)) r.fail("save-changed-object", cat(nm, ": a save changed the distribution"));
    Tape tp(r.pick64()); Reader ra(tp), rb(tp); ra.budget = rb.budget = 6000; int kind = (int)r.pick(NKINDS);
    try { Val a = before->draw(ra, kind), b = d->draw(rb, kind); r.ev(a.hash()); if (!a.same(b)) r.fail("save-changed-object", cat(nm, ": a save changed what the distribution delivers")); } catch (BudgetExceeded&) {}
}
void dist_load(Run& r) {
    const DistSpec& sp = pick_dist(r); r.sig(name_hash(sp.name)); bool par = r.pick(3) == 0, exact = sp.flags & D_EXACTIO; V v, v0; std::unique_ptr<IDist> proto(sp.make());
    gen_params(r, sp.fam, r.pick(2) ? L_MODERATE : L_WIDE, sp.num, v0); std::unique_ptr<IDist> d(proto->make_vals(v0)); age(r, *d); std::unique_ptr<IParam> p(d->get());
    unsigned rounds = 1 + (unsigned)r.pick(3);
    for (unsigned k = 0; k < rounds; ++k) {
        gen_params(r, sp.fam, r.pick(2) ? L_MODERATE : L_WIDE, sp.num, v); std::unique_ptr<IDist> w(proto->make_vals(v)); std::unique_ptr<IParam> wp(w->get()); StreamCfg c = StreamCfg::random(r, false), pl;
        V vo; gen_params(r, sp.fam, L_MODERATE, sp.num, vo); std::unique_ptr<IDist> wo(proto->make_vals(vo)); std::string t = text_of(sp, par ? 0 : w.get(), wp.get(), pl), other = text_of(sp, wo.get(), 0, pl); if (par) { std::unique_ptr<IParam> q(wo->get()); other = text_of(sp, 0, q.get(), pl); }
        Damage d1 = damage(r, t, other); if (sp.fam == F_SPHERE && d1.k == SP_REPLACE) d1.text = "12";
        std::string nm = cat(sp.name, par ? " parameters" : ""); r.step(cat(nm, " restored from text of ", show(v), ", ", d1.how, ", ", c.describe())); if (r.verbose) r.note("   text: " + d1.text);
        Outcome o = read(r, d1, c, [&](auto& is) { if (par) p->load(is); else d->load(is); }, nm); r.sig(o.accepted); r.ev(o.accepted);
        if (o.accepted && o.fired) r.fail("read-error-accepted", cat(nm, ": the device failed during operator>> and success was reported"));
        bool scalar = !(sp.flags & D_VEC), tail = d1.k == SP_TRUNC;
        if (o.accepted && (tail || (scalar && d1.k == SP_DROP)) && tokens(d1.text) < tokens(t)) r.fail("incomplete-accepted", cat(nm, ": text with ", tokens(d1.text), " of ", tokens(t), " tokens was accepted: ", d1.text));
        bool complete = d1.text == t; if (complete && !o.fired && !o.accepted) r.fail("intact-rejected", cat(nm, show(v), ": an intact checkpoint was rejected"));
        if (o.accepted) {
            SIM_PROBE(complete ? "intact parameters accepted" : "damaged but complete parameters accepted");
            std::unique_ptr<IDist> use; if (par) { V pv = p->vals(); if (in_domain(sp, pv)) use.reset(d->make(*p)); } else use.reset(d->clone());
            if (use) {
                V a = use->acc(); r.step(cat("accepted as ", show(a)));
                if (complete && !same_params(sp.fam, a, w->acc(), sp.num, false)) r.fail("restored-differs", cat(nm, show(v), ": restored as ", show(a)));
                std::unique_ptr<IDist> cp(use->clone()); cp->eq(*use);
                if (in_domain(sp, a)) {
                    SIM_PROBE("drawn after an accepted damaged restore"); std::unique_ptr<IParam> q(use->get()); if (!q->eq(*q)) r.fail("accepted-inconsistent", cat(nm, show(a), ": param() differs from itself")); std::string again = text_of(sp, use.get(), 0, pl); r.ev(again); if (!cp->eq(*use)) r.fail("accepted-inconsistent", cat(nm, show(a), ": differs from its copy")); std::unique_ptr<IDist> dir; if (exact && sp.fam != F_LOGN_OLD) dir.reset(proto->make_vals(a)); int kind = (int)r.pick(NKINDS); Tape tp(r.pick64()); Reader ra(tp), rb(tp); ra.budget = rb.budget = 200000;
                    try { for (int z = 0; z < 3; ++z) { Val x = use->draw(ra, kind); r.ev(x.hash()); if (dir) { Val y = dir->draw(rb, kind); if (!x.same(y) || ra.idx != rb.idx) r.fail("accepted-inconsistent", cat(nm, ": accepted as ", show(a), " but delivers ", x.str(), " instead of ", y.str())); } if (!inside(sp.fam, a, x, sp.num) && exact) r.fail("accepted-inconsistent", cat(nm, ": accepted as ", show(a), " but delivers ", x.str())); } }
                    catch (BudgetExceeded&) { if (!(sp.fam == F_UINT && kind == 11)) r.fail("accepted-hangs", cat(nm, ": accepted as ", show(a), " but a draw does not finish")); }
                } else SIM_PROBE("accepted outside the documented domain");
            }
        } else SIM_PROBE("bad parameters rejected");
        // back to service
        if (r.pick(3) || k + 1 == rounds) {
            V n; gen_params(r, sp.fam, L_MODERATE, sp.num, n); std::unique_ptr<IParam> np(proto->make_param(n)); u64 way = r.pick(4); r.step(cat("recover with ", show(n), " way ", way));
            switch (way) { case 0: if (par) { p->assign(*np); d->set(*p); } else d->set(*np); break;
                case 1: { std::unique_ptr<IDist> x(proto->make(*np)); d->assign(*x); break; }
                default: { std::unique_ptr<IDist> x(proto->make(*np)); std::string tx = text_of(sp, x.get(), 0, pl); if (par) { std::string tp = text_of(sp, 0, np.get(), pl); with_in(pl, tp, [&](auto& is) { p->load(is); if (is.fail()) r.fail("not-recovered", cat(nm, ": intact text rejected: ", tp)); }); if (exact && !p->eq(*np)) r.fail("not-recovered", cat(nm, ": not equal after an intact restore")); d->set(*p); } else with_in(pl, tx, [&](auto& is) { d->load(is); if (is.fail()) r.fail("not-recovered", cat(nm, ": intact text rejected: ", tx)); }); } }
            std::unique_ptr<IDist> fr(proto->make(*np)); if (!same_params(sp.fam, d->acc(), fr->acc(), sp.num, false)) r.fail("not-recovered", cat(nm, ": recovered with ", show(d->acc()), ", wanted ", show(n)));
            Tape tp(r.pick64()); Reader ra(tp), rb(tp); ra.budget = rb.budget = 20000; int kind = (int)r.pick(NKINDS); bool same = exact && (!par || true);
            try { for (int z = 0; z < 3; ++z) { Val x = d->draw(ra, kind), y = fr->draw(rb, kind); r.ev(x.hash()); if (same && (!x.same(y) || ra.idx != rb.idx)) r.fail("not-recovered", cat(nm, show(n), ": after recovery it delivers ", x.str(), " instead of ", y.str())); if (!inside(sp.fam, sp.fam == F_PWL || sp.fam == F_PWC || sp.fam == F_DISC || sp.fam == F_HYPER ? n : fr->acc(), x, sp.num)) r.fail("not-recovered", cat(nm, show(n), ": after recovery it delivers ", x.str())); if (!exact) break; } } catch (BudgetExceeded&) {}
        }
        { V a = d->acc(); if (!in_domain(sp, a)) { std::unique_ptr<IDist> x(proto->make_vals(v0)); d = std::move(x); } p.reset(d->get()); }
    }
}
}
int main(int argc, char** argv) {
    CheckInfo c; c.property = "P05";
    c.technique_rule = "One case is one seeded simulation: an engine, distribution or parameter set with a generated history is saved to or restored from a simulated device that fills up, fails with an exception, writes short once, delivers truncated, damaged, torn, duplicated or reordered text, or fails reads permanently or once; or a service checkpoints to unreliable storage, crashes and restarts from its newest successful checkpoint with retries. Reporting, stream state, object state, safety (AddressSanitizer, step budget) and recovery are compared with the reference model or a fresh object. Every case performs at least one save or restore; cases are distinct when their shape signature differs.";
    c.worlds = { { "engine-save", engine_save, 3 }, { "engine-load", engine_load, 6 }, { "service", service, 2 }, { "distribution-save", dist_save, 3 }, { "distribution-load", dist_load, 6 } };
    c.real = { "all engines and adaptors of boost/random and their stream operators", "all distributions of boost/random (56 instantiations), their param_types and stream operators" };
    c.stub = { "streams' devices (storage)", "engines under distributions (entropy tapes)", "seed sources" };
    c.assumptions = { "distributions are drawn from after a restore only when the accepted parameters lie in the documented domain at practical magnitudes" };
    c.quick_runs = 40000000; c.thorough_runs = 4000000000ull; c.quick_secs = 50; c.thorough_secs = 1500;
    return run_main(argc, argv, c);
}
