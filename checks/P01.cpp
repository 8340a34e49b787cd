// P01: engine checkpoints survive crash and restart.
#include "hist.hpp"
using namespace sim;
namespace {
// A durable store: named files replaced atomically; a crash during a write leaves the old file
// and possibly a torn temporary one.
struct Record { std::string text; std::vector<char> order; StreamCfg cfg; };
struct Saved { std::unique_ptr<IEng> copy; std::unique_ptr<ref::Model> m; u64 pos; bool known; };

void separators(Run& r, bool grouping, std::string& sep, bool& literal) {
    switch (r.pick(grouping ? 4 : 6)) { case 0: sep = " "; literal = false; break; case 1: sep = "\n"; literal = false; break; case 2: sep = "\t \n"; literal = false; break;
        case 3: sep = "  "; literal = false; break; case 4: sep = ";"; literal = true; break; default: sep = "|"; literal = true; }
}
template<class OS> void write_record(OS& o, std::vector<std::unique_ptr<Hist> >& nodes, const std::vector<std::pair<unsigned, unsigned> >& items, const std::string& sep, bool trailer, int marker) {
    for (std::size_t k = 0; k < items.size(); ++k) {
        nodes[items[k].first]->s[items[k].second].e->save(o);
        bool last = k + 1 == items.size();
        if (!last || trailer) { for (char c : sep) o << static_cast<typename OS::char_type>(c); o << marker + (int)k; if (!last) o << static_cast<typename OS::char_type>(' '); }
    }
    o.flush();
}
void service(Run& r) {
    unsigned nn = 1 + (unsigned)r.pick(2);
    static unsigned long long thr[] = { 10000000ull, 10000000ull, 100 };
    sim_mt_threshold = thr[r.pick(3)];
    std::vector<std::unique_ptr<Hist> > nodes;
    for (unsigned k = 0; k < nn; ++k) nodes.emplace_back(new Hist(r, pick_engine(r), 1 + (unsigned)r.pick(2)));
    for (auto& h : nodes) for (unsigned i = 0; i < h->s.size(); ++i) if (r.chance(0.7)) h->reseed(i, false);
    // durable state: the last committed record (text + what it must mean)
    bool have = false; std::string text; StreamCfg cfg; std::string sep; bool literal = false, trailer = false; int marker = 0;
    std::vector<std::pair<unsigned, unsigned> > items; std::vector<Saved> snap;
    unsigned ops = 3 + (unsigned)r.pick(22);
    auto restore_all = [&](bool after_crash) {
        if (!have) return;
        r.step(cat("restore ", items.size(), " engines from the durable record (", cfg.describe(), ")")); r.sig(70 + items.size());
        StreamCfg in = cfg; in.throwing = r.chance(0.5); in.chunk = 1 + r.pick(64);
        with_in(in, text, [&](auto& is) {
            for (std::size_t k = 0; k < items.size(); ++k) {
                Slot& x = nodes[items[k].first]->s[items[k].second]; const char* nm = nodes[items[k].first]->spec.name;
                try { x.e->load(is); } catch (std::ios_base::failure&) { r.fail("restore-throws", cat(nm, ": operator>> threw on text written by operator<< (engine ", k + 1, " of ", items.size(), ", trailing data: ", trailer, ", separator '", sep, "')")); }
                if (is.fail()) r.fail("restore-fails", cat(nm, ": operator>> set an error state on text written by operator<< (engine ", k + 1, " of ", items.size(), ", trailing data: ", trailer, ", separator '", sep, "')"));
                bool last = k + 1 == items.size();
                if (!last || trailer) {
                    int v = -1; bool threw = false;
                    try { if (literal) { typename std::decay<decltype(is)>::type::char_type c; is >> c; if (c != static_cast<typename std::decay<decltype(is)>::type::char_type>(sep[0])) r.fail("rest-unreadable", cat(nm, ": operator>> consumed data after its own text")); } is >> v; }
                    catch (std::ios_base::failure&) { threw = true; }
                    if (threw || v != marker + (int)k) r.fail("rest-unreadable", cat(nm, ": data following the engine text is not readable after operator>> (read ", v, ", written ", marker + (int)k, ")"));
                }
                if (!x.e->eq(*snap[k].copy) || x.e->ne(*snap[k].copy)) r.fail("restored-differs", cat(nm, ": the restored engine does not compare equal to the engine that was saved"));
                x.m.reset(snap[k].m->clone()); x.known = snap[k].known; x.pos = snap[k].pos;
                nodes[items[k].first]->probe(items[k].second, nodes[items[k].first]->probe_len(), "restored-sequence", "after restoring a checkpoint");
                SIM_PROBE("checkpoint restored and verified");
                if (after_crash) SIM_PROBE("restart from durable checkpoint verified");
            }
        });
    };
    for (unsigned o = 0; o < ops; ++o) {
        unsigned n = (unsigned)r.pick(nodes.size()); Hist& h = *nodes[n]; unsigned i = (unsigned)r.pick(h.s.size());
        switch (r.pick(12)) {
        case 0: case 1: case 2: h.draw(i, h.burst()); break;
        case 3: h.discard(i, h.discard_amount()); break;
        case 4: h.bulk(i, r.pick(30)); break;
        case 5: h.reseed(i, false); break;
        case 6: h.copy(i, (unsigned)r.pick(h.s.size())); break;
        case 7: case 8: case 9: {   // checkpoint, possibly interrupted by a fault or a crash
            std::vector<std::pair<unsigned, unsigned> > it; 
            for (unsigned a = 0; a < nodes.size(); ++a) for (unsigned b = 0; b < nodes[a]->s.size(); ++b) if (r.chance(0.7)) it.push_back({ a, b });
            if (it.empty()) it.push_back({ n, i });
            StreamCfg c = StreamCfg::random(r); std::string sp; bool lit; separators(r, c.grouping, sp, lit); bool tr = r.chance(0.6); int mk = 1 + (int)r.pick(900);
            u64 est = 0; for (auto& q : it) est += nodes[q.first]->spec.state * 12;
            OutFault f = r.chance(0.25) ? (OutFault)(1 + r.pick(3)) : OUT_NONE; std::size_t lim = r.pick(est + 20); bool crash = r.chance(0.2);
            if (crash && f == OUT_NONE) { f = OUT_THROW; SIM_FAULT("crash-during-checkpoint"); }
            r.step(cat("checkpoint ", it.size(), " engines (", c.describe(), ")", f ? " onto a failing device" : "", crash ? ", crash" : "")); r.sig(80 + f + 4 * crash);
            std::vector<Saved> sn; for (auto& q : it) { Slot& x = nodes[q.first]->s[q.second]; Saved v; v.copy.reset(x.e->clone()); v.m.reset(x.m->clone()); v.pos = x.pos; v.known = x.known; sn.push_back(std::move(v)); }
            bool good = false; std::string txt;
            auto go = [&](auto& buf, auto& os) {
                buf.limit = lim; buf.fault = f; buf.set_chunk(c.chunk); c.apply(os, true); int w0 = (int)os.precision();
                std::ios_base::fmtflags fl = os.flags();
                try { write_record(os, nodes, it, sp, tr, mk); good = os.good(); }
                catch (std::ios_base::failure&) { good = false; } catch (IoError&) { good = false; }
                if (good && (os.flags() != fl || os.precision() != w0)) r.fail("format-changed", "a checkpoint write left the stream's formatting changed");
                txt = narrow_s(buf.data);
                if (good && f != OUT_NONE && buf.fired) { if (f != OUT_NONE) r.fail("lost-write", "the device lost part of a checkpoint but the stream stayed good"); }
            };
            if (c.wide) { SimOut<wchar_t> b; std::wostream os(&b); go(b, os); } else { SimOut<char> b; std::ostream os(&b); go(b, os); }
            for (std::size_t k = 0; k < it.size(); ++k) { Slot& x = nodes[it[k].first]->s[it[k].second]; if (!x.e->eq(*sn[k].copy)) r.fail("write-changes-engine", cat(nodes[it[k].first]->spec.name, ": writing a checkpoint changed the engine")); }
            if (good) { have = true; text = txt; cfg = c; sep = sp; literal = lit; trailer = tr; marker = mk; items = it; snap = std::move(sn); SIM_PROBE("checkpoint committed"); r.ev(text.size()); }
            if (crash) goto do_crash;
            break; }
        case 10: restore_all(false); break;
        default: do_crash: {
            SIM_FAULT("crash-restart"); r.step("crash: all objects lost");
            for (auto& hp : nodes) for (unsigned b = 0; b < hp->s.size(); ++b) {
                Slot& x = hp->s[b]; x.e.reset(); x.e.reset(hp->spec.make()); x.m.reset(hp->spec.model()); x.known = true; x.pos = 0;
                if (r.chance(0.3)) hp->reseed(b, false); if (r.chance(0.4)) hp->draw(b, hp->burst());       // any history before the restore
            }
            restore_all(true);
            break; }
        }
    }
    restore_all(false);
    for (auto& h : nodes) for (unsigned b = 0; b < h->s.size(); ++b) h->draw(b, r.pick(12));
}
}
int main(int argc, char** argv) {
    CheckInfo c; c.property = "P01";
    c.technique_rule = "One case is one seeded simulation: 1-2 engine types (1-2 objects each) drawn, discarded, bulk-read, reseeded and copied under a seeded scheduler while a checkpoint service writes them to a simulated device (torn, full, failing, transiently failing; narrow/wide; exception mask on/off; varied format flags) and crash/restart events destroy every object; non-trivial because every case performs operations on live engines, and two cases are distinct when their shape signature (engine types, operation kinds, faults, restore sizes) differs.";
    c.worlds = { { "checkpoint-service", service, 1 } };
    c.real = { "all engines and adaptors of boost/random (54 instantiations, incl. every predefined engine)", "their operator<< / operator>> / operator==" };
    c.stub = { "storage device and crash behaviour (SimOut/SimIn stream buffers, atomic-rename store)", "seed sources", "allocator contents" };
    c.assumptions = { "reader and writer streams use the same base (dec/hex) and locale", "reference models in sim/ref.hpp are correct" };
    c.quick_runs = 4000000; c.thorough_runs = 400000000; c.quick_secs = 45; c.thorough_secs = 1500;
    return run_main(argc, argv, c);
}
