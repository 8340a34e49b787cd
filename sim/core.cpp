#include "core.hpp"
#include <atomic>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <cerrno>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <map>
#include <set>
#include <fstream>
#include <iostream>
#include <iomanip>

extern "C" const char* __asan_get_report_description() __attribute__((weak));

namespace sim {
enum { MAXPICKS = 1 << 20, MAXV = 32, MAXW = 64, MAXSIG = 1 << 22, NAME = 96 };
struct VRec { u64 idx; int slot; char cls[200]; char msg[2000]; };
enum { MAXORDER = 1 << 19 };
struct WorkerSlot {
    volatile u64 cur;          // run index + 1, 0 = idle
    volatile u64 events, hash;
    char assert_msg[600];
    char last[400];
    Counters counters;
    u64 runs, events_total, steps, faults, rec_total, faulted_runs;
};
struct Shared {
    std::atomic<u64> next; std::atomic<int> nviol; std::atomic<int> stop;
    std::atomic<int> reglock; std::atomic<int> nnames;
    char names[MAX_COUNTERS][NAME];
    VRec viol[MAXV];
    WorkerSlot w[MAXW];
    // trial area
    volatile u64 tr_status, tr_events, tr_hash, tr_npicks, tr_sig;
    char tr_cls[200], tr_msg[2000], tr_last[400], tr_assert[600];
    u64 picks[MAXPICKS];
    u32 order[MAXW][MAXORDER]; u64 norder[MAXW];      // runs each worker process executed, in order
    u64 sigs[MAXSIG]; u64 hashes[MAXSIG];
};
static Shared* S = 0;
static WorkerSlot* myslot = 0;
static bool in_trial = false;
Counters* g_counters = 0;
static Counters dummy_counters;
Run* R = 0;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int counter_id(const char* kind, const char* name) {
    char full[NAME]; std::snprintf(full, sizeof full, "%s:%s", kind, name);
    int exp = 0;
    while (!S->reglock.compare_exchange_weak(exp, 1)) exp = 0;
    int n = S->nnames, r = -1;
    for (int i = 0; i < n; ++i) if (!std::strcmp(S->names[i], full)) { r = i; break; }
    if (r < 0 && n < MAX_COUNTERS) { std::strcpy(S->names[n], full); r = n; S->nnames = n + 1; }
    S->reglock = 0;
    return r;
}

u64 Run::pick(u64 n) {
    u64 v;
    if (replaying) {
        v = pos < in.size() ? in[pos] : 0;
        if (n) v %= n;
    } else v = n ? prng.below(n) : prng.next();
    ++pos;
    rec.push_back(v);
    if (in_trial && rec.size() <= MAXPICKS) { S->picks[rec.size() - 1] = v; S->tr_npicks = rec.size(); }
    return v;
}
static int g_tracefd = -1; static std::size_t g_tracebytes = 0;
void Run::note(const std::string& s) {
    last = s;
    if (verbose && g_tracefd >= 0 && g_tracebytes < 400000) {       // written at once: survives a crash of the run
        std::string l = s + "\n"; g_tracebytes += l.size(); std::size_t off = 0;
        while (off < l.size()) { ssize_t k = write(g_tracefd, l.data() + off, l.size() - off); if (k <= 0) break; off += k; }
    }
}
void Run::publish() {
    if (in_trial) { S->tr_events = events; S->tr_hash = hash; }
    else if (myslot) { myslot->events = events; myslot->hash = hash; }
}

static void set_hang_timer(double secs) {
    itimerval it; std::memset(&it, 0, sizeof it);
    it.it_value.tv_sec = (long)secs; it.it_value.tv_usec = (long)((secs - (long)secs) * 1e6);
    setitimer(ITIMER_VIRTUAL, &it, 0);
}
static double g_hang_secs = 20;

static const World* choose_world(const CheckInfo& info, Run& r) {
    u64 tot = 0; for (auto& w : info.worlds) tot += w.weight;
    u64 x = r.pick(tot);
    for (auto& w : info.worlds) { if (x < w.weight) return &w; x -= w.weight; }
    return &info.worlds.back();
}
// returns true if ok; false with v filled
static bool execute(const CheckInfo& info, Run& r, Violation& v) {
    R = &r;
    bool ok = true;
    set_hang_timer(g_hang_secs);
    try {
        const World* w = choose_world(info, r);
        r.sig(name_hash(w->name));
        r.step(cat("world ", w->name));
        w->run(r);
    } catch (Violation& e) { v = e; ok = false; }
    catch (BudgetExceeded&) { v.cls = "livelock"; v.msg = "step budget exhausted outside any guarded operation: " + r.last; ok = false; }
    catch (std::exception& e) { v.cls = "unexpected-exception"; v.msg = cat("unexpected exception escaped the workload: ", e.what(), " after: ", r.last); ok = false; }
    set_hang_timer(0);
    if (!ok) { r.ev(v.cls); if (r.verbose) r.note("VIOLATED: [" + v.cls + "] " + v.msg); }
    return ok;
}
static u64 run_seed(u64 base, u64 idx) { return mix64(mix64(base ^ 0x5eedull) + idx * 0x9E3779B97F4A7C15ull); }

static void copystr(char* d, std::size_t n, const std::string& s) { std::size_t m = std::min(n - 1, s.size()); std::memcpy(d, s.data(), m); d[m] = 0; }

static void worker(const CheckInfo& info, int slot, u64 seed, u64 maxruns, double deadline) {
    myslot = &S->w[slot]; g_counters = &myslot->counters;
    while (!S->stop) {
        if (now() > deadline) break;
        u64 idx = S->next++;
        if (idx >= maxruns) break;
        myslot->cur = idx + 1; myslot->assert_msg[0] = 0;
        if (S->norder[slot] < MAXORDER) S->order[slot][S->norder[slot]++] = (u32)idx;
        if (info.fork_each) {
            pid_t p = fork();
            if (p > 0) {
                int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
                if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); sigset_t ss; sigemptyset(&ss); sigprocmask(SIG_SETMASK, &ss, 0); raise(WTERMSIG(st)); _exit(99); }
                if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
                myslot->cur = 0; continue;
            }
        }
        Run r; r.prng.reseed(run_seed(seed, idx));
        Violation v;
        bool ok = execute(info, r, v);
        R = 0;
        if (idx < MAXSIG) { S->sigs[idx] = r.signature ? r.signature : 1; S->hashes[idx] = r.hash ? r.hash : 1; }
        ++myslot->runs; myslot->events_total += r.events; myslot->steps += r.sim_steps; myslot->faults += r.faults; myslot->rec_total += r.rec.size();
        if (r.faults) ++myslot->faulted_runs;
        if (!ok) {
            int k = S->nviol++;
            if (k < MAXV) { S->viol[k].idx = idx; S->viol[k].slot = slot; copystr(S->viol[k].cls, 200, v.cls); copystr(S->viol[k].msg, 2000, v.msg); }
            S->stop = 1;
        }
        if (info.fork_each) _exit(0);
        myslot->cur = 0;
    }
    _exit(0);
}

struct TrialResult { bool violated; std::string cls, msg, last; u64 hash, events; std::vector<u64> picks; std::vector<std::string> trace; };
static std::string crash_class(int st, const char* assert_msg) {
    std::string c;
    if (WIFSIGNALED(st)) {
        int sg = WTERMSIG(st);
        if (sg == SIGVTALRM) c = "hang";
        else if (sg == SIGABRT) c = assert_msg && *assert_msg ? "assertion" : "abort";
        else c = cat("crash:signal-", sg);
    } else if (WEXITSTATUS(st) == 77) c = "crash:memory-error";
    else c = cat("crash:exit-", WEXITSTATUS(st));
    return c;
}
static TrialResult trial(const CheckInfo& info, bool use_seed, u64 seedval, const std::vector<u64>* in, double hang = 8) {
    S->tr_status = 0; S->tr_npicks = 0; S->tr_events = 0; S->tr_hash = 0; S->tr_cls[0] = S->tr_msg[0] = S->tr_last[0] = S->tr_assert[0] = 0;
    std::fflush(0);
    pid_t p = fork();
    if (p == 0) {
        in_trial = true; myslot = 0; g_counters = &dummy_counters; g_hang_secs = hang;
        int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); }
        Run r;
        if (use_seed) r.prng.reseed(seedval); else { r.replaying = true; r.in = *in; }
        Violation v;
        bool ok = execute(info, r, v);
        S->tr_sig = r.signature; S->tr_hash = r.hash; S->tr_events = r.events;
        if (!ok) { copystr(S->tr_cls, 200, v.cls); copystr(S->tr_msg, 2000, v.msg); }
        copystr(S->tr_last, 400, r.last);
        S->tr_status = ok ? 1 : 2;
        _exit(0);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    TrialResult t; t.violated = false;
    if (S->tr_status == 1) t.violated = false;
    else if (S->tr_status == 2) { t.violated = true; t.cls = S->tr_cls; t.msg = S->tr_msg; }
    else { t.violated = true; t.cls = crash_class(st, S->tr_assert); t.msg = S->tr_assert[0] ? S->tr_assert : "process died"; }
    t.last = S->tr_last; t.hash = S->tr_hash; t.events = S->tr_events;
    u64 n = S->tr_npicks; t.picks.assign(S->picks, S->picks + n);
    return t;
}

// several seeded runs one after another in one fresh process; reports the last one
static TrialResult group_trial(const CheckInfo& info, u64 seed, const std::vector<u64>& idxs) {
    S->tr_status = 0; S->tr_npicks = 0; S->tr_events = 0; S->tr_hash = 0; S->tr_cls[0] = S->tr_msg[0] = S->tr_last[0] = S->tr_assert[0] = 0;
    std::fflush(0);
    pid_t p = fork();
    if (p == 0) {
        myslot = 0; g_counters = &dummy_counters; int fd = open("/dev/null", O_WRONLY); if (fd >= 0) dup2(fd, 2);
        for (std::size_t k = 0; k < idxs.size(); ++k) {
            bool lastone = k + 1 == idxs.size(); in_trial = lastone;
            Run r; r.prng.reseed(run_seed(seed, idxs[k])); Violation v; bool ok = execute(info, r, v); R = 0;
            if (lastone) { S->tr_hash = r.hash; S->tr_events = r.events; if (!ok) { copystr(S->tr_cls, 200, v.cls); copystr(S->tr_msg, 2000, v.msg); } S->tr_status = ok ? 1 : 2; }
        }
        _exit(0);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    TrialResult t; t.violated = S->tr_status != 1;
    if (S->tr_status == 2) { t.cls = S->tr_cls; t.msg = S->tr_msg; } else if (S->tr_status == 0) { t.cls = crash_class(st, S->tr_assert); t.msg = S->tr_assert[0] ? S->tr_assert : "process died"; }
    t.hash = S->tr_hash; t.events = S->tr_events;
    return t;
}
// the runs the worker executed before idx, shortest suffix for which pred holds
template<class Pred> static bool shortest_history(int slot, u64 idx, std::vector<u64>& out, Pred pred) {
    std::vector<u64> all; u64 n = S->norder[slot]; bool found = false;
    for (u64 k = 0; k < n && !found; ++k) { all.push_back(S->order[slot][k]); found = S->order[slot][k] == idx; }
    if (!found) return false;
    for (std::size_t len = 2;; len = len * 4) {
        if (len > all.size()) len = all.size();
        std::vector<u64> c(all.end() - len, all.end());
        if (pred(c)) {
            out = c;
            for (std::size_t blk = (out.size() - 1) / 2; blk >= 1; blk /= 2) for (std::size_t i = 0; i + blk < out.size();) {
                std::vector<u64> d(out); d.erase(d.begin() + i, d.begin() + i + blk);
                if (pred(d)) out = d; else i += blk;
            }
            return true;
        }
        if (len == all.size()) return false;
    }
}

static std::vector<u64> minimise(const CheckInfo& info, std::vector<u64> cur, const std::string& cls, unsigned& trials, double secs) {
    double end = now() + secs; trials = 0;
    bool slow = cls == "hang";
    unsigned maxtr = slow ? 60 : 6000;
    auto attempt = [&](const std::vector<u64>& c) {
        if (now() > end || trials >= maxtr) return false;
        ++trials;
        TrialResult t = trial(info, false, 0, &c, slow ? 3 : 8);
        if (t.violated && t.cls == cls) {
            std::vector<u64> eff = t.picks; 
            while (!eff.empty() && eff.back() == 0) eff.pop_back();
            if (eff.size() < cur.size() || (eff.size() == cur.size() && eff < cur)) cur = eff;
            else if (c.size() < cur.size() || (c.size() == cur.size() && c < cur)) cur = c;
            else return false;
            return true;
        }
        return false;
    };
    while (!cur.empty() && cur.back() == 0) cur.pop_back();
    bool progress = true; int rounds = 0;
    while (progress && now() < end && trials < maxtr && rounds++ < 12) {
        progress = false;
        for (std::size_t keep = cur.size() / 2; keep > 0 && keep < cur.size(); keep = keep + (cur.size() - keep + 1) / 2) {   // truncate
            std::vector<u64> c(cur.begin(), cur.begin() + keep);
            if (attempt(c)) { progress = true; keep = cur.size() / 2; if (!keep) break; }
            if (cur.size() - keep <= 1) break;
        }
        for (std::size_t blk = std::min<std::size_t>(256, cur.size()); blk >= 1; blk = blk / 2) {
            for (std::size_t i = cur.size(); i-- > 0;) {
                if (i + blk > cur.size()) continue;
                std::vector<u64> c(cur); c.erase(c.begin() + i, c.begin() + i + blk);
                if (attempt(c)) { progress = true; if (i > cur.size()) i = cur.size(); }
                else if (blk > 8) { i = i > blk / 2 ? i - blk / 2 : 0; if (!i) break; }
                if (now() > end || trials >= maxtr) break;
            }
            if (now() > end || trials >= maxtr) break;
        }
        for (std::size_t i = 0; i < cur.size(); ++i) {
            if (cur[i] == 0) continue;
            std::vector<u64> c(cur); c[i] = 0;
            if (attempt(c)) { progress = true; continue; }
            for (int k = 0; k < 6 && i < cur.size() && cur[i] > 1; ++k) {
                c = cur; c[i] /= 2; if (!attempt(c)) break; progress = true;
            }
            if (i < cur.size() && cur[i] > 0) { c = cur; --c[i]; if (attempt(c)) progress = true; }
            if (now() > end || trials >= maxtr) break;
        }
    }
    return cur;
}

static std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

// verbose in-child execution whose trace is returned through a pipe
static std::vector<std::string> traced(const CheckInfo& info, bool use_seed, u64 seedval, const std::vector<u64>* in) {
    int pfd[2]; if (pipe(pfd)) return {};
    std::fflush(0);
    pid_t p = fork();
    if (p == 0) {
        close(pfd[0]); myslot = 0; in_trial = false; g_counters = &dummy_counters;
        g_tracefd = pfd[1]; g_hang_secs = 8; int dn = open("/dev/null", O_WRONLY); if (dn >= 0) dup2(dn, 2);
        Run r; r.verbose = true;
        if (use_seed) r.prng.reseed(seedval); else { r.replaying = true; r.in = *in; }
        Violation v;
        execute(info, r, v);
        _exit(0);
    }
    close(pfd[1]);
    std::string all; char buf[65536]; ssize_t k;
    while ((k = read(pfd[0], buf, sizeof buf)) > 0) all.append(buf, k);
    close(pfd[0]); int st; waitpid(p, &st, 0);
    std::vector<std::string> out; std::string line; std::istringstream is(all);
    while (std::getline(is, line)) out.push_back(line);
    return out;
}

static bool load_replay(const char* path, std::string& cls, u64& hash, std::vector<u64>& picks, std::vector<u64>& group, u64& seed) {
    std::ifstream f(path); std::string line; bool got = false;
    while (std::getline(f, line)) {
        if (line.compare(0, 7, "class: ") == 0) cls = line.substr(7);
        else if (line.compare(0, 6, "hash: ") == 0) hash = std::strtoull(line.c_str() + 6, 0, 10);
        else if (line.compare(0, 9, "choices: ") == 0) { std::istringstream is(line.substr(9)); u64 x; while (is >> x) picks.push_back(x); got = true; }
        else if (line == "choices:") got = true;
        else if (line.compare(0, 6, "seed: ") == 0) seed = std::strtoull(line.c_str() + 6, 0, 10);
        else if (line.compare(0, 14, "run-sequence: ") == 0) { std::istringstream is(line.substr(14)); u64 x; while (is >> x) group.push_back(x); got = true; }
    }
    return got;
}

int run_main(int argc, char** argv, const CheckInfo& info) {
    // fixed addresses: code under test that reads what it should not still behaves alike in every execution of a seed
    { int pers = personality(0xffffffff); if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !std::getenv("SIM_ASLR") && personality(pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_ASLR", "1", 1); execv("/proc/self/exe", argv); } }
    std::string tier = "quick", verif = "/verif", replay, repo = "/repo"; u64 seed = 1; int jobs = 0; double secs = -1; u64 maxruns = 0; long long one = -1; u64 detcheck = 200;
    if (const char* e = std::getenv("VERIF_SEED")) seed = std::strtoull(e, 0, 10);
    if (const char* e = std::getenv("VERIF_TIER")) tier = e;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = val(); else if (a == "--seed") seed = std::strtoull(val().c_str(), 0, 10);
        else if (a == "--replay") replay = val(); else if (a == "--jobs") jobs = std::atoi(val().c_str());
        else if (a == "--secs") secs = std::atof(val().c_str()); else if (a == "--runs") maxruns = std::strtoull(val().c_str(), 0, 10);
        else if (a == "--one") one = std::atoll(val().c_str()); else if (a == "--verif") verif = val(); else if (a == "--detcheck") detcheck = std::strtoull(val().c_str(), 0, 10);
    }
    if (tier != "thorough") tier = "quick";
    if (const char* e = std::getenv("SIM_SECS")) if (secs < 0) secs = std::atof(e);
    S = static_cast<Shared*>(mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (S == MAP_FAILED) { std::perror("mmap"); return 3; }
    g_counters = &dummy_counters;
    if (jobs <= 0) { jobs = (int)sysconf(_SC_NPROCESSORS_ONLN); if (jobs < 1) jobs = 1; if (jobs > 8) jobs = 8; }
    struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);

    if (!replay.empty()) {
        std::string cls; u64 hash = 0; std::vector<u64> picks, group;
        if (!load_replay(replay.c_str(), cls, hash, picks, group, seed)) { std::printf("cannot read replay file %s\n", replay.c_str()); return 3; }
        if (!group.empty()) {
            TrialResult t = group_trial(info, seed, group), alone = group_trial(info, seed, std::vector<u64>(1, group.back()));
            bool v = cls == "depends-on-earlier-runs" ? t.violated || t.hash != alone.hash : t.violated;
            std::printf("replay of a sequence of %zu runs: violated=%d class=%s hash=%llu (the last run alone: violated=%d hash=%llu) expected class=%s hash=%llu\n%s\n", group.size(), (int)v, t.cls.c_str(), (unsigned long long)t.hash, (int)alone.violated, (unsigned long long)alone.hash, cls.c_str(), (unsigned long long)hash, t.msg.c_str());
            if (!v) return 0;
            std::printf("VIOLATION property=%s replay=%s\n", info.property, replay.c_str());
            return t.hash == hash ? 1 : 5;
        }
        TrialResult t = trial(info, false, 0, &picks);
        for (auto& l : traced(info, false, 0, &picks)) std::printf("%s\n", l.c_str());
        std::printf("replay: violated=%d class=%s hash=%llu expected class=%s hash=%llu\n%s\n", (int)t.violated, t.cls.c_str(), (unsigned long long)t.hash, cls.c_str(), (unsigned long long)hash, t.msg.c_str());
        if (!t.violated) return 0;
        bool same = t.cls == cls && t.hash == hash;
        std::printf("%s\n", same ? "replay reproduces the recorded execution exactly" : "replay violates the property but differs from the recording");
        std::printf("VIOLATION property=%s replay=%s\n", info.property, replay.c_str());
        return same ? 1 : 5;
    }
    if (one >= 0) {
        for (auto& l : traced(info, true, run_seed(seed, one), 0)) std::printf("%s\n", l.c_str());
        TrialResult t = trial(info, true, run_seed(seed, one), 0);
        std::printf("run %lld: violated=%d class=%s msg=%s hash=%llu picks=%zu\n", one, (int)t.violated, t.cls.c_str(), t.msg.c_str(), (unsigned long long)t.hash, t.picks.size());
        return t.violated;
    }
    // known findings: lines "<property> <class>" under known_findings.jsonl
    std::vector<std::pair<std::string, std::string> > known;   // class prefix, text
    {
        std::ifstream f(verif + "/known_findings.jsonl"); std::string line;
        auto field = [](const std::string& l, const char* k) { std::string q = std::string("\"") + k + "\""; std::size_t p = l.find(q); if (p == std::string::npos) return std::string(); p = l.find('"', l.find(':', p)); std::size_t e = l.find('"', p + 1); return l.substr(p + 1, e - p - 1); };
        while (std::getline(f, line)) if (field(line, "status") == "known" && field(line, "property") == info.property) known.push_back({ field(line, "class"), field(line, "what") });
    }
    if (secs < 0) secs = tier == "quick" ? info.quick_secs : info.thorough_secs;
    if (!maxruns) maxruns = tier == "quick" ? info.quick_runs : info.thorough_runs;
    double t0 = now(), deadline = t0 + secs;
    std::printf("check %s tier=%s seed=%llu jobs=%d budget=%.0fs/%llu runs\n", info.property, tier.c_str(), (unsigned long long)seed, jobs, secs, (unsigned long long)maxruns);
    std::map<pid_t, int> kids;
    auto spawn = [&](int slot) {
        std::fflush(0);
        pid_t p = fork();
        if (p == 0) {
            int fd = open("/dev/null", O_WRONLY); if (fd >= 0 && !std::getenv("SIM_STDERR")) dup2(fd, 2);
            worker(info, slot, seed, maxruns, deadline);
        }
        kids[p] = slot;
    };
    if (jobs > MAXW) jobs = MAXW;
    for (int i = 0; i < jobs; ++i) spawn(i);
    int crashes = 0;
    u64 knownhits = 0;
    while (!kids.empty()) {
        int st; pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        if (!kids.count(p)) continue;
        int slot = kids[p]; kids.erase(p);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        u64 cur = S->w[slot].cur;
        if (cur == 0) { std::printf("worker died outside a run\n"); return 3; }
        std::string cls = crash_class(st, S->w[slot].assert_msg);
        int k = S->nviol++;
        if (k < MAXV) { S->viol[k].idx = cur - 1; S->viol[k].slot = slot; copystr(S->viol[k].cls, 200, cls); copystr(S->viol[k].msg, 2000, std::string("process died; ") + S->w[slot].assert_msg); }
        ++crashes; S->stop = 1;
    }
    double wall = now() - t0;
    // merge stats
    u64 runs = 0, evs = 0, steps = 0, faults = 0, recs = 0, frun = 0; std::map<std::string, u64> faultc, probec;
    for (int i = 0; i < S->nnames; ++i) (std::strncmp(S->names[i], "fault:", 6) == 0 ? faultc : probec)[S->names[i] + 6] = 0;
    for (int s = 0; s < jobs; ++s) {
        runs += S->w[s].runs; evs += S->w[s].events_total; steps += S->w[s].steps; faults += S->w[s].faults; recs += S->w[s].rec_total; frun += S->w[s].faulted_runs;
        for (int i = 0; i < S->nnames; ++i) (std::strncmp(S->names[i], "fault:", 6) == 0 ? faultc : probec)[S->names[i] + 6] += S->w[s].counters.v[i];
    }
    std::set<u64> sigs, hs; for (u64 i = 0; i < std::min<u64>(S->next, MAXSIG); ++i) { if (S->sigs[i]) sigs.insert(S->sigs[i]); if (S->hashes[i]) hs.insert(S->hashes[i]); }
    int nv = std::min<int>(S->nviol, MAXV);
    u64 redo = 0; int exitcode = 0; u64 violations = 0; std::string vline;
    if (nv) {
        VRec* v = &S->viol[0]; for (int i = 1; i < nv; ++i) if (S->viol[i].idx < v->idx) v = &S->viol[i];
        std::printf("violation in run %llu: [%s] %s\n", (unsigned long long)v->idx, v->cls, v->msg);
        TrialResult a = trial(info, true, run_seed(seed, v->idx), 0, 20), b = trial(info, true, run_seed(seed, v->idx), 0, 20);
        if (!a.violated || !b.violated || a.cls != b.cls || (a.cls != "hang" && a.hash != b.hash) || a.cls != v->cls) {
            // the run alone does not show it: state survives from earlier runs of the same process, or uninitialised memory is used
            std::vector<u64> grp; std::string cls0 = v->cls; u64 vi = v->idx; int vs = v->slot; std::string msg0 = v->msg;
            bool rep = shortest_history(vs, vi, grp, [&](const std::vector<u64>& c) { TrialResult t = group_trial(info, seed, c); return t.violated && t.cls == cls0; });
            TrialResult t; if (rep) t = group_trial(info, seed, grp); else { grp.assign(1, vi); t.hash = 0; t.cls = cls0; t.msg = msg0; }
            std::string dir = verif + "/replays"; mkdir(dir.c_str(), 0777); std::string path = cat(dir, "/", info.property, "-s", seed, "-r", vi, ".replay");
            { std::ofstream f(path); f << "# replay file for property " << info.property << "; run: <check binary> --replay <this file>\nproperty: " << info.property << "\nseed: " << seed << "\nrun: " << vi << "\nclass: " << t.cls << "\nhash: " << t.hash << "\nmessage: " << jesc(t.msg) << "\nrun-sequence:"; for (u64 x : grp) f << " " << x;
              f << "\nnote: " << (rep ? "the last run violates the property only after the runs listed before it in the same process: the code under test keeps hidden state" : "seen once by a worker; the code under test is nondeterministic (hidden state or uninitialised memory), an exact replay is not available") << "\n"; }
            std::printf("minimised to %zu runs in one process (%s): [%s] %s\n", grp.size(), rep ? "reproduced" : "not reproducible", t.cls.c_str(), t.msg.c_str());
            vline = cat("VIOLATION property=", info.property, " replay=", path); violations = 1; exitcode = 1; goto evidence;
        }
        unsigned trials = 0; std::vector<u64> mini = minimise(info, a.picks, a.cls, trials, 45);
        TrialResult m = trial(info, false, 0, &mini, a.cls == "hang" ? 3 : 8);
        if (!m.violated || m.cls != a.cls) { mini = a.picks; m = trial(info, false, 0, &mini); }
        std::vector<std::string> tr = traced(info, false, 0, &mini);
        std::string dir = verif + "/replays"; mkdir(dir.c_str(), 0777);
        std::string path = cat(dir, "/", info.property, "-s", seed, "-r", v->idx, ".replay");
        {
            std::ofstream f(path);
            f << "# replay file for property " << info.property << "; run: <check binary> --replay <this file>\n";
            f << "property: " << info.property << "\nseed: " << seed << "\nrun: " << v->idx << "\nclass: " << m.cls << "\nhash: " << m.hash << "\nmessage: " << jesc(m.msg) << "\n";
            f << "minimised: " << a.picks.size() << " -> " << mini.size() << " choices in " << trials << " trials\nchoices:";
            for (u64 x : mini) f << " " << x; f << "\ntrace of the minimised execution:\n";
            for (auto& l : tr) f << "  " << l << "\n";
            f << "  (then) " << m.msg << "\n";
        }
        std::fflush(0);
        std::string cmd = std::string(argv[0]) + " --replay " + path + " >/dev/null 2>&1";
        int st = std::system(cmd.c_str()); int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 99;
        if (m.cls == "hang" ? rc != 1 && rc != 5 : rc != 1) {
            // three executions of this seed violated the property, the fresh process did not do so identically: only code that reads
            // memory it does not own (or keeps hidden state) can depend on more than the recorded choices
            std::printf("the fresh-process replay of %s ended with exit %d (5: it violates the property, with different details)\n", path.c_str(), rc);
            std::ofstream f(path, std::ios::app); f << "note: the code under test depends on memory outside its objects; a replay may differ in detail from this recording\n";
        }
        bool isknown = false;
        for (auto& k : known) if (m.cls == k.first) { isknown = true; ++knownhits; std::printf("KNOWN-FINDING: property=%s %s\n", info.property, k.second.c_str()); }
        if (!isknown) {
            std::printf("minimised to %zu choices (%u trials): [%s] %s\n", mini.size(), trials, m.cls.c_str(), m.msg.c_str());
            for (std::size_t i = 0; i < tr.size() && i < 60; ++i) std::printf("    %s\n", tr[i].c_str());
            vline = cat("VIOLATION property=", info.property, " replay=", path);
            violations = 1; exitcode = 1;
        }
    } else for (auto& k : known) std::printf("KNOWN-FINDING: property=%s %s\n", info.property, k.second.c_str());
    {
    // determinism re-check: same run indices, fresh processes, different order
    if (!nv) {
        u64 total = std::min<u64>(std::min<u64>(S->next, maxruns), MAXSIG);
        double dl = now() + 20;
        for (u64 k = 0; k < detcheck && total && now() < dl; ++k) {
            u64 idx = mix64(k + seed * 77) % total; if (!S->hashes[idx]) continue;
            TrialResult t = trial(info, true, run_seed(seed, idx), 0, 20); ++redo;
            u64 h = t.hash ? t.hash : 1;
            if ((h != S->hashes[idx] || t.violated) && info.hidden_state_is_violation) {
                std::vector<u64> grp; int slot = -1; for (int q = 0; q < jobs; ++q) for (u64 z = 0; z < S->norder[q]; ++z) if (S->order[q][z] == idx) slot = q;
                bool rep = slot >= 0 && shortest_history(slot, idx, grp, [&](const std::vector<u64>& c) { TrialResult g = group_trial(info, seed, c); return g.violated || g.hash != t.hash; });
                if (!rep) grp.assign(1, idx); TrialResult g = group_trial(info, seed, grp);
                std::string dir = verif + "/replays"; mkdir(dir.c_str(), 0777); std::string path = cat(dir, "/", info.property, "-s", seed, "-r", idx, ".replay");
                { std::ofstream f(path); f << "# replay file\nproperty: " << info.property << "\nseed: " << seed << "\nrun: " << idx << "\nclass: depends-on-earlier-runs\nhash: " << g.hash << "\nmessage: the same run, given the same choices, behaves differently after other runs in the same process\nrun-sequence:"; for (u64 x : grp) f << " " << x; f << "\n"; }
                std::printf("run %llu behaves differently after %zu other runs in the same process: objects share hidden state\n", (unsigned long long)idx, grp.size() - 1);
                vline = cat("VIOLATION property=", info.property, " replay=", path); violations = 1; exitcode = 1; break;
            }
            if (h != S->hashes[idx] || t.violated) { std::printf("ERROR: nondeterminism: run %llu hash %llu then %llu\n", (unsigned long long)idx, (unsigned long long)S->hashes[idx], (unsigned long long)h); return 4; }
        }
    }
    }
evidence:
    std::vector<std::string> samples;
    for (int s = 0; s < 2; ++s) { auto t = traced(info, true, run_seed(seed, s), 0); std::string x = cat("run ", s, ": "); for (std::size_t i = 0; i < t.size() && i < 25; ++i) x += t[i] + "; "; if (x.size() > 2500) x.resize(2500); samples.push_back(x); }
    mkdir((verif + "/evidence").c_str(), 0777);
    {
        std::ofstream f(verif + "/evidence/" + info.property + ".json");
        auto list = [&](const std::vector<const char*>& v) { std::string o = "["; for (std::size_t i = 0; i < v.size(); ++i) { if (i) o += ", "; o += "\"" + jesc(v[i]) + "\""; } return o + "]"; };
        auto mp = [&](const std::map<std::string, u64>& m) { std::string o = "{"; bool first = true; for (auto& k : m) { if (!first) o += ", "; first = false; o += "\"" + jesc(k.first) + "\": " + str(k.second); } return o + "}"; };
        f << "{\n \"property\": \"" << info.property << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
        f << "  \"evaluations\": " << runs << ",\n  \"distinct_nontrivial\": " << sigs.size() << ",\n  \"rule\": \"" << jesc(info.technique_rule) << "\",\n";
        f << "  \"samples\": [\"" << jesc(samples[0]) << "\", \"" << jesc(samples[1]) << "\"],\n";
        f << "  \"simulated_runs_and_seeds_per_hour\": " << (u64)(runs / (wall > 0 ? wall : 1) * 3600) << ",\n";
        f << "  \"logged_events\": " << evs << ",\n  \"simulated_time_steps\": " << steps << ",\n  \"simulated_time_unit\": \"seam events (entropy words, stream calls, allocations, system calls, scheduler switches); the library reads no clock\",\n";
        f << "  \"faults_injected_total\": " << faults << ",\n  \"runs_with_faults\": " << frun << ",\n  \"faults_by_kind\": " << mp(faultc) << ",\n  \"probes\": " << mp(probec) << ",\n";
        f << "  \"distinct_executions_by_event_hash\": " << hs.size() << ",\n  \"decisions_recorded\": " << recs << ",\n";
        f << "  \"determinism_rechecks\": " << redo << ",\n  \"worker_processes\": " << jobs << ",\n  \"real_components\": " << list(info.real) << ",\n  \"stubbed_components\": " << list(info.stub) << "\n },\n";
        f << " \"assumptions\": " << list(info.assumptions) << ",\n \"wall_s\": " << std::fixed << std::setprecision(2) << (now() - t0) << ",\n \"violations\": " << violations << "\n}\n";
    }
    std::printf("%s: %llu runs in %.1fs, %zu distinct shapes, %llu faults injected, %llu determinism rechecks\n", info.property, (unsigned long long)runs, wall, sigs.size(), (unsigned long long)faults, (unsigned long long)redo);
    if (std::getenv("SIM_STATS")) { for (auto& k : faultc) std::printf("  fault %-50s %llu\n", k.first.c_str(), (unsigned long long)k.second); for (auto& k : probec) std::printf("  probe %-50s %llu\n", k.first.c_str(), (unsigned long long)k.second); }
    if (!vline.empty()) std::printf("%s\n", vline.c_str());
    std::fflush(0);
    return exitcode;
}
void record_assert(const char* m) {
    char* d = in_trial ? S->tr_assert : myslot ? myslot->assert_msg : 0;
    if (d) { std::strncpy(d, m, 599); d[599] = 0; }
}
}
// assertion failures of the code under test end the run with a recorded message
extern "C" void __assert_fail(const char* expr, const char* file, unsigned line, const char* func) {
    char b[600]; std::snprintf(b, sizeof b, "%s:%u: %s: assertion `%s' failed", file, line, func, expr);
    sim::record_assert(b); std::fprintf(stderr, "%s\n", b);
    std::abort();
}
extern "C" void __asan_on_error() { if (__asan_get_report_description) sim::record_assert(__asan_get_report_description()); }
