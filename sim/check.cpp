// Driver: seeded search over programs, options, schedules and fault plans; minimiser; replay; evidence.
#include "trial.hpp"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <functional>
#include <libgen.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static string S(u64 v) { return std::to_string(v); }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static const int TRIALS = 10;
static const int BATCH = 48;
static string g_self;

// ------------------------------------------------------------------ one episode
static u64 ep_seed(u64 base, u64 ep) { return (mix(mix(99, base), ep) >> 2) + 1; }
static Rng trial_rng(u64 seed, int k) { return Rng(mix(seed, 1000 + k)); }
struct Found { u64 ep = ~0ull; int trial = 0; Verdict v; };

static bool is_known(const vector<string> &known, const string &prop, const Verdict &v, string *which = nullptr) {
    // finding: property=<id> kind=<kind> text=<part of the message>
    for (auto &l : known) {
        if (l.compare(0, 9, "finding: ") != 0) continue;
        size_t a = l.find("property="), b = l.find(" kind="), c = l.find(" text=");
        if (a == string::npos || b == string::npos || c == string::npos) continue;
        if (l.substr(a + 9, b - a - 9) != prop || l.substr(b + 6, c - b - 6) != v.kind) continue;
        if (v.msg.find(l.substr(c + 6)) == string::npos) continue;
        if (which) *which = l;
        return true;
    }
    return false;
}

// ------------------------------------------------------------------ evaluation in a child of its own
struct Remote { bool died = false; Verdict v; int sig = 0; };
static void wr(int fd, const string &s) { size_t a = 0; while (a < s.size()) { ssize_t n = write(fd, s.data() + a, s.size() - a); if (n <= 0) { if (errno == EINTR) continue; _exit(3); } a += n; } }
static string one(const string &s) { string o; for (char c : s) o += c == '\n' ? '~' : c; return o; }
static Remote eval_remote(const std::function<Verdict()> &fn, int secs = 60) {
    Remote R;
    int p[2];
    if (pipe(p)) { R.died = true; return R; }
    fflush(stdout); fflush(stderr);
    pid_t k = fork();
    if (k == 0) {
        close(p[0]);
        alarm(secs);
        Verdict v = fn();
        wr(p[1], S(v.valid) + "\n" + v.kind + "\n" + one(v.msg) + "\n" + S(v.hash) + "\n" + S(v.fired) + "\n");
        _exit(0);
    }
    close(p[1]);
    string s;
    char b[4096];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) s.append(b, n);
    close(p[0]);
    int st = 0;
    waitpid(k, &st, 0);
    vector<string> l;
    size_t a = 0, q;
    while ((q = s.find('\n', a)) != string::npos) { l.push_back(s.substr(a, q - a)); a = q + 1; }
    if (l.size() < 5) {
        R.died = true;
        R.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
        R.v.kind = "abnormal-death";
        R.v.msg = "the run destroyed the process that simulates it (signal " + S(R.sig) + ")";
        R.v.hash = 4242 + R.sig;
        return R;
    }
    R.v.valid = l[0] == "1"; R.v.kind = l[1]; R.v.msg = l[2]; R.v.hash = strtoull(l[3].c_str(), 0, 10); R.v.fired = atoi(l[4].c_str());
    return R;
}

// ------------------------------------------------------------------ batches
struct Shared { volatile u64 prog[64]; };
static Shared *g_shared;

struct Stats {
    u64 eps = 0, skipped = 0, evals = 0, valid = 0, faultfree = 0, nontrivial = 0, twice = 0, mismatch = 0;
    u64 runs = 0, steps = 0, maxSteps = 0, events = 0, simtime = 0, okFaulted = 0;
    set<u64> states, cover, scheds;
    map<string, u64> fired, probes;
    vector<string> samples, known;
    vector<Found> found;
    vector<string> bad;
};
static string sample_str(const Ctx &c, const Trial &t, const Verdict &v, int k) {
    string o = "seed " + S(c.seed) + " trial " + S(k) + ":";
    for (auto &s : t.steps) {
        for (auto &p : s.ps) { o += p.tool ? " {ftohex" : " {dasm"; for (auto &a : spec_argv(c, p)) o += " " + a; o += "; " + env_str(p.env) + "}"; }
        for (auto &f : s.faults) o += " [" + fault_str(f) + "]";
    }
    if (!t.junk.empty()) { o += " stale/bystander files:"; for (auto &j : t.junk) o += " " + j.first; }
    return o + " -> " + S(v.fired) + " faults fired, " + (v.probes.empty() ? string("judged") : v.probes[0]) + ", hash " + S(v.hash);
}
static void run_episode(const string &prop, u64 base, u64 ep, const vector<string> &known, Stats &st, int slot, bool quiet = false) {
    Ctx c;
    u64 seed = ep_seed(base, ep);
    if (!make_ctx(prop, seed, c)) { st.skipped++; return; }
    st.eps++;
    for (int k = 0; k < TRIALS; k++) {
        if (slot >= 0) g_shared->prog[slot] = ep * 64 + k;
        Rng r = trial_rng(seed, k);
        Trial t = make_trial(c, r);
        Verdict v = eval_trial(c, t);
        st.evals++;
        if (v.valid) st.valid++;
        bool anyf = false;
        for (auto &s : t.steps) anyf |= !s.faults.empty();
        if (!anyf) st.faultfree++;
        if (v.valid && v.nontrivial) { st.nontrivial++; st.states.insert(v.state); }
        if (prop == "C09") st.scheds.insert(v.sched);
        for (auto &p : v.probes) st.probes[p]++;
        if (!quiet && v.valid && v.nontrivial && st.samples.size() < 3) st.samples.push_back(sample_str(c, t, v, k));
        if (!v.kind.empty() && v.valid) {
            string w;
            if (is_known(known, prop, v, &w)) { st.known.push_back(w); continue; }
            Found f;
            f.ep = ep; f.trial = k; f.v = v;
            st.found.push_back(f);
            return;
        }
        if (ep % 64 == 5 && k % 3 == 0) {
            // the same seed again: a context made anew must give the same execution
            Ctx c2;
            make_ctx(prop, seed, c2);
            Rng r2 = trial_rng(seed, k);
            Trial t2 = make_trial(c2, r2);
            Verdict v2 = eval_trial(c2, t2);
            st.twice++;
            if (v2.hash != v.hash || v2.kind != v.kind || trial_str(t) != trial_str(t2)) { st.mismatch++; st.bad.push_back("episode " + S(ep) + " trial " + S(k)); }
        }
    }
}
static string stats_text(const Stats &s) {
    string o = "n " + S(s.eps) + " " + S(s.skipped) + " " + S(s.evals) + " " + S(s.valid) + " " + S(s.faultfree) + " " + S(s.nontrivial) + " " + S(s.twice) + " " + S(s.mismatch) + " " + S(g_totalRuns) + " " + S(g_totalSteps) + " " + S(g_totalEvents) + " " + S(g_totalSimtime) + " " + S(g_maxSteps) + "\n";
    o += "s"; for (u64 x : s.states) o += " " + S(x); o += "\n";
    o += "c"; for (u64 x : g_coverSet) o += " " + S(x); o += "\n";
    o += "i"; for (u64 x : s.scheds) o += " " + S(x); o += "\n";
    for (auto &f : g_faultFired) o += "f " + S(f.second) + " " + f.first + "\n";
    for (auto &f : s.probes) o += "p " + S(f.second) + " " + f.first + "\n";
    for (auto &x : s.samples) o += "x " + one(x) + "\n";
    for (auto &x : s.known) o += "k " + one(x) + "\n";
    for (auto &x : s.bad) o += "b " + one(x) + "\n";
    for (auto &x : s.found) o += "v " + S(x.ep) + " " + S(x.trial) + " " + S(x.v.hash) + " " + x.v.kind + " " + one(x.v.msg) + "\n";
    return o + "end\n";
}
static bool merge(Stats &S_, const string &txt) {
    if (txt.size() < 4 || txt.compare(txt.size() - 4, 4, "end\n") != 0) return false;
    size_t a = 0, q;
    while ((q = txt.find('\n', a)) != string::npos) {
        string l = txt.substr(a, q - a);
        a = q + 1;
        if (l.size() < 2) continue;
        const char *p = l.c_str() + 1;
        char *e;
        auto num = [&]() { u64 v = strtoull(p, &e, 10); p = e; return v; };
        auto set_ = [&](set<u64> &d) { for (;;) { u64 v = strtoull(p, &e, 10); if (e == p) break; p = e; d.insert(v); } };
        switch (l[0]) {
        case 'n': S_.eps += num(); S_.skipped += num(); S_.evals += num(); S_.valid += num(); S_.faultfree += num(); S_.nontrivial += num(); S_.twice += num(); S_.mismatch += num(); S_.runs += num(); S_.steps += num(); S_.events += num(); S_.simtime += num(); S_.maxSteps = std::max(S_.maxSteps, num()); break;
        case 's': set_(S_.states); break;
        case 'c': set_(S_.cover); break;
        case 'i': set_(S_.scheds); break;
        case 'f': { u64 n = num(); S_.fired[p + 1] += n; break; }
        case 'p': { u64 n = num(); S_.probes[p + 1] += n; break; }
        case 'x': if (S_.samples.size() < 4) S_.samples.push_back(l.substr(2)); break;
        case 'k': S_.known.push_back(l.substr(2)); break;
        case 'b': S_.bad.push_back(l.substr(2)); break;
        case 'v': { Found f; f.ep = num(); f.trial = (int)num(); f.v.hash = num(); string r = p + 1; size_t sp = r.find(' '); f.v.kind = r.substr(0, sp); f.v.msg = sp == string::npos ? "" : r.substr(sp + 1); S_.found.push_back(f); break; }
        }
    }
    return true;
}

// ------------------------------------------------------------------ replay files
static string replay_text(const Ctx &c, const Trial &t, const Verdict &v, const string &note) {
    string o = "dasm-sim-replay 1\nproperty " + c.prop + "\nseed " + S(c.seed) + "\n";
    for (size_t i = 0; i < c.masks.size(); i++) { o += "mask " + S(i); for (int x : c.masks[i]) o += " " + std::to_string(x); o += "\n"; }
    o += "kind " + v.kind + "\nhash " + S(v.hash) + "\nwhy " + one(v.msg) + "\n" + trial_str(t) + "endtrial\n\n# " + note + "\n# The execution, for the reader:\n";
    for (size_t i = 0; i < t.steps.size(); i++) {
        auto &s = t.steps[i];
        for (auto &p : s.ps) { o += "# step " + S(i + 1) + ": " + (p.tool ? "ftohex" : "dasm"); for (auto &a : spec_argv(c, p)) o += " " + a; o += "   (" + env_str(p.env) + ")\n"; }
        for (auto &f : s.faults) o += "#   fault: " + fault_str(f) + "\n";
        if (s.useForced) o += "#   schedule: " + S(s.forced.size()) + " switches given above\n";
    }
    for (auto &f : c.files) {
        bool text = true;
        for (unsigned char ch : f.second) if (ch < 9 || ch == 127) text = false;
        if (f.first.find("bin") != string::npos) text = false;
        o += "# --- " + f.first + " (" + S(f.second.size()) + " bytes)\n";
        if (text) { size_t a = 0; while (a < f.second.size()) { size_t b = f.second.find('\n', a); if (b == string::npos) b = f.second.size(); o += "#| " + f.second.substr(a, b - a) + "\n"; a = b + 1; } }
    }
    return o;
}
static bool replay_load(const string &path, Ctx &c, Trial &t, Verdict &exp) {
    FILE *f = fopen(path.c_str(), "r");
    if (!f) return false;
    string s;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    vector<string> tl;
    map<int, Mask> masks;
    string prop;
    u64 seed = 0;
    size_t a = 0, q;
    bool first = true, end = false;
    while (!end && (q = s.find('\n', a)) != string::npos) {
        string l = s.substr(a, q - a);
        a = q + 1;
        if (first) { if (l != "dasm-sim-replay 1") return false; first = false; continue; }
        auto is = [&](const char *k) { return l.compare(0, strlen(k), k) == 0; };
        if (l == "endtrial") end = true;
        else if (is("property ")) prop = l.substr(9);
        else if (is("seed ")) seed = strtoull(l.c_str() + 5, 0, 10);
        else if (is("mask ")) { char *e; const char *p = l.c_str() + 5; int i = (int)strtol(p, &e, 10); p = e; masks[i]; for (;;) { long v = strtol(p, &e, 10); if (e == p) break; p = e; masks[i].insert((int)v); } }
        else if (is("kind ")) exp.kind = l.substr(5);
        else if (is("hash ")) exp.hash = strtoull(l.c_str() + 5, 0, 10);
        else if (is("why ")) exp.msg = l.substr(4);
        else tl.push_back(l);
    }
    if (!end || std::find(prop_ids().begin(), prop_ids().end(), prop) == prop_ids().end()) return false;
    if (!make_ctx(prop, seed, c)) return false;
    for (auto &m : masks) if (m.first < (int)c.masks.size()) c.masks[m.first] = m.second;
    c.rebuild();
    return trial_parse(tl, t);
}
static int cmd_replay(const string &path) {
    Ctx c;
    Trial t;
    Verdict exp;
    if (!replay_load(path, c, t, exp)) { fprintf(stderr, "cannot read replay file %s\n", path.c_str()); return 2; }
    Remote R = eval_remote([&]() { return eval_trial(c, t); });
    if (R.v.kind.empty() || !R.v.valid) { printf("NOT REPRODUCED property=%s (recorded: %s)\n", c.prop.c_str(), exp.kind.c_str()); return 0; }
    bool same = R.v.kind == exp.kind && R.v.hash == exp.hash;
    printf("%s property=%s kind=%s hash=%llu%s\n  %s\n", same ? "REPRODUCED" : "DIFFERENT VIOLATION", c.prop.c_str(), R.v.kind.c_str(), (unsigned long long)R.v.hash, same ? "" : (" recorded " + S(exp.hash)).c_str(), R.v.msg.c_str());
    return same ? 1 : 3;
}

// ------------------------------------------------------------------ minimiser
struct Mini {
    Ctx c;
    Trial t;
    string kind;
    Verdict v;
    double until;
    int tried = 0, taken = 0;
    bool attempt(const Ctx &c2, const Trial &t2) {
        if (now() > until) return false;
        tried++;
        Ctx cc = c2;
        cc.rebuild();
        Remote R = eval_remote([&]() { return eval_trial(cc, t2); }, 20);
        if (!R.v.valid || R.v.kind != kind) return false;
        c = cc; t = t2; v = R.v;
        taken++;
        return true;
    }
    template <class F> bool tryT(F f) { Trial t2 = t; f(t2); if (trial_str(t2) == trial_str(t)) return false; return attempt(c, t2); }
    void nodes() {
        for (size_t pi = 0; pi < c.progs.size(); pi++)
            for (size_t chunk = 64; chunk >= 1; chunk /= 2)
                for (size_t i = 0;;) {
                    vector<int> ids;
                    all_ids(c.progs[pi], c.masks[pi], ids);
                    for (size_t d = 0; d < c.progs[pi].defs.size(); d++) if (!c.masks[pi].count(-(int)d - 1)) ids.push_back(-(int)d - 1);
                    if (i >= ids.size() || now() > until) break;
                    Ctx c2 = c;
                    for (size_t k = i; k < ids.size() && k < i + chunk; k++) c2.masks[pi].insert(ids[k]);
                    if (!attempt(c2, t)) i += chunk;
                }
    }
    void run() {
        for (int round = 0; round < 3; round++) {
            int before = taken;
            for (size_t i = 0; i < t.steps.size();) { if (t.steps[i].keep || t.steps.size() == 1 || !tryT([&](Trial &x) { x.steps.erase(x.steps.begin() + i); })) i++; }
            for (size_t i = 0; i < t.steps.size(); i++)
                for (size_t j = 0; j < t.steps[i].faults.size();) if (!tryT([&](Trial &x) { x.steps[i].faults.erase(x.steps[i].faults.begin() + j); })) j++;
            for (size_t i = 0; i < t.steps.size(); i++)
                for (size_t j = 0; t.steps[i].ps.size() > 1 && j < t.steps[i].ps.size();)
                    if (!tryT([&](Trial &x) {
                            auto &s = x.steps[i];
                            s.ps.erase(s.ps.begin() + j);
                            s.useForced = false;
                            vector<Fault> fs;
                            for (auto f : s.faults) { if (f.proc == (int)j) continue; if (f.proc > (int)j) f.proc--; fs.push_back(f); }
                            s.faults = fs;
                        })) j++;
            vector<string> names;
            for (auto &j : t.junk) names.push_back(j.first);
            for (auto &n : names) { if (!tryT([&](Trial &x) { x.junk.erase(n); })) tryT([&](Trial &x) { x.junk[n] = "stale\n"; }); }
            nodes();
            for (size_t i = 0; i < t.steps.size(); i++)
                for (size_t j = 0; j < t.steps[i].ps.size(); j++) {
                    auto P = [&](Trial &x) -> PSpec & { return x.steps[i].ps[j]; };
                    tryT([&](Trial &x) { P(x).env = Env(); });
                    tryT([&](Trial &x) { P(x).env.memseed = 0; });
                    tryT([&](Trial &x) { P(x).env.rbuf = 4096; P(x).env.rchunk = 0; });
                    tryT([&](Trial &x) { P(x).env.wbuf = 4096; P(x).env.wchunk = 0; });
                    tryT([&](Trial &x) { P(x).env.latseed = 0; P(x).env.environ_ = false; });
                    tryT([&](Trial &x) { P(x).o.order = 0; });
                    tryT([&](Trial &x) { P(x).o.sort = P(x).o.verbose = P(x).o.err = -1; });
                    tryT([&](Trial &x) { P(x).o.passes = 0; P(x).o.P = false; });
                    tryT([&](Trial &x) { P(x).o.R = false; });
                    tryT([&](Trial &x) { P(x).o.lst.clear(); P(x).o.all = false; });
                    tryT([&](Trial &x) { P(x).o.all = false; });
                    tryT([&](Trial &x) { P(x).o.sym.clear(); });
                    tryT([&](Trial &x) { P(x).o.out = "out.bin"; });
                }
            for (size_t i = 0; i < t.steps.size(); i++)
                for (size_t j = 0; j < t.steps[i].faults.size(); j++) {
                    auto F = [&](Trial &x) -> Fault & { return x.steps[i].faults[j]; };
                    tryT([&](Trial &x) { F(x).count = 1; });
                    for (int k = 0; k < 12 && t.steps[i].faults[j].nth > 1; k++) if (!tryT([&](Trial &x) { F(x).nth /= 2; }) && !tryT([&](Trial &x) { F(x).nth -= 1; })) break;
                    tryT([&](Trial &x) { if (F(x).eff == E_FAIL && F(x).op != OP_ALLOC) F(x).arg = 5; });
                    tryT([&](Trial &x) { if (F(x).eff == E_PARTIAL || F(x).eff == E_KILL || F(x).eff == E_POWER || F(x).eff == E_DISKFULL) F(x).arg = 0; });
                }
            for (auto &in : t.inputs) {
                string n = in.first;
                for (int k = 0; k < 12 && t.inputs[n].size() > 1; k++) if (!tryT([&](Trial &x) { x.inputs[n].resize(x.inputs[n].size() / 2); }) && !tryT([&](Trial &x) { x.inputs[n].resize(x.inputs[n].size() - 1); })) break;
            }
            if (taken == before) break;
        }
        schedule();
    }
    // fewer switches between processes
    void schedule() {
        for (size_t i = 0; i < t.steps.size(); i++) {
            if (t.steps[i].ps.size() < 2) continue;
            if (!tryT([&](Trial &x) { x.steps[i].useForced = true; x.steps[i].forced.clear(); })) {
                vector<unsigned char> full;
                {
                    World w;
                    for (auto &f : c.files) w.disk.put(f.first, f.second);
                    for (auto &f : t.inputs) w.disk.put(f.first, f.second);
                    for (auto &f : t.junk) w.disk.put(f.first, f.second);
                    w.faults = t.steps[i].faults;
                    vector<ProcSpec> ps;
                    for (auto &p : t.steps[i].ps) { ProcSpec s; s.ftohex = p.tool == 1; s.argv = spec_argv(c, p); s.env = p.env; s.epochFile = p.tool ? p.hin : c.progs[p.prog].mainName; ps.push_back(s); }
                    w.run(ps, t.steps[i].sched);
                    full = w.scheduleTrace;
                }
                if (!tryT([&](Trial &x) { x.steps[i].useForced = true; x.steps[i].forced = full; })) continue;
                for (size_t chunk = full.size() / 2; chunk >= 1; chunk /= 2) {
                    for (size_t a = 0; a < t.steps[i].forced.size() && now() < until; a += chunk)
                        for (unsigned char k = 0; k < t.steps[i].ps.size(); k++)
                            if (tryT([&](Trial &x) { for (size_t q = a; q < a + chunk && q < x.steps[i].forced.size(); q++) x.steps[i].forced[q] = k; })) break;
                    if (full.size() / chunk > 400) break;
                }
                // what follows the last entry is run in order of the processes
                while (!t.steps[i].forced.empty() && tryT([&](Trial &x) { x.steps[i].forced.resize(x.steps[i].forced.size() / 2); })) {}
            }
        }
    }
};

// ------------------------------------------------------------------ check
static string jstr(const string &s) {
    string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; }
    return o + "\"";
}
static vector<string> read_lines(const string &p) {
    vector<string> v;
    FILE *f = fopen(p.c_str(), "r");
    if (!f) return v;
    char b[4096];
    while (fgets(b, sizeof b, f)) { string s = b; while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); v.push_back(s); }
    fclose(f);
    return v;
}
struct Args { string prop, tier = "quick", evidence, replays = ".", known; u64 seed = 1, episodes = 2000; int workers = 0; double wall = 600, mini = 60; };

static void write_evidence(const Args &a, const Stats &st, double wall, int violations, u64 done) {
    if (a.evidence.empty()) return;
    string o = "{\n";
    o += " \"property\": " + jstr(a.prop) + ",\n \"tier\": " + jstr(a.tier) + ",\n \"seed\": " + S(a.seed) + ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
    o += "  \"evaluations\": " + S(st.evals) + ",\n  \"distinct_nontrivial\": " + S(st.states.size()) + ",\n";
    o += "  \"rule\": " + jstr(string("An evaluation is one trial: a generated program, options, environment and fault plan run on the simulated disk and judged by the oracle. Counted: ") + prop_rule(a.prop) + ".") + ",\n";
    o += "  \"samples\": [";
    for (size_t i = 0; i < st.samples.size(); i++) o += (i ? ",\n   " : "\n   ") + jstr(st.samples[i]);
    o += "\n  ],\n";
    o += "  \"seeds\": " + S(st.eps) + ",\n  \"seeds_without_usable_program\": " + S(st.skipped) + ",\n  \"episodes_requested\": " + S(done) + ",\n  \"judged\": " + S(st.valid) + ",\n  \"fault_free_trials\": " + S(st.faultfree) + ",\n  \"nontrivial_trials\": " + S(st.nontrivial) + ",\n";
    o += "  \"simulated_runs\": " + S(st.runs) + ",\n  \"simulated_file_operations\": " + S(st.events) + ",\n  \"basic_block_steps\": " + S(st.steps) + ",\n  \"most_steps_in_one_run\": " + S(st.maxSteps) + ",\n  \"simulated_seconds\": " + S(st.simtime / 1000000) + ",\n";
    char b[200];
    snprintf(b, sizeof b, "  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n", st.runs / wall * 3600, st.eps / wall * 3600);
    o += b;
    o += "  \"distinct_executed_block_sets\": " + S(st.cover.size()) + ",\n";
    if (a.prop == "C09") o += "  \"distinct_interleavings\": " + S(st.scheds.size()) + ",\n";
    o += "  \"trials_run_twice_same_hash\": " + S(st.twice - st.mismatch) + ",\n";
    o += "  \"faults_fired\": {";
    bool f = true;
    for (auto &x : st.fired) { o += (f ? "" : ", ") + jstr(x.first) + ": " + S(x.second); f = false; }
    o += "},\n  \"probes\": {";
    f = true;
    for (auto &x : st.probes) { o += (f ? "" : ", ") + jstr(x.first) + ": " + S(x.second); f = false; }
    o += "},\n  \"known_findings_met\": " + S(st.known.size()) + ",\n";
    o += "  \"real_code\": [\"all of dasm and ftohex as built by their own Makefile\", \"glibc stdio buffering and formatting\"],\n  \"stubs\": [\"file system and descriptors\", \"heap allocator\", \"process start and exit\", \"clock and environment\", \"scheduler\"]\n";
    snprintf(b, sizeof b, " },\n \"wall_s\": %.2f,\n", wall);
    o += b;
    o += " \"assumptions\": [\"the reference model of the generated language subset\", \"stdio calls are the only way the programs reach the outside\"],\n \"violations\": " + S(violations) + "\n}\n";
    string tmp = a.evidence + ".tmp";
    FILE *fp = fopen(tmp.c_str(), "w");
    if (!fp) return;
    fwrite(o.data(), 1, o.size(), fp);
    fclose(fp);
    rename(tmp.c_str(), a.evidence.c_str());
}
// A violation counts only when its seed gives it twice and its replay file gives it in a fresh process.
// 1: reported; 2: not repeatable
static int confirm(const Args &a, const Found &f) {
    printf("violation in seed %llu (episode %llu, trial %d): %s: %s\n", (unsigned long long)ep_seed(a.seed, f.ep), (unsigned long long)f.ep, f.trial, f.v.kind.c_str(), f.v.msg.c_str());
    fflush(stdout);
    // gate: the same seed twice
    Mini m;
    if (!make_ctx(a.prop, ep_seed(a.seed, f.ep), m.c)) { fprintf(stderr, "error: context cannot be made again\n"); return 2; }
    {
        // fault positions come from profile runs, which may be what fails: make the trial in a child
        int p[2];
        if (pipe(p)) return 2;
        pid_t k = fork();
        if (k == 0) { alarm(60); Rng r = trial_rng(m.c.seed, f.trial); Trial t = make_trial(m.c, r); wr(p[1], trial_str(t)); _exit(0); }
        close(p[1]);
        string s;
        char b[65536];
        ssize_t n;
        while ((n = read(p[0], b, sizeof b)) > 0) s.append(b, n);
        close(p[0]);
        waitpid(k, nullptr, 0);
        vector<string> l;
        size_t x = 0, q;
        while ((q = s.find('\n', x)) != string::npos) { l.push_back(s.substr(x, q - x)); x = q + 1; }
        if (!trial_parse(l, m.t)) {
            PSpec p0;
            m.t = Trial();
            Step s0;
            s0.ps.push_back(p0);
            s0.keep = true;
            m.t.steps.push_back(s0);
        }
    }
    Verdict v[2];
    for (int i = 0; i < 2; i++) { Remote R = eval_remote([&]() { return eval_trial(m.c, m.t); }); v[i] = R.v; }
    if (v[0].kind != f.v.kind || v[0].hash != f.v.hash || v[1].hash != v[0].hash || v[1].kind != v[0].kind) {
        fprintf(stderr, "error: the violation is not reproduced by its seed (%s %llu / %s %llu / %s %llu)\n", f.v.kind.c_str(), (unsigned long long)f.v.hash, v[0].kind.c_str(), (unsigned long long)v[0].hash, v[1].kind.c_str(), (unsigned long long)v[1].hash);
        return 2;
    }
    Ctx c0 = m.c;
    Trial t0_ = m.t;
    m.kind = f.v.kind;
    m.v = v[0];
    m.until = now() + a.mini;
    m.run();
    mkdir(a.replays.c_str(), 0777);
    string path = a.replays + "/" + a.prop + "-" + S(c0.seed) + ".replay";
    auto gate = [&](const Ctx &c, const Trial &t, const Verdict &vv) {
        FILE *fp = fopen(path.c_str(), "w");
        if (!fp) return false;
        string txt = replay_text(c, t, vv, "minimised: " + S(m.tried) + " reductions tried, " + S(m.taken) + " taken; found as episode " + S(f.ep) + " trial " + S(f.trial) + " of VERIF_SEED=" + S(a.seed));
        fwrite(txt.data(), 1, txt.size(), fp);
        fclose(fp);
        fflush(stdout);
        pid_t k = fork();
        if (k == 0) { execl(g_self.c_str(), g_self.c_str(), "replay", path.c_str(), (char *)nullptr); _exit(9); }
        int ws = 0;
        waitpid(k, &ws, 0);
        return WIFEXITED(ws) && WEXITSTATUS(ws) == 1;
    };
    if (!gate(m.c, m.t, m.v)) {
        fprintf(stderr, "note: the minimised execution does not replay, falling back to the original\n");
        if (!gate(c0, t0_, v[0])) { fprintf(stderr, "error: the violation does not replay in a fresh process\n"); return 2; }
    } else printf("minimised: %d statements, %s\n", count_nodes(m.c.progs[0], m.c.masks[0]), one(m.v.msg).c_str());
    printf("VIOLATION property=%s replay=%s\n", a.prop.c_str(), path.c_str());
    return 1;
}
static int cmd_check(Args a) {
    double t0 = now();
    vector<string> known = read_lines(a.known);
    if (a.workers <= 0) { long n = sysconf(_SC_NPROCESSORS_ONLN); a.workers = n < 1 ? 1 : n > 16 ? 16 : (int)n; }
    g_shared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct Kid { pid_t pid; int fd; u64 batch; string buf; int slot; u64 lastProg; double lastTime; };
    vector<Kid> kids;
    Stats st;
    u64 nb = (a.episodes + BATCH - 1) / BATCH, next = 0, doneEps = 0;
    bool stop = false;
    vector<bool> used(64, false);
    vector<Found> found;
    auto spawn = [&](u64 b) {
        int p[2];
        if (pipe(p)) { perror("pipe"); exit(2); }
        int slot = 0;
        while (used[slot]) slot++;
        used[slot] = true;
        g_shared->prog[slot] = b * BATCH * 64;
        fflush(stdout); fflush(stderr);
        pid_t k = fork();
        if (k < 0) { perror("fork"); exit(2); }
        if (k == 0) {
            close(p[0]);
            for (auto &x : kids) close(x.fd);
            Stats s;
            for (u64 e = b * BATCH; e < (b + 1) * BATCH && e < a.episodes; e++) { run_episode(a.prop, a.seed, e, known, s, slot, b != 0); if (!s.found.empty()) break; }
            wr(p[1], stats_text(s));
            _exit(0);
        }
        close(p[1]);
        kids.push_back({k, p[0], b, "", slot, 0, now()});
    };
    int tries = 0;
    auto search = [&]() {
      while (true) {
        while (!stop && (int)kids.size() < a.workers && next < nb && now() - t0 < a.wall) { spawn(next); doneEps = std::min(a.episodes, (next + 1) * (u64)BATCH); next++; }
        if (kids.empty()) break;
        vector<pollfd> pf;
        for (auto &k : kids) pf.push_back({k.fd, POLLIN, 0});
        poll(pf.data(), pf.size(), 500);
        for (size_t i = kids.size(); i-- > 0;) {
            Kid &k = kids[i];
            bool end = false;
            if (pf[i].revents) { char b[65536]; ssize_t n = read(k.fd, b, sizeof b); if (n > 0) k.buf.append(b, n); else if (n == 0) end = true; }
            if (g_shared->prog[k.slot] != k.lastProg) { k.lastProg = g_shared->prog[k.slot]; k.lastTime = now(); }
            if (!end && now() - k.lastTime > 100) kill(k.pid, SIGKILL);
            if (!end) continue;
            int ws = 0;
            waitpid(k.pid, &ws, 0);
            close(k.fd);
            used[k.slot] = false;
            if (!merge(st, k.buf)) {
                // the run took the simulating process with it: does it do so again?
                u64 pr = g_shared->prog[k.slot];
                u64 ep = pr / 64;
                int tr = (int)(pr % 64);
                Remote R = eval_remote([&]() { Ctx c; make_ctx(a.prop, ep_seed(a.seed, ep), c); Rng r = trial_rng(c.seed, tr); Trial t = make_trial(c, r); return eval_trial(c, t); });
                if (!R.died && R.v.kind.empty()) { fprintf(stderr, "error: worker for episode %llu trial %d died (status %d) and does not do so again\n", (unsigned long long)ep, tr, ws); return false; }
                Found f;
                f.ep = ep; f.trial = tr; f.v = R.v;
                st.found.push_back(f);
            }
            kids.erase(kids.begin() + i);
        }
        if (!st.found.empty() || (!st.bad.empty() && !tries)) stop = true;
      }
      return true;
    };
    if (!search()) return 2;
    // what does not repeat itself is not reported: the search goes on for something that does
    while ((!st.found.empty() || !st.bad.empty()) && tries < 40) {
        if (!tries) write_evidence(a, st, now() - t0, (int)!st.found.empty(), doneEps);
        std::sort(st.found.begin(), st.found.end(), [](const Found &x, const Found &y) { return x.ep < y.ep; });
        for (auto &f : st.found) { if (now() - t0 < a.wall + 120 && confirm(a, f) == 1) return 1; tries++; }
        if (st.found.empty()) tries++;
        st.found.clear();
        if (next >= nb || now() - t0 >= a.wall) break;
        stop = false;
        if (!search()) return 2;
    }
    double wall = now() - t0;
    if (!st.bad.empty()) {
        for (auto &b : st.bad) fprintf(stderr, "error: not deterministic: %s\n", b.c_str());
        write_evidence(a, st, wall, 0, doneEps);
        return 2;
    }
    set<string> ks(st.known.begin(), st.known.end());
    for (auto &k : ks) { size_t q = k.find(" text="); printf("KNOWN-FINDING: property=%s %s\n", a.prop.c_str(), q == string::npos ? k.c_str() : k.c_str() + q + 6); }
    write_evidence(a, st, wall, tries > 0, doneEps);
    if (tries) { fprintf(stderr, "error: %d violations were seen, none of them repeats itself\n", tries); return 2; }
    if (st.valid == 0 || st.nontrivial == 0) { fprintf(stderr, "error: property %s: nothing was judged (%llu evaluations)\n", a.prop.c_str(), (unsigned long long)st.evals); return 2; }
    printf("held: property=%s seeds=%llu evaluations=%llu judged=%llu distinct=%zu runs=%llu wall=%.1fs\n", a.prop.c_str(), (unsigned long long)st.eps, (unsigned long long)st.evals, (unsigned long long)st.valid, st.states.size(), (unsigned long long)st.runs, wall);
    return 0;
}

// ------------------------------------------------------------------ self tests
// fault-free runs of generated programs against the model
static int cmd_selftest(int a, int b, bool show) {
    int bad = 0, fail = 0, mfail = 0;
    for (int s = a; s < b; s++) {
        Ctx c;
        Rng r(s);
        GenCfg cfg = gen_cfg(r);
        cfg.versions = s % 4 == 0;
        c.progs.push_back(gen_prog(r, cfg));
        c.masks.emplace_back();
        c.rebuild();
        const ModelOut &mo = c.mo[0];
        PSpec p;
        p.o.fmt = 1 + s % 3;
        if (mo.bin(1) == "<reverse>") p.o.fmt = 2;
        p.o.lst = "out.lst"; p.o.sym = "out.sym"; p.o.sort = s % 3;
        p.env.memseed = s;
        World w;
        for (auto &f : c.files) w.disk.put(f.first, f.second);
        ProcSpec ps;
        ps.argv = spec_argv(c, p);
        ps.env = p.env;
        ps.epochFile = c.progs[0].mainName;
        auto q = w.run1(ps);
        string why;
        if (!mo.ok) { mfail++; if (show) printf("seed %d model: %s\n", s, mo.why.c_str()); }
        if (!q.ok()) { fail++; if (mo.ok) why = "failed: " + q.brief() + "\n" + q.out.substr(0, 500); }
        else if (mo.ok) {
            if (w.disk.get("out.bin") != mo.bin(p.o.fmt)) why = "binary differs";
            else if ((why = check_listing(w.disk.get("out.lst"), mo, node_lines(c.progs[0], c.masks[0]))).empty()) why = check_symfile(w.disk.get("out.sym"), mo, p.o.sort);
        }
        if (!why.empty()) {
            bad++;
            printf("seed %d: %s\n", s, why.c_str());
            if (show) { for (auto &x : c.files) if (x.first.find(".dat") == string::npos) printf("=== %s\n%s", x.first.c_str(), x.second.c_str()); printf("=== lst\n%s=== sym\n%s", w.disk.get("out.lst").c_str(), w.disk.get("out.sym").c_str()); }
        }
    }
    printf("bad %d runfail %d modelfail %d of %d\n", bad, fail, mfail, b - a);
    return bad ? 1 : 0;
}
// hash of every trial of a range of episodes
static int cmd_hashes(const string &prop, u64 base, u64 a, u64 b) {
    for (u64 e = a; e < b; e++) {
        Ctx c;
        if (!make_ctx(prop, ep_seed(base, e), c)) { printf("%llu -\n", (unsigned long long)e); continue; }
        u64 h = 1;
        for (int k = 0; k < TRIALS; k++) { Rng r = trial_rng(c.seed, k); Trial t = make_trial(c, r); Verdict v = eval_trial(c, t); h = mix(mix(mix(h, v.hash), hashstr(v.kind + v.msg)), hashstr(trial_str(t))); }
        printf("%llu %llu\n", (unsigned long long)e, (unsigned long long)h);
    }
    return 0;
}
static int cmd_show(const string &prop, u64 base, u64 ep, int tr) {
    Ctx c;
    if (!make_ctx(prop, ep_seed(base, ep), c)) { printf("no context\n"); return 2; }
    Rng r = trial_rng(c.seed, tr);
    Trial t = make_trial(c, r);
    Verdict v = eval_trial(c, t);
    printf("%s", replay_text(c, t, v, v.valid ? "judged" : "not judged").c_str());
    for (auto &p : v.probes) printf("probe: %s\n", p.c_str());
    return 0;
}
static int run(int argc, char **argv) {
    char *rp = realpath("/proc/self/exe", nullptr);
    g_self = rp ? rp : argv[0];
    int per = personality(0xffffffff);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("DASMSIM_REEXEC")) {
        setenv("DASMSIM_REEXEC", "1", 1);
        if (personality(per | ADDR_NO_RANDOMIZE) != -1) execv(g_self.c_str(), argv);
    }
    string dir = g_self.substr(0, g_self.rfind('/')), err;
    if (!sim_load(dir + "/dasm.so", dir + "/ftohex.so", 4, err)) { fprintf(stderr, "error: %s\n", err.c_str()); return 2; }
    string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "selftest" && argc >= 4) return cmd_selftest(atoi(argv[2]), atoi(argv[3]), argc > 4);
    if (cmd == "replay" && argc == 3) return cmd_replay(argv[2]);
    if (cmd == "hashes" && argc == 6) return cmd_hashes(argv[2], strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), strtoull(argv[5], 0, 10));
    if (cmd == "show" && argc == 6) return cmd_show(argv[2], strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), atoi(argv[5]));
    if (cmd == "check" && argc >= 3) {
        Args a;
        a.prop = argv[2];
        if (std::find(prop_ids().begin(), prop_ids().end(), a.prop) == prop_ids().end()) { fprintf(stderr, "error: unknown property %s\n", argv[2]); return 2; }
        for (int i = 3; i + 1 < argc; i += 2) {
            string k = argv[i], v = argv[i + 1];
            if (k == "--seed") a.seed = strtoull(v.c_str(), 0, 10);
            else if (k == "--tier") a.tier = v;
            else if (k == "--episodes") a.episodes = strtoull(v.c_str(), 0, 10);
            else if (k == "--workers") a.workers = atoi(v.c_str());
            else if (k == "--wall") a.wall = atof(v.c_str());
            else if (k == "--minimise") a.mini = atof(v.c_str());
            else if (k == "--evidence") a.evidence = v;
            else if (k == "--replays") a.replays = v;
            else if (k == "--known") a.known = v;
            else { fprintf(stderr, "error: unknown option %s\n", k.c_str()); return 2; }
        }
        return cmd_check(a);
    }
    fprintf(stderr, "usage: dasmsim check ID [--seed N ...] | replay FILE | selftest A B | hashes ID SEED A B | show ID SEED EPISODE TRIAL\n");
    return 2;
}
int main(int argc, char **argv) {
    int rc = run(argc, argv);
    // streams of killed processes stay as they were when the kill came, so the C library must not flush them
    fflush(stdout);
    fflush(stderr);
    _exit(rc);
}
