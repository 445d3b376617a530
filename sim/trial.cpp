#include "trial.hpp"
#include <algorithm>
#include <functional>

static string S(long v) { return std::to_string(v); }
const vector<string> &prop_ids() {
    static const vector<string> v = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19"};
    return v;
}

// ------------------------------------------------------------------ text form of a trial
static string hexs(const string &s) { static const char d[] = "0123456789abcdef"; string o = "x"; for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; } return o; }
static string unhex(const string &s) { string o; auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }; for (size_t i = 1; i + 1 < s.size(); i += 2) o += (char)(v(s[i]) * 16 + v(s[i + 1])); return o; }
static string dash(const string &s) { return s.empty() ? "-" : s; }
static string undash(const string &s) { return s == "-" ? "" : s; }
string trial_str(const Trial &t) {
    string o;
    for (auto &p : t.par) o += "par " + p.first + " " + S(p.second) + "\n";
    for (auto &p : t.inputs) o += "input " + p.first + " " + hexs(p.second) + "\n";
    for (auto &p : t.junk) o += "junk " + p.first + " " + hexs(p.second) + "\n";
    for (auto &s : t.steps) {
        o += "step " + S(s.sched) + " " + S(s.power) + " " + S(s.keep) + " " + S(s.useForced);
        if (s.useForced) { o += " x"; for (auto c : s.forced) o += (char)('0' + c); }
        o += "\n";
        for (auto &p : s.ps) {
            o += "proc " + S(p.tool) + " " + S(p.prog) + " " + S(p.hfmt) + " " + dash(p.hin) + " " + dash(p.hout) + " " + S(p.o.fmt) + " " + dash(p.o.out) + " " + dash(p.o.lst) + " " + dash(p.o.sym) + " " +
                 S(p.o.all) + " " + S(p.o.R) + " " + S(p.o.P) + " " + S(p.o.sort) + " " + S(p.o.verbose) + " " + S(p.o.err) + " " + S(p.o.passes) + " " + S((long)p.o.order) + " " + dash(p.o.extra) + "\n";
            o += "env " + env_str(p.env) + "\n";
        }
        for (auto &f : s.faults) o += "fault " + fault_str(f) + "\n";
    }
    return o;
}
static vector<string> words(const string &l) { vector<string> v; size_t a = 0; while (a < l.size()) { size_t b = l.find(' ', a); if (b == string::npos) b = l.size(); if (b > a) v.push_back(l.substr(a, b - a)); a = b + 1; } return v; }
bool trial_parse(const vector<string> &lines, Trial &t) {
    for (auto &l : lines) {
        auto w = words(l);
        if (w.empty()) continue;
        size_t sp = l.find(' ');
        string rest = sp == string::npos ? "" : l.substr(sp + 1);
        if (w[0] == "par" && w.size() == 3) t.par[w[1]] = atol(w[2].c_str());
        else if (w[0] == "input" && w.size() == 3) t.inputs[w[1]] = unhex(w[2]);
        else if (w[0] == "junk" && w.size() == 3) t.junk[w[1]] = unhex(w[2]);
        else if (w[0] == "step" && w.size() >= 5) {
            Step s;
            s.sched = strtoull(w[1].c_str(), 0, 10); s.power = strtoull(w[2].c_str(), 0, 10);
            s.keep = w[3] == "1"; s.useForced = w[4] == "1";
            if (s.useForced && w.size() > 5) for (size_t i = 1; i < w[5].size(); i++) s.forced.push_back(w[5][i] - '0');
            t.steps.push_back(s);
        } else if (w[0] == "proc" && w.size() == 19 && !t.steps.empty()) {
            PSpec p;
            p.tool = atoi(w[1].c_str()); p.prog = atoi(w[2].c_str()); p.hfmt = atoi(w[3].c_str()); p.hin = undash(w[4]); p.hout = undash(w[5]);
            p.o.fmt = atoi(w[6].c_str()); p.o.out = undash(w[7]); p.o.lst = undash(w[8]); p.o.sym = undash(w[9]);
            p.o.all = w[10] == "1"; p.o.R = w[11] == "1"; p.o.P = w[12] == "1"; p.o.sort = atoi(w[13].c_str()); p.o.verbose = atoi(w[14].c_str());
            p.o.err = atoi(w[15].c_str()); p.o.passes = atoi(w[16].c_str()); p.o.order = (u64)atol(w[17].c_str()); p.o.extra = undash(w[18]);
            t.steps.back().ps.push_back(p);
        } else if (w[0] == "env" && !t.steps.empty() && !t.steps.back().ps.empty()) { if (!env_parse(rest, t.steps.back().ps.back().env)) return false; }
        else if (w[0] == "fault" && !t.steps.empty()) { Fault f; if (!fault_parse(rest, f)) return false; t.steps.back().faults.push_back(f); }
        else return false;
    }
    return !t.steps.empty();
}

// ------------------------------------------------------------------ running
vector<string> spec_argv(const Ctx &c, const PSpec &p) {
    vector<string> v;
    if (p.tool == 1) { v = {S(p.hfmt), p.hin}; if (!p.hout.empty()) v.push_back(p.hout); return v; }
    const Prog &g = c.progs[p.prog];
    const Opts &o = p.o;
    vector<vector<string>> gr;
    if (o.fmt != 1 || o.order % 2) gr.push_back({"-f" + S(o.fmt)});
    if (!o.out.empty()) gr.push_back({"-o" + o.out});
    if (!o.lst.empty()) gr.push_back({(o.all ? "-L" : "-l") + o.lst});
    if (!o.sym.empty()) gr.push_back({"-s" + o.sym});
    if (o.sort >= 0) gr.push_back({"-T" + S(o.sort)});
    if (o.verbose >= 0) gr.push_back({"-v" + S(o.verbose)});
    if (o.err >= 0) gr.push_back({"-E" + S(o.err)});
    if (o.passes) gr.push_back({(o.P ? "-P" : "-p") + S(o.passes == -1 ? 0 : o.passes)});
    if (o.R) gr.push_back({"-R"});
    if (!o.extra.empty()) gr.push_back({o.extra});
    vector<string> inc, def;
    for (auto &d : g.incdirs) inc.push_back("-I" + d);
    for (size_t i = 0; i < g.defs.size(); i++) if (!c.masks[p.prog].count(-(int)i - 1)) {
        string nm = g.defs[i].first, vl = S(g.defs[i].second);
        int k = g.defKind[i];
        if (k == 3) vl = xlist(g.mdefs.at(nm).x);
        def.push_back(k == 1 ? "-D" + nm : k == 2 ? "-D" + nm + "=$" + vl : (k == 3 ? "-M" : "-D") + nm + "=" + vl);
    }
    if (!inc.empty()) gr.push_back(inc);
    if (!def.empty()) gr.push_back(def);
    if (o.order) { Rng r(o.order); for (size_t i = gr.size(); i > 1; i--) std::swap(gr[i - 1], gr[r.below(i)]); }
    v.push_back(g.mainName);
    if (o.order % 7 == 3) gr.push_back({"-m200000"});
    const ModelOut &m = p.prog ? c.mo[p.prog] : c.base;
    if (o.order % 5 == 2 && m.ok && m.strict && c.prop != "C17" && c.prop != "C19" && c.err.kind < 0 && !c.shape) gr.push_back({"-S"});
    if (c.err.strict) gr.push_back({"-S"});
    if (o.order % 17 == 8) for (auto &k : gr) for (auto &x : k) if (x[0] == '-') x[0] = '/';
    for (auto &k : gr) for (auto &x : k) v.push_back(x);
    return v;
}
void Ctx::rebuild() {
    cache.clear();
    fine.clear();
    files.clear();
    mo.clear();
    lines.clear();
    for (size_t i = 0; i < progs.size(); i++) {
        auto f = render(progs[i], masks[i]);
        files.insert(f.begin(), f.end());
        mo.push_back(model(progs[i], masks[i]));
    }
    if (err.kind >= 0) {
        Prog p = progs[0];
        std::function<void(vector<Node> &)> strip = [&](vector<Node> &b) { for (size_t i = 0; i < b.size();) { if (b[i].id == err.node) b.erase(b.begin() + i); else { strip(b[i].kids); strip(b[i].alt); i++; } } };
        strip(p.body);
        base = model(p, masks[0]);
    } else base = mo[0];
}
static Outcome capture(const World &w, const PSpec &p, RunResult &&r) {
    Outcome o;
    o.r = std::move(r);
    auto get = [&](const string &n, bool &has, string &d) { if (!n.empty() && w.disk.has(n)) { has = true; d = w.disk.get(n); } };
    if (p.tool == 1) { if (p.hout.empty()) { o.hasBin = true; o.bin = o.r.out; } else get(p.hout, o.hasBin, o.bin); }
    else { get(p.o.outName(), o.hasBin, o.bin); get(p.o.lst, o.hasLst, o.lst); get(p.o.sym, o.hasSym, o.sym); }
    return o;
}
static ProcSpec toProc(const Ctx &c, const PSpec &p) {
    ProcSpec s;
    s.ftohex = p.tool == 1;
    s.argv = spec_argv(c, p);
    s.env = p.env;
    s.epochFile = p.tool == 1 ? p.hin : c.progs[p.prog].mainName;
    return s;
}
// the undisturbed run in a clean directory; env as given, cached
static const Outcome &solo(Ctx &c, const Trial &t, const PSpec &p, const vector<Fault> &faults = {}) {
    string key = env_str(p.env);
    for (auto &a : spec_argv(c, p)) key += "|" + a;
    if (p.tool == 1) key += "|" + S((long)hashstr(t.inputs.count(p.hin) ? t.inputs.at(p.hin) : string()));
    for (auto &f : faults) key += "|" + fault_str(f);
    auto it = c.cache.find(key);
    if (it != c.cache.end()) return it->second;
    World w;
    for (auto &f : c.files) w.disk.put(f.first, f.second);
    for (auto &f : t.inputs) w.disk.put(f.first, f.second);
    w.faults = faults;
    RunResult r = w.run1(toProc(c, p));
    return c.cache[key] = capture(w, p, std::move(r));
}
static const Outcome &golden(Ctx &c, const Trial &t, PSpec p) { p.env = Env(); return solo(c, t, p); }

struct Exec {
    vector<vector<Outcome>> o;
    vector<vector<Fault>> faults;       // with fired counts
    vector<vector<unsigned char>> sched;
    map<string, string> start, end;     // files before and after
    vector<map<string, string>> before; // files before each step
    u64 hash = 77, state = 5;
    int fired = 0;
    bool firedOn(int op, const string &path) const { for (auto &v : faults) for (auto &f : v) if (f.fired && f.op == op && f.path == path) return true; return false; }
};
static Exec execTrial(const Ctx &c, const Trial &t, bool keepBefore = false) {
    Exec e;
    World w;
    for (auto &f : c.files) w.disk.put(f.first, f.second);
    for (auto &f : t.inputs) w.disk.put(f.first, f.second);
    for (auto &f : t.junk) w.disk.put(f.first, f.second);
    for (auto &f : w.disk.files) e.start[f.first] = f.second->data;
    if (c.prop == "C19")
        for (auto &n : c.progs[0].where) {
            int k = versions_of(c.progs[0], n.first);
            for (int v = 0; v < k; v++) w.versions[n.second[0].first].push_back(render_version(c.progs[0], c.masks[0], n.first, v));
        }
    for (auto &s : t.steps) {
        if (keepBefore) { e.before.emplace_back(); for (auto &f : w.disk.files) e.before.back()[f.first] = f.second->data; }
        w.faults = s.faults;
        w.diskLeft = -1;
        w.powerSeed = s.power;
        w.forcedSchedule = s.forced;
        w.useForced = s.useForced;
        vector<ProcSpec> ps;
        for (auto &p : s.ps) ps.push_back(toProc(c, p));
        auto rr = w.run(ps, s.sched);
        vector<Outcome> os;
        for (size_t i = 0; i < rr.size(); i++) {
            e.hash = mix(e.hash, rr[i].hash);
            e.state = mix(mix(mix(e.state, rr[i].cover), (u64)rr[i].end), (u64)rr[i].status);
            os.push_back(capture(w, s.ps[i], std::move(rr[i])));
        }
        for (auto &f : w.faults) { e.fired += f.fired > 0; e.hash = mix(e.hash, f.fired); if (f.fired) e.state = mix(mix(e.state, (u64)f.op), mix((u64)f.eff, hashstr(f.path))); }
        e.o.push_back(std::move(os));
        e.faults.push_back(w.faults);
        e.sched.push_back(w.scheduleTrace);
        // what was not synced becomes durable some time after the processes are gone
        for (auto &f : w.disk.files) f.second->durable = f.second->data;
    }
    for (auto &f : w.disk.files) { e.end[f.first] = f.second->data; e.hash = mix(mix(e.hash, hashstr(f.first)), hashstr(f.second->data)); }
    return e;
}

// ------------------------------------------------------------------ random pieces
static int passesOf(const Ctx &c, const Outcome &o, int prog = 0) { auto i = o.r.prof.find("openr " + c.progs[prog].mainName); return i == o.r.prof.end() ? 0 : (int)i->second; }
static Env randEnv(Rng &r) {
    Env e;
    e.memseed = r.next() >> 1;
    static const int b[] = {4096, 4096, 4096, 0, 0, 16, 100, 512, 1024, 8192, 65536};
    e.rbuf = r.chance(3) ? 1 : b[r.below(11)];
    e.wbuf = r.chance(3) ? 1 : b[r.below(11)];
    static const int k[] = {0, 0, 0, 0, -1, -1, 1, 7, 100, 512, 1000};
    e.rchunk = k[r.below(11)];
    e.wchunk = k[r.below(11)];
    if (e.rchunk == 1 && r.chance(70)) e.rchunk = 33;
    if (e.wchunk == 1 && r.chance(70)) e.wchunk = 33;
    e.environ_ = r.chance(30);
    e.latseed = r.next() >> 1;
    return e;
}
static Opts randOpts(Rng &r, const Ctx &c, int prog = 0) {
    Opts o;
    o.fmt = (int)r.range(1, 3);
    const ModelOut &m = prog ? c.mo[prog] : c.base;
    if (m.ok && o.fmt != 2 && m.bin(1) == "<reverse>") o.fmt = 2;
    static const char *outs[] = {"out.bin", "out.bin", "prog.prg", "o/rom.a26", ""};
    o.out = outs[r.below(5)];
    if (r.chance(55)) { static const char *l[] = {"out.lst", "main.lst", "o/listing"}; o.lst = l[r.below(3)]; o.all = r.chance(40); }
    if (r.chance(55)) { static const char *l[] = {"out.sym", "syms.txt", "o/s"}; o.sym = l[r.below(3)]; }
    if (r.chance(50)) o.sort = (int)r.below(3);
    if (r.chance(25)) o.verbose = (int)r.below(5);
    if (r.chance(30)) o.err = (int)r.below(3);
    if (r.chance(25)) { o.passes = (int)r.range(12, 30); o.P = r.chance(30); }
    o.R = r.chance(20);
    if (r.chance(60)) o.order = 1 + r.below(1000000);
    return o;
}
static long randErrno(Rng &r) { static const int e[] = {5, 28, 13, 4, 24, 11, 2, 122}; return e[r.below(8)]; }
static u64 randNth(Rng &r, u64 n) {
    if (n <= 1) return 1;
    int k = (int)r.below(10);
    if (k < 4) return 1 + r.below(n);
    if (k < 8) return n - r.below(std::min<u64>(n, 3));
    return 1 + r.below(std::min<u64>(n, 3));
}
static u64 randCount(Rng &r) { int k = (int)r.below(100); return k < 55 ? 1 : k < 70 ? (u64)r.range(2, 5) : 0; }
static const char *badOpts[] = {"-f9", "-f0", "-T7", "-E5", "-x", "-o", "-l", "-s", "-m3", "stray", "/q"};
typedef std::function<bool(int, const string &)> Want;
// a fault on one of the operations that the run would perform
static bool pickFault(Rng &r, const Outcome &g, const Want &want, Fault &f) {
    struct K { int op; string path; u64 n; };
    vector<K> v;
    for (auto &k : g.r.prof) {
        size_t sp = k.first.find(' ');
        string on = k.first.substr(0, sp), path = k.first.substr(sp + 1);
        for (int op = 0; op < OP_NKINDS; op++)
            if (on == op_name(op) && want(op, path)) v.push_back({op, path, k.second});
    }
    if (v.empty()) return false;
    const K &k = v[r.below(v.size())];
    f = Fault();
    f.op = k.op; f.path = k.path;
    f.nth = randNth(r, k.n + (r.chance(10) ? 2 : 0));
    f.count = randCount(r);
    f.eff = E_FAIL;
    f.arg = randErrno(r);
    if (k.op == OP_WRITE && r.chance(35)) { f.eff = E_PARTIAL; f.arg = r.chance(50) ? (long)r.below(16) : (long)r.below(2000); }
    if (k.op == OP_CLOSE && r.chance(40)) { f.eff = E_LOSECLOSE; f.arg = 5; }
    return true;
}
static Fault diskFull(Rng &r, const Outcome &g) {
    Fault f;
    f.eff = E_DISKFULL;
    f.nth = randNth(r, g.r.events);
    f.arg = r.chance(40) ? 0 : (long)r.below(r.chance(50) ? 64 : 5000);
    f.count = r.chance(60) ? 0 : (u64)r.range(1, 60);
    return f;
}
static Fault allocFault(Rng &r, const Outcome &g) {
    Fault f;
    f.op = OP_ALLOC;
    f.nth = randNth(r, g.r.allocs);
    f.count = r.chance(60) ? 1 : r.chance(50) ? 0 : (u64)r.range(2, 6);
    return f;
}
static Fault killFault(Rng &r, const Outcome &g, bool power) {
    Fault f;
    f.op = OP_ANY;
    f.nth = 1 + r.below(g.r.events + 1);
    f.eff = power ? E_POWER : E_KILL;
    f.arg = r.chance(50) ? 0 : (long)r.below(600);
    if (r.chance(40)) {
        Fault k;
        if (pickFault(r, g, [](int op, const string &p) { return (op == OP_WRITE || op == OP_CLOSE || op == OP_OPENW) && p[0] != '<'; }, k)) { k.eff = f.eff; k.arg = f.arg; k.count = 1; return k; }
    }
    return f;
}
static Fault anyFault(Rng &r, const Outcome &g, const Want &want) {
    Fault f;
    int k = (int)r.below(100);
    if (k < 12) return diskFull(r, g);
    if (k < 30) return allocFault(r, g);
    if (pickFault(r, g, want, f)) return f;
    return diskFull(r, g);
}
static vector<string> pathsOf(const Prog &p, const Mask &m, bool inc, bool bin) {
    vector<string> o;
    for (auto &n : input_names(p, m, inc, bin)) {
        auto w = p.where.find(n);
        if (w != p.where.end()) for (auto &k : w->second) o.push_back(k.first);
    }
    return o;
}
// included files that cannot be opened during some passes
static void outages(Rng &r, const Ctx &c, vector<Fault> &fs, int passes, int n, bool bins) {
    auto v = pathsOf(c.progs[0], c.masks[0], true, bins);
    if (v.empty()) return;
    for (int i = 0; i < n; i++) {
        Fault f;
        f.eff = E_OUTAGE;
        f.op = OP_OPENR;
        f.path = r.pick(v);
        f.nth = 1 + r.below(passes + i + 1);
        f.count = r.chance(60) ? 1 : (u64)r.range(2, 4);
        f.arg = randErrno(r);
        fs.push_back(f);
    }
}
static string junkBytes(Rng &r) {
    string s;
    size_t n = r.below(r.chance(20) ? 9000 : 200);
    bool text = r.chance(40);
    for (size_t i = 0; i < n; i++) s += text ? (char)(i % 30 == 29 ? '\n' : 32 + r.below(90)) : (char)r.below(256);
    return s;
}
static bool isOut(const PSpec &p, const string &path) { return p.tool == 1 ? path == p.hout : path == p.o.outName() || path == p.o.lst || path == p.o.sym; }
static bool isConsole(const string &p) { return p[0] == '<'; }

// ------------------------------------------------------------------ sources with an error
static const char *errNames[] = {"unknown mnemonic", "undefined symbol", "byte value out of range", "branch out of range", "illegal addressing mode", "ERR", "missing include", "missing incbin",
                                 "unterminated macro", "unterminated comment", "reverse origin", "conflicting label", "unknown processor", "undefined repeat count", "immediate value out of range", "undefined symbol in IF-free instruction",
                                 "include outside the search path", "many errors", "a line that is too long", "ALIGN 0", "DV without an EQM label", "missing macro argument", "division by zero", "a bad hex digit",
                                 "an unterminated string", "a stray end of comment", "undefined symbol in RORG", "undefined symbol in ECHO", "conflicting EQU", "undefined symbol in ORG", "an INCBIN that is not a name", "an unbalanced bracket", "a malformed number", "a second processor", "an impossible length", "illegal forced addressing mode", "ENDM without a macro", "undefined skip of an INCBIN", "undefined symbol in IF", "an illegal operand", "an expression nested too deeply", "endless recursion", "a value that strict mode does not allow"};
enum { NERR = 43 };
struct BadOp { const char *cpu; vector<const char *> ops; };
static const vector<BadOp> badOps = {
    {"6502", {"lda (-300),y", "lda (-300,x)", "ldx -300,y", "lda -300", "lda.w ($10),y", "lda.b ($10,x)", "sta.w ($10),y", "lda ($123),y", "stx $1234,y", "bne", "jmp.b 5", "lda ($10),x", "sta ($10),x", "cmp ($10,y)", "jmp ($10),y", "ldx ($10,x)", "lda 5 6"}},
    {"65c02", {"bra .+200", "bne .-127", "lda #$123", "sta #1", "bbr0 $10,.+200", "bbs7 $10,.-300", "stz #1", "rmb8 $10", "jmp #1", "bbr0 -300,.", "lda (-300)", "bbr0 $10", "bbs7 $100,.", "rmb1 $100"}},
    {"6803", {"ldaa #$123", "bra .+300", "staa #1", "bne .-127", "bsr .+130", "ldab #256", "oim #1,$10", "ldaa -300,x", "ldaa #-256", "ldaa $100,x"}},
    {"hd6303", {"ldaa #$123", "bra .+300", "staa #1", "bne .-127", "aim #1", "ldab #256", "ldaa -300,x", "ldaa $100,x"}},
    {"68705", {"bset 8,$10", "bclr 9,$10", "brset 8,$10,.", "brclr 1,$10,.+200", "bset 1,$100", "lda #$123", "bra .+200", "sta #1", "!brclr 1,$10", "bset 1", "bset -1,$10", "bclr 1,-300", "brset 1,-300,.", "brclr -2,$10,.", "brset 1,$100,.", "bclr 1,$1000"}},
    {"68hc11", {"ldaa #$123", "bra .+300", "staa #1", "!bset $10", "bset $10,$123", "!brclr $10,$1", "brclr $10,$1,.+300", "bset $100,$1", "brset $10,$1,.-300", "bset $10,-300", "bset -300,$10", "ldaa $100,x", "bclr $10,256", "!brset $10"}},
    {"68908", {"bset 8,$10", "bclr 9,$10", "brset 8,$10,.", "brset 1,$10,.+200", "bset 1,$100", "lda #$123", "bra .+200", "sta #1", "!brclr 1,$10", "bset 1", "bset -1,$10", "bclr 1,-300", "brset 1,-300,.", "brclr -2,$10,.", "brset 1,$100,.", "lda -300,sp", "cbeq -300,.", "dbnz 300,.", "mov #300,$10", "mov $300,$10", "mov #3,$1000", "cbeq $123,."}},
    {"f8", {"li 256", "!lr a,15", "lis 16", "!as 15", "bz .+200", "br .-300", "bnz .+129", "ins 16", "!jmp", "!lr q,a", "sl 3", "sr 2", "outs 16", "lisu 8", "lisl 9", "bt 8,.", "bf 16,.", "in 256", "ai 300", "!ni", "jmp $12345", "pi 65536", "dci $12345", "li -300", "lis -1", "!lr 5,3", "lr a", "bt 1", "bf 1", "!ds 17", "in -300", "!lr 15,a", "!lr w,a", "!xs -1", "bf 3,.+300", "bt 1,.-200", "lr a,b,c", "!ai 5,6", "!sl", "lisu -1"}},
};
static string badByte(Rng &r) {
    static const char *w[] = {"$123", "256", "-256", "-300", "65536", "-65535", "255+1", "-1-255", "$12345678", "%100000000", "128*2", "-128*2"};
    return r.chance(70) ? w[r.below(12)] : S(r.chance(50) ? r.range(256, 100000) : -r.range(256, 100000));
}
static bool addError(Prog &p, Rng &r, int kind, ErrInfo &e) {
    e.kind = kind;
    e.name = errNames[kind];
    Node n;
    n.kind = N_ERR; n.id = p.nextId++; n.pinned = true;
    bool atEnd = false, atStart = false, wrap = true;
    e.tied = true;
    bool m6502 = string(cpus[p.cpu].name) == "6502";
    switch (kind) {
    case 0: n.s = r.chance(50) ? "\tbogusop\t1,2" : "Lbl9x\tblah"; if (n.s[0] == 'L') wrap = false; if (r.chance(15)) n.s = "\t" + string(r.range(20, 800), 'q') + "\t1"; break;
    case 1: {
        static const char *w[] = {"dc.w\tUndefinedThing+1", "dc.b\t<UndefinedThing", "dc.l\t1,UndefinedThing,2", "ds\tUndefinedThing", "ds\t3,UndefinedThing", "align\tUndefinedThing", "align\t4,UndefinedThing", ".byte\tUndefinedThing", "word\t>UndefinedThing"};
        n.s = string("\t") + w[r.below(9)]; e.tied = false; break;
    }
    case 2: {
        static const char *w[] = {"dc.b", "dc", ".byte", "byte", "dc.b"};
        n.s = string("\t") + w[r.below(5)] + "\t";
        for (long k = r.below(4); k > 0; k--) n.s += S(r.below(200)) + ",";
        n.s += badByte(r);
        for (long k = r.below(3); k > 0; k--) n.s += "," + S(r.below(200));
        break;
    }
    case 3: {
        if (!m6502) return false;
        static const char *w[] = {"bne", "beq", "bcc", "bcs", "bpl", "bmi", "bvc", "bvs"};
        n.s = string("\t") + w[r.below(8)] + "\t." + (r.chance(50) ? "+" + S(r.chance(30) ? 130 : r.range(130, 2000)) : "-" + S(r.chance(30) ? 127 : r.range(127, 2000)));
        break;
    }
    case 4: if (!m6502) return false; {
        static const char *w[] = {"jmp\t#5", "sta\t#1", "ldx\t$10,x", "jsr\t#1", "bit\t#1", "asl\t($10),y", "inx\t3", "stx\t#0", "lda\t"};
        n.s = string("\t") + w[r.below(9)];
        if (n.s.find('#') == string::npos) break;
    } if (r.chance(15)) for (long k = r.range(10, 400); k > 0; k--) n.s += "+1"; break;
    case 5: n.s = "\terr"; break;
    case 6: n.s = "\tinclude\t\"nosuch.h\""; break;
    case 7: n.s = "\tincbin\t\"nosuch.dat\""; e.tied = false; break;
    case 8: n.s = "\tmac\tunfinished\n\tnop"; atEnd = true; e.tied = false; break;
    case 9: n.s = "\t/* never closed\n more"; atEnd = true; e.tied = false; break;
    case 10: n.s = "\tseg\tErrSeg9\n\torg\t$fff0\n\tdc.b\t1\n\torg\t$10\n\tdc.b\t1"; e.off = 4; wrap = false; break;
    case 11: n.s = "Twice9\tdc.b\t1\nTwice9\tdc.b\t2"; e.tied = false; wrap = false; break;
    case 12: n.s = "\tprocessor\tz8000"; atStart = r.chance(60); break;
    case 13: n.s = "\trepeat\tNobodyKnows\n\tdc.b\t1\n\trepend"; e.tied = false; break;
    case 14: {
        if (!m6502) return false;
        static const char *w[] = {"lda\t#", "ldx\t#", "cmp\t#", "and\t#", "sbc\t#"};
        static const char *v[] = {"stx\t$1234,y", "lda\t($123),y", "lda\t($123,x)", "sta.z\t$1234"};
        n.s = string("\t") + (r.chance(75) ? w[r.below(5)] + badByte(r) : string(v[r.below(4)]));
        break;
    }
    case 16: n.s = "\tinclude\t\"stray.h\""; break;
    case 17: {
        e.count = (int)r.range(2, r.chance(20) ? 400 : 40);
        static const int some[] = {64, 99, 100, 101, 127, 128, 255, 256, 257, 512};
        if (r.chance(15)) e.count = some[r.below(10)];
        for (int i = 0; i < e.count; i++) n.s += (i ? "\n" : "") + string(r.chance(50) ? "\tbogusop\t1" : "\tdc.b\t$123");
        break;
    }
    case 18: { string v = r.chance(50) ? "1" : "$7f"; n.s = "\tdc.b\t" + v; for (size_t q = (size_t)r.range(1030, 3000); n.s.size() < q;) n.s += "," + v; wrap = false; if (r.chance(40)) { n.s = "\tmac\tbig9x\n" + n.s + "\n\tendm"; e.off = 1; } break; }
    case 19: n.s = r.chance(50) ? "\talign\t0" : "\talign\t5-5,1"; break;
    case 20: if (r.chance(30)) { n.s = "\tdv\tNobodyHome 1,2"; e.tied = false; break; } n.s = "Dv9x\tequ\t5\n\tdv\tDv9x 1,2"; e.off = 1; wrap = false; break;
    case 21: n.s = "\tmac\tneed9x\n\tdc.b\t{2}\n\tendm\n\tneed9x\t5"; e.off = 3; wrap = false; break;
    case 22: n.s = r.chance(50) ? "\tdc.b\t1/0" : "\tdc.w\t7/[3-3]"; break;
    case 23: n.s = r.chance(40) ? "\thex\t12zz" : r.chance(50) ? "\thex\tg0" : "\thex\t123"; break;
    case 24: n.s = r.chance(60) ? "\tdc.b\t\"not closed" : r.chance(50) ? "Lab9x,\"abc\tdc.b\t1" : "Lab9x,1+\tdc.b\t1"; wrap = false; break;
    case 25: n.s = "\tdc.b\t1 */"; wrap = false; if (r.chance(40)) { n.s = "\tmac\tcm9x\n\tnop */\n\tendm"; e.off = 1; } break;
    case 26: n.s = "\trorg\tNobodyHome\n\trend"; e.tied = false; break;
    case 27: n.s = "\techo\t\"x\",NobodyHome"; e.tied = false; break;
    case 28: n.s = "Equ9x\tequ\t5\nEqu9x\tequ\t6"; e.tied = false; wrap = false; break;
    case 29: n.s = r.chance(60) ? "\tseg.u\tErrBss9\n\torg\tNobodyHome" : "\tseg.u\tErrBss9\n\torg\t$10,NobodyHome"; e.tied = false; break;
    case 30: n.s = r.chance(50) ? "\tincbin\t5" : "\tincbin\tNobodyHome"; e.tied = false; break;
    case 31: {
        static const char *w[] = {"\tdc.b\t[1+2", "\tdc.w\t3*(4+5", "\tdc.b\t1]", "\tdc.w\t2+3)", "\tdc.b\t[4]]", "\tdc.b\t[1,2]", "\tdc.b\t[]", "\tds\t2]"};
        n.s = w[r.below(8)];
        break;
    }
    case 40: {
        long k = r.chance(50) ? r.range(33, 40) : r.range(33, 150);
        int f = (int)r.below(4);
        n.s = "\tdc.b\t";
        for (long i = 0; i < k; i++) n.s += f == 0 ? "[" : f == 1 ? "1+[" : f == 2 ? "-" : "[1|";
        n.s += "1";
        if (f != 2) n.s += string(k, ']');
        break;
    }
    case 41:
        if (r.chance(50)) { n.s = "Eqm9x\teqm\tEqm9x+1\n\tdc.b\tEqm9x"; e.off = 1; }
        else { n.s = "\tmac\tself9x\n\tself9x\n\tendm\n\tself9x"; e.tied = false; }
        wrap = false;
        break;
    case 42: {
        static const char *w[] = {"\tdc.w\t$10000", "\tdc.w\t-65536", "\tdc.s\t$10000", "\tdc.s\t1,-65536", "\tword\t1,2,70000", "\t.word\t-70000", "\tdc.s\t$12345,1", "\tmac\ttwice9x\n\tendm\n\tmac\ttwice9x\n\tendm"};
        e.strict = true;
        int k = (int)r.below(8);
        n.s = w[k];
        if (m6502 && r.chance(40)) {
            static const char *q[] = {"jmp\t$12345", "lda\t$10000", "sta\t65536,x", "lda\t$23456,y", "jsr\t-70000", "jmp\t($10000)", "lda.w\t$12345"};
            n.s = string("\t") + q[r.below(7)];
            k = 0;
        }
        if (k == 7) { wrap = false; e.tied = false; }
        break;
    }
    case 32: {
        static const char *w[] = {"%2", "09", "1 2", "5 @ 3", "3 +", ",3", "`", "1=", "!", "$g", "5x", "1,2,$h", "-", "2**3", "%12", "1~2", "7 ~", "[3]4"};
        n.s = string("\tdc.b\t") + w[r.below(18)];
        break;
    }
    case 39: {
        n.s.clear();
        for (auto &b : badOps) {
            if (string(cpus[p.cpu].name) != b.cpu) continue;
            // several of them, each to be reported; one that ends the assembly at once comes last
            long k = r.chance(30) ? 1 : r.range(2, 8);
            for (e.count = 0; e.count < k;) {
                string o = r.pick(b.ops);
                bool stop = o[0] == '!';
                n.s += (e.count ? "\n\t" : "\t") + o.substr(stop);
                e.count++;
                if (stop) break;
            }
        }
        if (n.s.empty()) return false;
        break;
    }
    case 33: n.s = string("\tprocessor\t") + (m6502 ? "f8" : "6502"); break;
    case 34: n.s = "\tds\t" + S(r.chance(15) ? r.range(660000, 2000000) : -r.range(1, 300)) + (r.chance(50) ? ",1" : ""); break;
    case 35: if (!m6502) return false; n.s = "\tjmp.b\t5"; break;
    case 36: n.s = "\tendm"; e.tied = false; wrap = false; break;
    case 37: n.s = "\tincbin\t\"" + p.mainName + "\",NobodyHome"; break;
    case 38: n.s = "\tif\tNobodyHome\n\tdc.b\t1\n\tendif"; e.tied = false; break;
    case 15: if (!m6502) return false; n.s = "\tjmp\tNobodyDefinesThis"; e.tied = false; break;
    }
    e.node = e.locNode = n.id;
    if (kind == 16)
        for (const char *d : {"lib", "inc", "sub/dir", "d1", "d2", "/usr/include", "o"}) {
            bool used = false;
            for (auto &q : p.incdirs) used |= q.compare(0, strlen(d), d) == 0;
            for (auto &q : p.srcdirs) used |= q == d;
            if (!used && r.chance(60)) p.extra[string(d) + "/stray.h"] = "\tdc.b\t77\n";
        }
    // choose a file: the main file or any include that is reached
    vector<vector<Node> *> homes;
    std::function<void(vector<Node> &)> walk = [&](vector<Node> &v) { homes.push_back(&v); for (auto &k : v) if (k.kind == N_INCLUDE) { k.pinned = k.pinned; walk(k.kids); } };
    walk(p.body);
    vector<Node> *h = atEnd ? &p.body : homes[r.below(homes.size())];
    size_t lo = 0;
    if (h == &p.body) for (size_t i = 0; i < h->size(); i++) if ((*h)[i].kind == N_ORG && (*h)[i].pinned) lo = i + 1;
    size_t hi = h->size();
    if (hi > lo && (*h)[hi - 1].kind == N_END) hi--;
    size_t at = atEnd ? hi : lo + r.below(hi - lo + 1);
    if (atStart) { h = &p.body; at = 0; }
    if (atEnd && hi < h->size()) h->erase(h->begin() + hi);
    if (wrap && !atEnd && !atStart && r.chance(45)) {
        int w = (int)r.below(3);
        Node o;
        o.id = p.nextId++; o.pinned = true;
        if (w == 0) { o.kind = N_REP; Expr x; x.v = r.range(1, 3); o.x.push_back(x); o.kids.push_back(n); h->insert(h->begin() + at, o); }
        else if (w == 1) { o.kind = N_IF; Expr x; x.v = 1; o.x.push_back(x); o.kids.push_back(n); h->insert(h->begin() + at, o); }
        else {
            o.kind = N_MACDEF; o.s = "errmac"; o.kids.push_back(n);
            Node call; call.kind = N_CALL; call.id = p.nextId++; call.pinned = true; call.s = "errmac";
            Expr x; x.v = 7; call.x.push_back(x);
            e.locNode = call.id; e.off = 0; e.count = 1;
            h->insert(h->begin() + at, call);
            h->insert(h->begin() + at, o);
        }
    } else h->insert(h->begin() + at, n);
    return true;
}
static bool errPresent(const Ctx &c) { long l = 0; node_file_line(c.progs[0], c.masks[0], c.err.node, l); if (!l) return false; node_file_line(c.progs[0], c.masks[0], c.err.locNode, l); return l > 0; }

// ------------------------------------------------------------------ making contexts
static void rawAt(Prog &p, const string &txt) { Node n; n.kind = N_RAW; n.id = p.nextId++; n.s = txt; n.pinned = true; p.body.push_back(n); }
bool make_ctx(const string &prop, u64 seed, Ctx &c) {
    for (int tryNo = 0; tryNo < 30; tryNo++) {
        c = Ctx();
        c.prop = prop;
        c.seed = seed;
        Rng r(mix(hashstr(prop), seed * 64 + tryNo));
        GenCfg g = gen_cfg(r);
        if (prop == "C02" || prop == "C12" || prop == "C17" || prop == "C19" || prop == "C13") { g.includes = g.includes || r.chance(85); g.incbins = g.incbins || r.chance(50); if (g.size < 8) g.size = 8; }
        if (prop == "C17") { g.incdirs = true; g.versions = true; }
        if (prop == "C19") { g.versions = true; g.includes = g.includes || r.chance(80); g.sets = false; g.fwd = true; g.ends = false; }
        if (prop == "C18") { g.echos = true; g.bigecho = r.chance(60); g.repeats = g.repeats || r.chance(60); }
        if (prop == "C10") g.bigecho = r.chance(30);
        if (prop == "C11") { g.chains = r.chance(60); g.includes = g.includes || r.chance(50); }
        c.progs.push_back(gen_prog(r, g));
        c.masks.emplace_back();
        if (prop == "C09" && r.chance(60)) {
            GenCfg h = gen_cfg(r);
            h.prefix = "q_";
            c.progs.push_back(gen_prog(r, h));
            c.masks.emplace_back();
        }
        if (prop == "C17") {
            Prog &p = c.progs[0];
            if (!p.incdirs.empty() && r.chance(30)) p.incdirs.push_back(r.pick(p.incdirs));
            vector<string> dirs = p.incdirs;
            dirs.insert(dirs.end(), p.srcdirs.begin(), p.srcdirs.end());
            for (auto &w : p.where) {
                vector<std::pair<string, int>> v;
                int k = versions_of(p, w.first);
                if (!k) continue;
                if (r.chance(35)) v.push_back({w.first, (int)r.below(k)});
                for (auto &d : dirs) {
                    string path = d + (d.back() == '/' ? "" : "/") + w.first;
                    bool dup = false;
                    for (auto &q : v) dup |= q.first == path;
                    if (!dup && r.chance(60)) v.push_back({path, (int)r.below(k)});
                }
                if (v.empty() && r.chance(95)) v.push_back({w.first, 0});
                w.second = v;
            }
        }
        for (auto &p : c.progs) add_decoys(p, r);
        if (prop == "C11") {
            Prog &p = c.progs[0];
            c.shape = r.chance(45) ? 0 : (int)r.range(1, 5);
            if (cpus[p.cpu].f8 && c.shape == 1) c.shape = 0;
            if (c.shape) while (!p.body.empty() && p.body.back().kind == N_END) p.body.pop_back();
            long n = r.range(1, 40);
            if (c.shape == 1) rawAt(p, "Osc0\n\tif\t(Osc1 - Osc0) < 9\n\tds.b\t" + S(n + 8) + "\n\tendif\nOsc1\n\tdc.w\tOsc1");
            if (c.shape == 2) rawAt(p, r.chance(60) ? "\tmac\trecur\n\tdc.b\t1\n\trecur\n\tendm\n\trecur" : "\tmac\trecur\n\tping\n\tdc.b\t1\n\tendm\n\tmac\tping\n\trecur\n\tendm\n\trecur");
            if (c.shape == 5) { rawAt(p, "\tinclude\t\"self.h\""); p.extra["self.h"] = string(r.chance(50) ? "\tdc.b\t1\n" : "\n") + "\tinclude\t\"self.h\"\n"; }
            if (c.shape == 3) rawAt(p, r.chance(50) ? "Ghost1 equ Ghost2+1\nGhost2 equ Ghost1+1\n\tdc.w\tGhost1" : "Nix1\tequ\tNix2\n\tdc.w\tNix1");
            if (c.shape == 4) rawAt(p, "Drift\tequ\tDrift2+1\nDrift2\tequ\t. - Later9\n\tdc.b\t1\nLater9\tequ\tDrift+1");
        }
        bool wantErr = prop == "C14" ? r.chance(85) : prop == "C05" ? r.chance(50) : prop == "C07" || prop == "C08" || prop == "C13" || prop == "C06" || prop == "C04" ? r.chance(20) : false;
        if (wantErr) {
            // the program must be fine without the error
            c.rebuild();
            if (!c.mo[0].ok) continue;
            int k = r.chance(18) ? 39 : (int)r.below(NERR);
            if ((k == 10 || k == 17) && (c.mo[0].low || c.mo[0].bin(1) == "<reverse>")) continue;
            if (k == 10 && std::any_of(c.mo[0].chunks.begin(), c.mo[0].chunks.end(), [](auto &q) { return q.addr + (long)q.bytes.size() > 0xfff0; })) continue;
            if (k == 42 && !c.mo[0].strict) continue;
            if (!addError(c.progs[0], r, k, c.err)) continue;
        }
        c.rebuild();
        bool ok = true;
        for (size_t i = 0; i < c.mo.size(); i++) if (!c.mo[i].ok && !(i == 0 && (wantErr || c.shape))) ok = false;
        // the error must be reached
        if (wantErr && c.mo[0].why != "contains an error") continue;
        if (c.shape && c.mo[0].why != "raw text") continue;
        if (!ok) continue;
        return true;
    }
    return false;
}

// ------------------------------------------------------------------ trials
static Step oneRun(const PSpec &p) { Step s; s.ps.push_back(p); s.keep = true; return s; }
static PSpec hexSpec(Rng &r, int fmt, const string &in) {
    PSpec p;
    p.tool = 1; p.hfmt = fmt; p.hin = in;
    p.hout = r.chance(70) ? "out.hex" : "";
    return p;
}
// an input for ftohex: a good image, a cut one, or other bytes that keep to 16-bit addresses
static string hexInput(Rng &r, const Ctx &c, int fmt) {
    string d;
    bool runs = r.chance(25);
    int left = 0;
    char same = 0;
    auto byte = [&]() -> char {
        if (!runs) return (char)r.below(256);
        if (left-- > 0) return same;
        if (r.chance(20)) { left = (int)r.range(1, 70); same = r.chance(70) ? (char)(r.below(2) - 1) : (char)r.below(256); return same; }
        return (char)r.below(256);
    };
    if (c.mo[0].ok && r.chance(50)) { d = c.mo[0].bin(fmt); if (d == "<reverse>") d = c.mo[0].bin(2); if (d.size() > 3000 && r.chance(60)) d = ""; }
    if (d.empty() && r.chance(90)) {
        if (fmt == 2) {
            int h = (int)r.below(5);
            for (int i = 0; i < h; i++) {
                long org = r.below(0x8000), len = r.chance(15) ? 0 : r.range(1, r.chance(20) ? 700 : 40);
                if (r.chance(20)) len = 16 * r.range(1, 4);
                if (r.chance(10)) { len = r.chance(50) ? 16 * r.range(0, 3) + r.range(1, 2) : r.range(1, 40); org = 0x10000 - len - (r.chance(70) ? 0 : r.below(3)); }
                if (r.chance(1)) { org = r.below(0x100); len = r.chance(50) ? r.range(0x7f00, 0x8100) : 0xffff - org - r.range(0, 40); }
                d += (char)org; d += (char)(org >> 8); d += (char)len; d += (char)(len >> 8);
                for (long k = 0; k < len; k++) d += byte();
            }
        } else {
            long len = r.chance(15) ? 0 : r.range(0, r.chance(20) ? 5000 : 60);
            if (r.chance(20)) len = 16 * r.range(0, 5);
            if (r.chance(10)) len = 16 * r.range(0, 5) + r.range(1, 2);
            if (fmt == 1) { long org = len > 0 && r.chance(15) ? 0x10000 - len - (r.chance(70) ? 0 : r.below(3)) : r.below(0x8000); d += (char)org; d += (char)(org >> 8); }
            if (r.chance(2)) len = r.chance(50) ? r.range(0x7f00, 0x8100) : 0x10000 - r.range(0, 40);
            for (long k = 0; k < len; k++) d += byte();
        }
    }
    int k = (int)r.below(10);
    if (k == 0 && !d.empty()) d.resize(r.below(d.size()));
    if (k == 1) d.resize(std::min<size_t>(d.size(), r.below(5)));
    if (k == 2 && fmt == 2) for (u64 i = 1 + r.below(4); i > 0; i--) d += (char)r.below(256);
    return d;
}
static bool fits16(int fmt, const string &d) {
    Image img; string why;
    if (fmt == 3) return d.size() <= 65536;
    if (fmt == 1) return d.size() < 2 || (size_t)((unsigned char)d[0] + 256 * (unsigned char)d[1]) + d.size() - 2 <= 65536;
    size_t i = 0;
    while (i + 4 <= d.size()) {
        size_t org = (unsigned char)d[i] + 256 * (unsigned char)d[i + 1], len = (unsigned char)d[i + 2] + 256 * (unsigned char)d[i + 3];
        if (org + len > 65536) return false;
        i += 4 + len;
    }
    return true;
}
static void addJunk(Rng &r, Trial &t, const PSpec &p, int pct) {
    auto one = [&](const string &n) { if (!n.empty() && r.chance(pct)) t.junk[n] = junkBytes(r); };
    if (p.tool == 1) one(p.hout);
    else { one(p.o.outName()); one(p.o.lst); one(p.o.sym); }
}

Trial make_trial(Ctx &c, Rng &r) {
    Trial t;
    const string &id = c.prop;
    PSpec p;
    p.o = randOpts(r, c);
    if (c.err.kind == 10 && p.o.fmt == 2) p.o.fmt = 1;
    p.env = r.chance(40) ? Env() : randEnv(r);
    if (id == "C01") {
        Step s = oneRun(p);
        addJunk(r, t, p, 20);
        const Outcome &g = solo(c, t, p);
        if (!r.chance(8)) {
            string out = p.o.outName();
            int n = r.chance(65) ? 1 : (int)r.range(2, 3);
            for (int i = 0; i < n; i++) {
                Fault f;
                if (r.chance(12)) s.faults.push_back(diskFull(r, g));
                else if (pickFault(r, g, [&](int op, const string &q) { return q == out && op != OP_UNLINK; }, f)) s.faults.push_back(f);
            }
            if (r.chance(20)) outages(r, c, s.faults, passesOf(c, g), 1, false);
        }
        t.steps.push_back(s);
    } else if (id == "C02") {
        Step s = oneRun(p);
        const Outcome &g = solo(c, t, p);
        if (!r.chance(8)) {
            int n = r.chance(60) ? 1 : (int)r.range(2, 4);
            for (int i = 0; i < n; i++) {
                Fault f;
                if (r.chance(15)) outages(r, c, s.faults, passesOf(c, g), 1, true);
                else if (pickFault(r, g, [&](int op, const string &q) { return c.files.count(q) && (op == OP_OPENR || op == OP_READ || op == OP_SEEK || op == OP_CLOSE); }, f)) { if (f.eff == E_LOSECLOSE) f.eff = E_FAIL; s.faults.push_back(f); }
            }
        }
        t.steps.push_back(s);
    } else if (id == "C03") {
        if (p.o.lst.empty()) { p.o.lst = "out.lst"; p.o.all = r.chance(40); }
        Step s = oneRun(p);
        addJunk(r, t, p, 30);
        const Outcome &g = solo(c, t, p);
        if (!r.chance(15)) {
            int n = r.chance(65) ? 1 : (int)r.range(2, 3);
            for (int i = 0; i < n; i++) {
                Fault f;
                if (r.chance(12)) s.faults.push_back(diskFull(r, g));
                else if (pickFault(r, g, [&](int op, const string &q) { return q == p.o.lst && op != OP_UNLINK; }, f)) s.faults.push_back(f);
            }
            if (r.chance(25)) outages(r, c, s.faults, passesOf(c, g), 1, false);
        }
        t.steps.push_back(s);
    } else if (id == "C04") {
        if (p.o.sym.empty()) p.o.sym = "out.sym";
        Step s = oneRun(p);
        addJunk(r, t, p, 30);
        const Outcome &g = solo(c, t, p);
        if (!r.chance(15)) {
            int n = r.chance(70) ? 1 : 2;
            for (int i = 0; i < n; i++) {
                Fault f;
                int k = (int)r.below(100);
                if (k < 10) s.faults.push_back(diskFull(r, g));
                else if (k < 35) { f.op = OP_ALLOC; f.nth = g.r.allocs - r.below(std::min<u64>(g.r.allocs, 3)); f.count = r.chance(50); s.faults.push_back(f); }
                else if (pickFault(r, g, [&](int op, const string &q) { return q == p.o.sym && op != OP_UNLINK; }, f)) s.faults.push_back(f);
            }
            if (r.chance(15)) outages(r, c, s.faults, passesOf(c, g), 1, false);
        }
        t.steps.push_back(s);
    } else if (id == "C05") {
        p.o.R = r.chance(75);
        if (r.chance(7)) p.o.extra = badOpts[r.below(11)];
        Step s = oneRun(p);
        addJunk(r, t, p, 40);
        for (const char *b : {"out.bin.bak", "a.out", "main.o"}) if (r.chance(30)) t.junk[b] = junkBytes(r);
        const Outcome &g = solo(c, t, p);
        if (c.err.kind < 0 || r.chance(50)) {
            int n = r.chance(60) ? 1 : (int)r.range(2, 3);
            for (int i = 0; i < n; i++) s.faults.push_back(anyFault(r, g, [&](int op, const string &q) { return !isConsole(q) && (op != OP_UNLINK || r.chance(30)); }));
        }
        t.steps.push_back(s);
    } else if (id == "C06") {
        int n = (int)r.range(0, 3);
        addJunk(r, t, p, n ? 30 : 90);
        for (int i = 0; i < n; i++) {
            Step s;
            PSpec q = p;
            q.env = r.chance(50) ? Env() : randEnv(r);
            if (r.chance(50)) {
                Opts o = randOpts(r, c);
                q.o.fmt = o.fmt; q.o.all = o.all; q.o.sort = o.sort; q.o.passes = o.passes; q.o.R = o.R; q.o.verbose = o.verbose;
                if (r.chance(30)) { q.o.lst = p.o.sym; q.o.sym = p.o.lst; }
                if (r.chance(10)) q.o = o;
                if (c.err.kind == 10 && q.o.fmt == 2) q.o.fmt = 1;
            }
            if (r.chance(12)) { q = hexSpec(r, (int)r.range(1, 3), c.progs[0].mainName); q.hout = p.o.outName(); }
            s.ps.push_back(q);
            const Outcome &g = solo(c, t, q);
            int k = (int)r.below(100);
            if (k < 45) s.faults.push_back(killFault(r, g, false));
            else if (k < 75) s.faults.push_back(killFault(r, g, true));
            else if (k < 92) s.faults.push_back(anyFault(r, g, [](int, const string &x) { return !isConsole(x); }));
            s.power = r.next() >> 1;
            t.steps.push_back(s);
        }
        if (r.chance(20)) {
            int f = (int)r.range(1, 3);
            t.inputs["img.bin"] = hexInput(r, c, f);
            PSpec q = hexSpec(r, f, "img.bin");
            if (q.hout == "out.hex" && r.chance(50)) q.hout = p.o.outName();
            if (!q.hout.empty() && r.chance(40)) {
                Step s;
                s.ps.push_back(q);
                s.faults.push_back(killFault(r, solo(c, t, q), r.chance(40)));
                s.power = r.next() >> 1;
                t.steps.push_back(s);
            }
            q.env = r.chance(70) ? Env() : randEnv(r);
            addJunk(r, t, q, 40);
            t.steps.push_back(oneRun(q));
        } else {
            p.env = r.chance(70) ? Env() : randEnv(r);
            t.steps.push_back(oneRun(p));
        }
    } else if (id == "C07") {
        if (r.chance(15)) {
            int f = (int)r.range(1, 3);
            t.inputs["img.bin"] = hexInput(r, c, f);
            Env e = p.env;
            p = hexSpec(r, f, "img.bin");
            p.env = e;
        }
        if (r.chance(7)) p.o.extra = badOpts[r.below(11)];
        Step s = oneRun(p);
        addJunk(r, t, p, 30);
        vector<string> by = {"out.bin.bak", "out", "out.bin~", "a.out", "main.lst", "out.sym.tmp", "main.o", "main", "main.bin", "dasm.tmp", "out.hex", "core", "main.hex", "lib/x", "img.bin.hex", "out.bin.tmp", "/tmp/simtmp3", "main.sym", "prog"};
        for (auto &b : by) if (!isOut(p, b) && !t.inputs.count(b) && !c.files.count(b) && r.chance(40)) t.junk[b] = junkBytes(r);
        const Outcome &g = solo(c, t, p);
        if (!r.chance(10)) {
            int n = r.chance(60) ? 1 : (int)r.range(2, 4);
            for (int i = 0; i < n; i++) {
                if (r.chance(20)) s.faults.push_back(killFault(r, g, false));
                else s.faults.push_back(anyFault(r, g, [](int, const string &q) { return !isConsole(q); }));
            }
        }
        t.steps.push_back(s);
    } else if (id == "C08") {
        if (r.chance(15)) {
            int f = (int)r.range(1, 3);
            t.inputs["img.bin"] = hexInput(r, c, f);
            p = hexSpec(r, f, "img.bin");
        }
        p.env = randEnv(r);
        t.steps.push_back(oneRun(p));
    } else if (id == "C09") {
        Step s;
        s.keep = true;
        int n = r.chance(60) ? 2 : (int)r.range(3, 4);
        for (int i = 0; i < n; i++) {
            PSpec q;
            string k = S(i);
            if (r.chance(20)) {
                int f = (int)r.range(1, 3);
                string in = "img" + k + ".bin";
                if (i && t.inputs.count("img" + S(i - 1) + ".bin") && r.chance(60)) { in = "img" + S(i - 1) + ".bin"; }
                else t.inputs[in] = hexInput(r, c, f);
                q = hexSpec(r, f, in);
                if (!q.hout.empty()) q.hout = "out" + k + ".hex";
            } else {
                q.prog = (int)r.below(c.progs.size());
                q.o = randOpts(r, c, q.prog);
                q.o.out = "out" + k + (r.chance(50) ? ".bin" : "");
                if (!q.o.lst.empty()) q.o.lst = "out" + k + ".lst";
                if (!q.o.sym.empty()) q.o.sym = "out" + k + ".sym";
            }
            q.env = r.chance(40) ? Env() : randEnv(r);
            q.env.latseed = r.next() >> 1;
            s.ps.push_back(q);
        }
        s.sched = r.next() >> 1;
        if (r.chance(55)) {
            int v = (int)r.below(n);
            const Outcome &g = solo(c, t, s.ps[v]);
            int m = r.chance(70) ? 1 : 2;
            for (int i = 0; i < m; i++) {
                Fault f;
                if (r.chance(50)) f = killFault(r, g, false);
                else if (r.chance(20)) f = allocFault(r, g);
                else if (!pickFault(r, g, [](int, const string &x) { return !isConsole(x); }, f)) continue;
                f.proc = v;
                s.faults.push_back(f);
            }
        }
        t.steps.push_back(s);
    } else if (id == "C10") {
        Step s = oneRun(p);
        const Outcome &g = solo(c, t, p);
        int n = r.chance(75) ? 1 : 2;
        for (int i = 0; i < n; i++) s.faults.push_back(allocFault(r, g));
        if (r.chance(10)) outages(r, c, s.faults, passesOf(c, g), 1, false);
        t.steps.push_back(s);
    } else if (id == "C11") {
        if (r.chance(25)) {
            int f = (int)r.range(1, 3);
            t.inputs["img.bin"] = hexInput(r, c, f);
            Env e = p.env;
            p = hexSpec(r, f, "img.bin");
            p.env = e;
        } else {
            p.o.passes = r.chance(25) ? 0 : (int)r.range(1, 14);
            if (r.chance(6)) p.o.passes = -(int)r.range(1, 3);      // -1 stands for 0
            p.o.P = p.o.passes && r.chance(40);
            if (p.o.passes >= 0 && r.chance(6)) {
                PSpec q = p;
                q.o.passes = 0;
                const Outcome &g0 = solo(c, t, q);
                int n = (int)r.range(15, 300);
                if (g0.r.end == END_EXIT && g0.r.steps / std::max(1, passesOf(c, g0)) * n < 100000000) p.o.passes = n;
            }
        }
        Step s = oneRun(p);
        const Outcome &g = solo(c, t, p);
        if (!r.chance(30)) {
            int n = r.chance(60) ? 1 : (int)r.range(2, 5);
            for (int i = 0; i < n; i++) {
                if (p.tool == 0 && r.chance(40)) outages(r, c, s.faults, 10, 1, true);
                else s.faults.push_back(anyFault(r, g, [](int, const string &q) { return !isConsole(q); }));
            }
        }
        t.steps.push_back(s);
    } else if (id == "C12" || id == "C18") {
        if (id == "C12" && r.chance(70)) p.o.all = false;
        if (id == "C18" && p.o.verbose > 0) p.o.verbose = 0;
        if (r.chance(60)) { p.o.passes = (int)r.range(12, 40); p.o.P = r.chance(40); }
        Step s = oneRun(p);
        const Outcome &g = solo(c, t, p);
        if (!r.chance(id == "C12" ? 5 : 25)) outages(r, c, s.faults, passesOf(c, g), (int)r.range(1, 4), r.chance(10));
        Fault f;
        if (id == "C18" && r.chance(20) && pickFault(r, g, [](int op, const string &q) { return op == OP_WRITE && q == "<stdout>"; }, f)) s.faults.push_back(f);
        t.steps.push_back(s);
    } else if (id == "C13") {
        t.par["limit"] = r.chance(70);
        Step s = oneRun(p);
        const Outcome &g = solo(c, t, p);
        if (r.chance(50)) {
            int n = (int)r.range(1, 3);
            for (int i = 0; i < n; i++) {
                Fault f;
                if (r.chance(50)) outages(r, c, s.faults, passesOf(c, g), 1, r.chance(30));
                else if (pickFault(r, g, [&](int op, const string &q) { return !isConsole(q) && op != OP_UNLINK; }, f)) s.faults.push_back(f);
            }
        }
        t.steps.push_back(s);
    } else if (id == "C14") {
        if (r.chance(4)) p.o.extra = badOpts[r.below(11)];
        Step s = oneRun(p);
        const Outcome &g = solo(c, t, p);
        if (!r.chance(30)) {
            int n = r.chance(60) ? 1 : (int)r.range(2, 4);
            for (int i = 0; i < n; i++) {
                Fault f;
                if (r.chance(60)) outages(r, c, s.faults, passesOf(c, g), 1, r.chance(20));
                else if (r.chance(20)) s.faults.push_back(allocFault(r, g));
                else if (pickFault(r, g, [&](int, const string &q) { return !isConsole(q); }, f)) s.faults.push_back(f);
            }
        }
        t.steps.push_back(s);
    } else if (id == "C15") {
        int f = (int)r.range(1, 3);
        t.inputs["img.bin"] = hexInput(r, c, f);
        PSpec q = hexSpec(r, f, "img.bin");
        q.env = p.env;
        Step s = oneRun(q);
        addJunk(r, t, q, 30);
        const Outcome &g = solo(c, t, q);
        if (!r.chance(25)) {
            int n = r.chance(65) ? 1 : (int)r.range(2, 3);
            for (int i = 0; i < n; i++) {
                Fault x;
                if (r.chance(10)) s.faults.push_back(diskFull(r, g));
                else if (pickFault(r, g, [&](int, const string &q2) { return q2 != "<stderr>"; }, x)) s.faults.push_back(x);
            }
        }
        t.steps.push_back(s);
    } else if (id == "C16") {
        bool rev = c.mo[0].bin(1) == "<reverse>";
        vector<int> fm = rev ? vector<int>{2} : vector<int>{1, 2, 3};
        for (size_t i = fm.size(); i > 1; i--) std::swap(fm[i - 1], fm[r.below(i)]);
        if (!rev && r.chance(40)) fm.resize(r.range(1, 2));
        for (int f : fm) {
            string b = "img" + S(f) + ".bin", h = "img" + S(f) + ".hex";
            for (int tool = 0; tool < 2; tool++) {
                int n = r.chance(50) ? 0 : (int)r.range(1, 2);
                for (int i = 0; i <= n; i++) {
                    PSpec q;
                    if (tool == 0) { q.o = randOpts(r, c); q.o.fmt = f; q.o.out = b; if (q.o.lst.size()) q.o.lst = "l" + S(f); if (q.o.sym.size()) q.o.sym = "s" + S(f); }
                    else { q.tool = 1; q.hfmt = f; q.hin = b; q.hout = h; }
                    q.env = r.chance(40) ? Env() : randEnv(r);
                    Step s;
                    s.ps.push_back(q);
                    if (i < n) {
                        PSpec pq = q;
                        if (tool == 1) t.inputs[b] = c.mo[0].bin(f);
                        const Outcome &g = solo(c, t, pq);
                        if (tool == 1) t.inputs.erase(b);
                        if (r.chance(60)) s.faults.push_back(killFault(r, g, r.chance(40)));
                        else s.faults.push_back(anyFault(r, g, [](int, const string &x) { return !isConsole(x); }));
                        s.power = r.next() >> 1;
                    } else s.keep = true;
                    t.steps.push_back(s);
                }
            }
        }
    } else if (id == "C17") {
        if (r.chance(60)) { p.o.passes = (int)r.range(12, 30); p.o.P = r.chance(40); }
        Step s = oneRun(p);
        const Outcome &g = solo(c, t, p);
        int n = r.chance(25) ? 0 : (int)r.range(1, 6);
        outages(r, c, s.faults, passesOf(c, g), n, true);
        for (auto &f : s.faults) if (r.chance(30)) f.count = 0;
        t.steps.push_back(s);
    } else if (id == "C19") {
        if (r.chance(60)) { p.o.passes = (int)r.range(12, 30); p.o.P = r.chance(40); }
        if (p.o.sym.empty() && r.chance(60)) p.o.sym = "out.sym";
        Step s = oneRun(p);
        const Outcome &g = solo(c, t, p);
        vector<string> names;
        for (auto &w : c.progs[0].where) if (versions_of(c.progs[0], w.first) > 1) names.push_back(w.first);
        int n = r.chance(5) ? 0 : (int)r.range(1, 4);
        for (int i = 0; i < n && !names.empty(); i++) {
            string nm = r.pick(names);
            Fault f;
            f.eff = E_EDIT;
            f.op = OP_ANY;
            f.path = c.progs[0].where[nm][0].first;
            f.nth = 1 + r.below(g.r.events + g.r.events / 4 + 1);
            f.arg = (long)r.below(versions_of(c.progs[0], nm));
            s.faults.push_back(f);
        }
        if (r.chance(20)) outages(r, c, s.faults, passesOf(c, g), 1, false);
        t.steps.push_back(s);
    }
    return t;
}

// ------------------------------------------------------------------ oracles
static string firstDiff(const string &a, const string &b) {
    size_t k = 0;
    while (k < a.size() && k < b.size() && a[k] == b[k]) k++;
    size_t ln = 1 + std::count(a.begin(), a.begin() + k, '\n');
    auto line = [&](const string &s) { size_t x = s.rfind('\n', k ? k - 1 : 0); x = x == string::npos || k == 0 ? 0 : x + 1; size_t y = s.find('\n', k); string q = s.substr(std::min(x, s.size()), y == string::npos ? 120 : std::min<size_t>(y - x, 120)); string o; for (unsigned char ch : q) o += ch >= 32 && ch < 127 ? (char)ch : '.'; return o; };
    return "sizes " + S((long)a.size()) + "/" + S((long)b.size()) + ", first difference at byte " + S((long)k) + " line " + S((long)ln) + ": got \"" + line(a) + "\" expected \"" + line(b) + "\"";
}
// ------ listing text helpers
static string normPass(const string &l) {
    // the heading names the pass: "------- FILE x LEVEL n PASS m"
    string o;
    size_t a = 0;
    while (a < l.size()) {
        size_t b = l.find('\n', a);
        if (b == string::npos) b = l.size();
        string s = l.substr(a, b - a);
        size_t k;
        if (s.compare(0, 12, "------- FILE") == 0 && (k = s.rfind(" PASS ")) != string::npos) s = s.substr(0, k);
        // an address marked as unknown shows whatever an earlier pass left
        else if ((k = s.find(" ????")) != string::npos && k >= 9 && k <= 18) for (size_t i = 9; i < k; i++) s[i] = '*';
        o += s + "\n";
        a = b + 1;
    }
    return o;
}
// split an -L listing into passes
static vector<string> splitPasses(const string &l, const string &mainName) {
    vector<string> v;
    size_t a = 0;
    while (a < l.size()) {
        size_t b = l.find('\n', a);
        if (b == string::npos) b = l.size();
        string s = l.substr(a, b - a);
        if (s.compare(0, 13 + mainName.size() + 7, "------- FILE " + mainName + " LEVEL ") == 0) v.push_back("");
        if (v.empty()) v.push_back("");
        v.back() += s + "\n";
        a = b + 1;
    }
    return v;
}
static vector<string> echoLines(const string &txt) {
    vector<string> v;
    size_t a = 0;
    while (a < txt.size()) {
        size_t b = txt.find('\n', a);
        if (b == string::npos) b = txt.size();
        string s = txt.substr(a, b - a);
        size_t k = 0;
        if (s.size() > 2 && s[0] == ' ' && s[1] == 'E') { k = 2; while (k < s.size() && isdigit((unsigned char)s[k])) k++; if (k > 2 && k < s.size() && s[k] == ':') v.push_back(s); }
        a = b + 1;
    }
    return v;
}
static string cmpEchos(const vector<string> &got, const vector<string> &exp) {
    for (size_t i = 0; i < got.size() || i < exp.size(); i++) {
        if (i >= got.size()) return "ECHO line missing: \"" + exp[i].substr(0, 100) + "\" (" + S((long)got.size()) + " of " + S((long)exp.size()) + " shown)";
        if (i >= exp.size()) return "ECHO line too many: \"" + got[i].substr(0, 100) + "\"";
        if (got[i] != exp[i]) return "ECHO line " + S((long)i) + " is \"" + got[i].substr(0, 100) + "\" expected \"" + exp[i].substr(0, 100) + "\"";
    }
    return "";
}
static bool hasError(const string &s) { return s.find("error: ") != string::npos || s.find("Fatal assembly error") != string::npos || s.find("Unrecoverable") != string::npos; }
static string lower(string s) { for (auto &c : s) c = (char)tolower((unsigned char)c); return s; }
static string sortedLines(const string &s) { vector<string> v; size_t a = 0; while (a < s.size()) { size_t b = s.find('\n', a); if (b == string::npos) b = s.size(); if (s.compare(a, 3, "---") != 0) v.push_back(s.substr(a, b - a)); a = b + 1; } std::sort(v.begin(), v.end()); string o; for (auto &x : v) o += x + "\n"; return o; }

struct Judge {
    Ctx &c;
    const Trial &t;
    Verdict v;
    Exec e;
    Judge(Ctx &cc, const Trial &tt) : c(cc), t(tt) {}
    bool viol(const string &kind, const string &msg) { if (v.kind.empty()) { v.kind = kind; v.msg = msg; } return true; }
    void probe(const char *p) { v.probes.push_back(p); }
    const PSpec &spec() { return t.steps.back().ps[0]; }
    const Outcome &last() { return e.o.back()[0]; }
    int sortMode(const PSpec &p) { return p.o.sort < 0 ? 0 : p.o.sort; }
    // compare a complete successful result with the model
    string vsModel(const PSpec &p, const Outcome &o, const ModelOut &m, bool bin, bool lst, bool sym) {
        if (bin) { string x = m.bin(p.o.fmt); if (x != "<reverse>" && (!o.hasBin || !m.sameBin(o.bin, p.o.fmt))) return "binary: " + (o.hasBin ? firstDiff(o.bin, x) : string("missing")); }
        if (lst && !p.o.lst.empty()) {
            if (!o.hasLst) return "listing missing";
            string l = o.lst;
            if (p.o.all) { auto v2 = splitPasses(l, c.progs[p.prog].mainName); l = v2.empty() ? "" : v2.back(); }
            if (!c.lines.count(p.prog)) c.lines[p.prog] = node_lines(c.progs[p.prog], c.masks[p.prog]);
            string w = check_listing(l, m, c.lines[p.prog]);
            if (!w.empty()) return "listing: " + w;
        }
        if (sym && !p.o.sym.empty()) { if (!o.hasSym) return "symbol file missing"; string w = check_symfile(o.sym, m, sortMode(p)); if (!w.empty()) return "symbol file: " + w; }
        return "";
    }
    // the same for an undisturbed run, which many trials share
    string goldVsModel(const Outcome &g, bool bin, bool lst, bool sym) {
        if (c.fine.count(&g)) return "";
        string w = vsModel(spec(), g, c.mo[0], bin, lst, sym);
        if (w.empty() && c.prop == "C03") w = check_list_text(g.lst, c.files);
        if (w.empty()) c.fine.insert(&g);
        return w;
    }
    string vsGolden(const Outcome &o, const Outcome &g, bool console = true) {
        if (o.r.end != g.r.end || o.r.status != g.r.status) return "ended with " + o.r.brief() + " instead of " + g.r.brief();
        if (o.hasBin != g.hasBin) return string("output file ") + (o.hasBin ? "exists" : "missing");
        if (o.bin != g.bin) return "output file: " + firstDiff(o.bin, g.bin);
        if (o.hasLst != g.hasLst || o.lst != g.lst) return "listing: " + firstDiff(o.lst, g.lst);
        if (o.hasSym != g.hasSym || o.sym != g.sym) return "symbol file: " + firstDiff(o.sym, g.sym);
        if (console && o.r.out != g.r.out) return "console: " + firstDiff(o.r.out, g.r.out);
        if (console && o.r.err != g.r.err) return "stderr: " + firstDiff(o.r.err, g.r.err);
        return "";
    }
    bool abnormal(const Outcome &o, const char *what) { if (!o.r.abnormal()) return false; viol(string("abnormal-") + end_name(o.r.end), string(what) + ": " + o.r.brief()); return true; }
    // golden run of the spec; false if the rest cannot be judged
    const Outcome *gold(const PSpec &p) {
        const Outcome &g = golden(c, t, p);
        if (abnormal(g, "undisturbed run")) return nullptr;
        return &g;
    }
    void c01() {
        const Outcome *g = gold(spec());
        if (!g) return;
        if (!g->r.ok()) { v.valid = false; return; }
        string w = goldVsModel(*g, true, false, false);
        if (!w.empty()) { viol("binary-undisturbed", "undisturbed run exits 0, " + w); return; }
        const Outcome &o = last();
        if (o.r.ok() && (!o.hasBin || o.bin != g->bin)) viol("binary", "exit status 0 but the binary is not complete: " + (o.hasBin ? firstDiff(o.bin, g->bin) : string("file missing")));
    }
    void c02() {
        const Outcome *g = gold(spec());
        if (!g) return;
        if (!g->r.ok()) { v.valid = false; return; }
        string w = goldVsModel(*g, true, true, true);
        if (!w.empty()) { viol("result-undisturbed", "undisturbed run exits 0, " + w); return; }
        const Outcome &o = last();
        if (!o.r.ok()) return;
        w = vsModel(spec(), o, c.mo[0], true, true, true);
        if (!w.empty()) { viol("result", "exit status 0 but the result does not reflect the inputs; " + w); return; }
        w = cmpEchos(echoLines(o.r.out), c.mo[0].echos);
        if (!w.empty()) viol("echo", "exit status 0 but " + w);
    }
    void c03() {
        const Outcome *g = gold(spec());
        if (!g) return;
        if (!g->r.ok()) { v.valid = false; return; }
        string w = goldVsModel(*g, true, true, false);
        if (!w.empty()) { viol("listing-undisturbed", "undisturbed run exits 0, " + w); return; }
        const string &mn = c.progs[0].mainName;
        auto count = [&](const string &l) { int n = 0; size_t a = 0; string k = "------- FILE " + mn + " LEVEL "; while ((a = l.find(k, a)) != string::npos) { n++; a += k.size(); } return n; };
        int np = passesOf(c, *g);
        if (count(g->lst) != (spec().o.all ? np : 1)) { viol("listing-passes", "listing holds " + S(count(g->lst)) + " passes, " + S(np) + " were made"); return; }
        if (spec().o.all) {
            auto ps = splitPasses(g->lst, mn);
            const ModelOut &m = c.mo[0];
            for (size_t i = 0; i + 1 < ps.size() && m.steady; i++) {
                // nothing that decides which lines are assembled was open, so every pass lists the same lines
                vector<int> tags;
                for (auto &l : parse_listing(ps[i])) if (l.tag) tags.push_back(l.tag);
                size_t k = 0;
                while (k < tags.size() && k < m.passTags.back().size() && tags[k] == m.passTags.back()[k]) k++;
                if (k < tags.size() || k < m.passTags.back().size()) { viol("listing-passes", "pass " + S((long)i + 1) + " of the listing " + (k < m.passTags.back().size() ? "lacks line n" + S(m.passTags.back()[k]) : "has a line too many")); return; }
            }
            for (size_t i = 0; i < ps.size(); i++) { size_t q = ps[i].find(" PASS "); if (q == string::npos || atoi(ps[i].c_str() + q + 6) != (int)i + 1) { viol("listing-passes", "pass " + S((long)i + 1) + " is not listed in order"); return; } }
        }
        const Outcome &o = last();
        if (!o.r.ok()) return;
        bool out = false;
        for (auto &f : t.steps.back().faults) out |= f.eff == E_OUTAGE;
        if (!o.hasLst) viol("listing", "exit status 0 but there is no listing file");
        else if (!out && o.lst != g->lst) viol("listing", "exit status 0 but the listing is not complete: " + firstDiff(o.lst, g->lst));
        else if (out) {
            if (count(o.lst) != (spec().o.all ? passesOf(c, o) : 1)) viol("listing-passes", "listing holds " + S(count(o.lst)) + " passes, " + S(passesOf(c, o)) + " were made");
            w = vsModel(spec(), o, c.mo[0], false, true, false);
            if (!w.empty()) viol("listing", "exit status 0 but the listing is not complete: " + w);
            if (!spec().o.all && normPass(o.lst) != normPass(g->lst)) viol("listing", "exit status 0 but the listing is not complete: " + firstDiff(normPass(o.lst), normPass(g->lst)));
        }
    }
    void c04() {
        const Outcome *g = gold(spec());
        if (!g) return;
        if (c.err.kind >= 0) {
            // a failed assembly: the file is complete and the same, or the run says so; exit status is non-zero anyway
            const Outcome &o = last();
            if (g->r.ok()) { v.valid = false; return; }
            if (o.r.ok()) v.valid = false;
            return;
        }
        if (!g->r.ok()) { v.valid = false; return; }
        string w = goldVsModel(*g, false, false, true);
        if (!w.empty()) { viol("symbols-undisturbed", "undisturbed run exits 0, " + w); return; }
        const Outcome &o = last();
        if (!o.r.ok()) return;
        bool out = false;
        for (auto &f : t.steps.back().faults) out |= f.eff == E_OUTAGE;
        bool said = o.r.out != g->r.out || o.r.err != g->r.err;
        if (o.hasSym && o.sym == g->sym) return;
        if (out && o.hasSym && check_symfile(o.sym, c.mo[0], sortMode(spec())).empty()) return;
        bool memory = false;
        for (auto &f : e.faults.back()) memory |= f.op == OP_ALLOC && f.fired;
        string d = o.hasSym ? firstDiff(o.sym, g->sym) : string("file missing");
        if (memory && o.hasSym && sortedLines(o.sym) == sortedLines(g->sym)) return;
        if (memory && !e.firedOn(OP_WRITE, spec().o.sym) && !e.firedOn(OP_OPENW, spec().o.sym) && !e.firedOn(OP_CLOSE, spec().o.sym)) {
            bool full = false;
            for (auto &f : e.faults.back()) full |= f.eff == E_DISKFULL && f.fired;
            if (!full) { viol("symbols-memory", "exit status 0, lack of memory left the symbol file incomplete: " + d); return; }
        }
        if (!said) viol("symbols", "exit status 0, no message, but the symbol file is wrong: " + d);
    }
    void c05() {
        const Outcome *g = gold(spec());
        if (!g) return;
        const Outcome &o = last();
        const string out = spec().o.outName();
        for (auto &x : o.r.removed) if (x != out) { viol("removed-other", "removed " + x + " which is not the output file"); return; }
        if (o.r.end != END_EXIT) return;
        bool failed = o.r.status != 0;
        if ((!failed || !spec().o.R) && !o.r.removed.empty()) { viol("removed", string("removed ") + out + (failed ? " without -R" : " although the run succeeded")); return; }
        bool begun = o.r.prof.count("openr " + c.progs[0].mainName);   // the options have been processed
        if (failed && begun && spec().o.R && o.hasBin && !e.firedOn(OP_UNLINK, out)) viol("survives", "exit status " + S(o.r.status) + " with -R, but " + out + " exists");
        if (!failed && !o.hasBin) viol("missing", "exit status 0 but " + out + " does not exist");
    }
    void c06() {
        const Outcome *g = gold(spec());
        if (!g) return;
        if (spec().tool == 0 && c.err.kind < 0 && g->r.ok()) { string w = goldVsModel(*g, true, true, true); if (!w.empty()) { viol("undisturbed", "run in a clean directory exits 0, " + w); return; } }
        Outcome o = last();
        // a stale output that a clean run would not create is not created by this run either
        if (g->r.end == END_EXIT && g->r.status != 0) {
            bool R = spec().o.R && spec().tool == 0;
            auto untouched = [&](bool has, const string &d, const string &n) { auto i = e.before.back().find(n); return has && i != e.before.back().end() && i->second == d; };
            if (spec().tool == 0) {
                if (!g->hasBin && !R && untouched(o.hasBin, o.bin, spec().o.outName())) { o.hasBin = false; o.bin.clear(); }
                if (!g->hasLst && untouched(o.hasLst, o.lst, spec().o.lst)) { o.hasLst = false; o.lst.clear(); }
                if (!g->hasSym && untouched(o.hasSym, o.sym, spec().o.sym)) { o.hasSym = false; o.sym.clear(); }
            } else if (!g->hasBin && untouched(o.hasBin, o.bin, spec().hout)) { o.hasBin = false; o.bin.clear(); }
        }
        string w = vsGolden(o, *g);
        if (!w.empty()) viol("differs", "after the history the run differs from one in a clean directory: " + w);
    }
    void c07() {
        const Outcome *g = gold(spec());
        if (!g) return;
        const Outcome &o = last();
        for (auto &x : o.r.written) if (!isOut(spec(), x)) { viol("written", "wrote " + x + " which is not an output"); return; }
        for (auto &x : o.r.removed) if (!isOut(spec(), x)) { viol("removed", "removed " + x + " which is not an output"); return; }
        if (spec().tool == 0) for (auto &x : o.r.removed) if (x != spec().o.outName() || !spec().o.R) { viol("removed", "removed " + x); return; }
        if (spec().tool == 1 && !o.r.removed.empty()) { viol("removed", "ftohex removed " + o.r.removed[0]); return; }
        for (auto &f : e.start) if (!isOut(spec(), f.first)) {
            auto i = e.end.find(f.first);
            if (i == e.end.end()) { viol("removed", f.first + " is gone"); return; }
            if (i->second != f.second) { viol("changed", f.first + " has changed: " + firstDiff(i->second, f.second)); return; }
        }
        for (auto &f : e.end) if (!e.start.count(f.first) && !isOut(spec(), f.first)) { viol("created", "created " + f.first); return; }
    }
    void c08() {
        const Outcome *g = gold(spec());
        if (!g) return;
        string w = vsGolden(last(), *g);
        if (!w.empty()) viol("differs", "same inputs and options, different environment: " + w);
        else if (g->r.peakfds != last().r.peakfds) v.valid = true;
    }
    void c09() {
        const Step &s = t.steps.back();
        for (size_t i = 0; i < s.ps.size(); i++) {
            vector<Fault> fs;
            for (auto f : s.faults) if (f.proc == (int)i) { f.proc = 0; fs.push_back(f); }
            const Outcome &g = solo(c, t, s.ps[i], fs);
            if (abnormal(g, "run alone")) return;
            string w = vsGolden(e.o.back()[i], g);
            if (!w.empty()) { viol("disturbed", "process " + S((long)i) + " differs from its run alone: " + w); return; }
        }
        for (auto &f : e.start) { auto i = e.end.find(f.first); if (i == e.end.end() || i->second != f.second) { bool out = false; for (auto &p : s.ps) out |= isOut(p, f.first); if (!out) { viol("changed", "shared input " + f.first + " has changed"); return; } } }
    }
    // dasm says that something was lost, in whatever words (one of them is "Insufficient memeory")
    static bool saysMemory(const Outcome &o) {
        string w = lower(o.r.out + o.r.err);
        for (const char *k : {"memor", "alloc", "insufficient", "lost"})
            if (w.find(k) != string::npos) return true;
        return false;
    }
    void c10() {
        const Outcome *g = gold(spec());
        if (!g) return;
        if (!g->r.ok()) { v.valid = false; return; }
        const Outcome &o = last();
        if (o.r.end != END_EXIT) return;
        if (o.r.status) { if (o.r.out.empty() && o.r.err.empty()) viol("silent", "exit status " + S(o.r.status) + " without any message"); return; }
        bool out = false;
        for (auto &f : t.steps.back().faults) out |= f.eff == E_OUTAGE;
        if (!o.hasBin || o.bin != g->bin) { viol("binary", "exit status 0 after a failed allocation, but the binary is wrong: " + firstDiff(o.bin, g->bin)); return; }
        if (!spec().o.lst.empty()) {
            if (!out && o.lst != g->lst) { viol("listing", "exit status 0 after a failed allocation, but the listing is wrong: " + firstDiff(o.lst, g->lst)); return; }
            string w = vsModel(spec(), o, c.mo[0], false, true, false);
            if (!w.empty()) { viol("listing", "exit status 0 after a failed allocation, but " + w); return; }
        }
        if (!spec().o.sym.empty() && !out && sortedLines(o.sym) != sortedLines(g->sym)) { viol("symbols", "exit status 0 after a failed allocation, but the symbol file is wrong: " + firstDiff(sortedLines(o.sym), sortedLines(g->sym))); return; }
        string w = cmpEchos(echoLines(o.r.out), c.mo[0].echos);
        if (!w.empty() && !saysMemory(o)) viol("console", "exit status 0 after a failed allocation, messages lost without notice: " + w);
    }
    void c11() {
        const Outcome &o = last();
        if (spec().tool == 1) {
            const string &in = t.inputs.at("img.bin");
            if (o.hasBin && !t.junk.count(spec().hout) && o.bin.size() > 64 + 4 * in.size()) { viol("output", "ftohex wrote " + S((long)o.bin.size()) + " bytes for an input of " + S((long)in.size())); return; }
            if (o.r.steps > 4000 + 400 * in.size()) viol("work", "ftohex made " + S((long)o.r.steps) + " steps for an input of " + S((long)in.size()) + " bytes");
            return;
        }
        const Outcome *g = gold(spec());
        if (!g) return;
        int limit = spec().o.passes > 0 ? spec().o.passes : spec().o.passes ? 1 : 10;
        for (const Outcome *q : {g, &o}) {
            if (passesOf(c, *q) > limit) { viol("passes", S(passesOf(c, *q)) + " passes were made, the limit is " + S(limit)); return; }
            if (q->r.end == END_EXIT && q->r.status && q->r.out.empty() && q->r.err.empty()) { viol("silent", "exit status " + S(q->r.status) + " without any message"); return; }
        }
        if (c.shape) {
            if (c.shape == 4) return;      // may or may not settle
            for (const Outcome *q : {g, &o}) if (q->r.ok()) { viol("accepted", "a source that never settles (kind " + S(c.shape) + ") was accepted"); return; }
            return;
        }
        PSpec q = spec();
        q.o.passes = 40; q.o.P = false;
        const Outcome &f = golden(c, t, q);
        if (!f.r.ok()) { v.valid = false; return; }
        int need = passesOf(c, f);
        if (limit < need) { if (g->r.ok()) viol("accepted", "needs " + S(need) + " passes, was accepted with a limit of " + S(limit)); else probe("pass limit reached"); return; }
        if (!g->r.ok() && limit >= need) { viol("rejected", "needs " + S(need) + " passes, was rejected with a limit of " + S(limit)); return; }
        if (o.r.ok() && passesOf(c, o) > need) probe("more passes than undisturbed");
        if (!o.r.ok() && o.r.end == END_EXIT && passesOf(c, o) == limit) probe("limit reached under faults");
    }
    void c12() {
        const Outcome *g = gold(spec());
        if (!g) return;
        if (!g->r.ok()) { v.valid = false; return; }
        const Outcome &o = last();
        if (!o.r.ok()) return;
        string w = goldVsModel(*g, true, true, true);
        if (!w.empty()) { viol("undisturbed", "undisturbed run exits 0, " + w); return; }
        if (o.bin != g->bin) { viol("binary", "extra passes changed the binary: " + firstDiff(o.bin, g->bin)); return; }
        if (!spec().o.lst.empty()) {
            if (!spec().o.all && normPass(o.lst) != normPass(g->lst)) { viol("listing", "extra passes changed the listing: " + firstDiff(normPass(o.lst), normPass(g->lst))); return; }
            w = vsModel(spec(), o, c.mo[0], false, true, false);
            if (!w.empty()) { viol("listing", "extra passes changed the " + w); return; }
        }
        w = vsModel(spec(), o, c.mo[0], false, false, true);
        if (!w.empty()) { viol("symbols", "extra passes changed the " + w); return; }
        if (spec().o.verbose <= 0 && o.r.out != g->r.out) { viol("console", "extra passes changed the messages: " + firstDiff(o.r.out, g->r.out)); return; }
        w = cmpEchos(echoLines(o.r.out), c.mo[0].echos);
        if (!w.empty()) { viol("console", "extra passes changed the messages: " + w); return; }
        if (passesOf(c, o) > passesOf(c, *g)) probe("success after extra passes");
    }
    int need(const PSpec &p) { return std::max(c.mo[0].maxIn, 1) + 1 + (p.o.lst.empty() ? 0 : 1); }
    void c13() {
        const Outcome *g = gold(spec());
        if (!g) return;
        if (c.err.kind >= 0) {
            const ModelOut &m = c.base;
            int n = std::max(m.maxIn, 1) + 1 + (spec().o.lst.empty() ? 0 : 1);
            if (last().r.peakfds > n) viol("open-files", S(last().r.peakfds) + " files open at once, the nesting needs " + S(n));
            return;
        }
        int n = need(spec());
        if (last().r.peakfds > n || g->r.peakfds > n) { viol("open-files", S(std::max(last().r.peakfds, g->r.peakfds)) + " files open at once, the nesting needs " + S(n)); return; }
        if (!g->r.ok()) { v.valid = false; return; }
        PSpec q = spec();
        q.env.fdlimit = n;
        const Outcome &l = solo(c, t, q);
        if (abnormal(l, "run with a descriptor limit")) return;
        string w = vsGolden(l, *g);
        if (!w.empty()) { viol("limited", "with " + S(n) + " descriptors: " + w); return; }
        if (last().r.ok() && !e.fired) return;
        if (last().r.ok()) probe("fault absorbed");
    }
    bool located(const string &txt, const string &file, long line, int fmt) {
        char b[300];
        if (fmt == 1) snprintf(b, sizeof b, "line %7ld %-10s ", line, file.c_str());
        else if (fmt == 2) snprintf(b, sizeof b, "%s:%ld: error: ", file.c_str(), line);
        else snprintf(b, sizeof b, "%s (%ld): error: ", file.c_str(), line);
        return txt.find(b) != string::npos;
    }
    void c14() {
        const Outcome *g = gold(spec());
        if (!g) return;
        const Outcome &o = last();
        bool isErr = c.err.kind >= 0;
        if (isErr && !errPresent(c)) { v.valid = false; return; }
        for (const Outcome *q : {g, &o}) {
            const char *who = q == g ? "undisturbed run" : "run";
            if (q->r.end != END_EXIT) continue;
            string all = q->r.out + q->r.err;
            if (q->r.status == 0) {
                if (isErr) { viol("accepted", string(who) + " accepts a source with " + c.err.name + ", exit status 0"); return; }
                if (hasError(all)) { viol("message", string(who) + " exits 0 but prints an error message: " + all.substr(0, 200)); return; }
            } else if (all.find_first_not_of(" \n") == string::npos) { viol("silent", string(who) + " exits with status " + S(q->r.status) + " without a diagnostic"); return; }
        }
        if (!spec().o.extra.empty()) { for (const Outcome *q : {g, &o}) if (q->r.ok()) { viol("accepted", "accepts the wrong option " + spec().o.extra); return; } return; }
        if (!isErr) return;
        if (c.err.tied) {
            long l;
            string f = node_file_line(c.progs[0], c.masks[0], c.err.locNode, l);
            l += c.err.off;
            int fm = spec().o.err < 0 ? 0 : spec().o.err;
            // the bytes of a bad operand may lie below the address reached before, which ends the assembly
            bool cut = c.err.kind == 39 && (g->r.out + g->r.err).find("everse-indexed") != string::npos;
            for (int i = 1; i < c.err.count && !cut; i++) if (g->r.end == END_EXIT && !located(g->r.out + g->r.err, f, l + i, fm)) { viol("location", "of " + S(c.err.count) + " errors the one in " + f + " line " + S(l + i) + " is not reported"); return; }
            if (g->r.end == END_EXIT && !located(g->r.out + g->r.err, f, l, fm)) { viol("location", "message for " + c.err.name + " does not name " + f + " line " + S(l) + ": " + g->r.out.substr(0, 300)); return; }
            // also after transient outages that were over in the last pass
            bool only = true;
            int last_ = passesOf(c, o);
            for (auto &x : t.steps.back().faults) if (x.eff != E_OUTAGE || !(x.count && (u64)last_ >= x.nth + x.count) ) only = false;
            if (only && o.r.end == END_EXIT && o.r.status == g->r.status && !located(o.r.out + o.r.err, f, l, fm)) viol("location", "after extra passes the message for " + c.err.name + " does not name " + f + " line " + S(l) + ": " + o.r.out.substr(0, 300));
        }
    }
    void c15() {
        const string &in = t.inputs.at("img.bin");
        if (!fits16(spec().hfmt, in)) { v.valid = false; return; }
        const Outcome *g = gold(spec());
        if (!g) return;
        bool good;
        string exp = hexof(spec().hfmt, in, good);
        Image want;
        string why;
        if (good && !parse_bin(in, spec().hfmt, 0, want, why)) good = false;
        const Outcome *list[] = {g, &last()};
        for (auto q : list) {
            if (!q->r.ok()) continue;
            if (!good) { viol("malformed", "exit status 0 for malformed input of " + S((long)in.size()) + " bytes in format " + S(spec().hfmt)); return; }
            Image got;
            if (!q->hasBin) { viol("missing", "exit status 0 but no output"); return; }
            if (!parse_hex(q->bin, got, why)) { viol("not-hex", "exit status 0 but the output is not well-formed Intel HEX: " + why); return; }
            if (got != want) { viol("data", "exit status 0 but the output describes other data"); return; }
        }
        if (good && !g->r.ok()) viol("rejected", "undisturbed conversion of a valid input fails: " + g->r.brief());
    }
    void c16() {
        const ModelOut &m = c.mo[0];
        for (size_t i = 0; i < t.steps.size(); i++) {
            const PSpec &p = t.steps[i].ps[0];
            const Outcome &o = e.o[i][0];
            if (p.tool == 0) {
                if (t.steps[i].keep && !o.r.ok()) {
                    const Outcome &g = golden(c, t, p);
                    if (g.r.ok()) viol("retry", "undisturbed run in format " + S(p.o.fmt) + " fails after the history: " + o.r.brief() + " " + o.r.out.substr(0, 200));
                    else v.valid = false;
                    return;
                }
                if (o.r.ok() && !m.sameBin(o.bin, p.o.fmt)) { viol("image", "format " + S(p.o.fmt) + " output is not the image of the source: " + firstDiff(o.bin, m.bin(p.o.fmt))); return; }
            } else {
                auto in = e.before[i].find(p.hin);
                bool complete = in != e.before[i].end() && m.sameBin(in->second, p.hfmt);
                if (!complete) continue;
                if (t.steps[i].keep && !o.r.ok()) { viol("retry", "undisturbed conversion of format " + S(p.hfmt) + " fails: " + o.r.brief()); return; }
                if (!o.r.ok()) continue;
                Image got, want;
                string why;
                if (!parse_hex(o.bin, got, why)) { viol("hex", "conversion of format " + S(p.hfmt) + " is not well-formed: " + why); return; }
                parse_bin(in->second, p.hfmt, 0, want, why);
                if (got != want) { viol("hex", "conversion of format " + S(p.hfmt) + " describes other data"); return; }
            }
        }
    }
    void c17() {
        const Outcome *g = gold(spec());
        if (!g) return;
        Prog &p = c.progs[0];
        vector<string> dirs = p.incdirs;
        for (auto &n : p.body) if (n.kind == N_INCDIR && !c.masks[0].count(n.id)) { string d = n.s; if (!d.empty() && d[0] == '"') d = d.substr(1, d.size() - 2); dirs.push_back(d); }
        for (int k = 0; k < 2; k++) {
            const Outcome &o = k ? last() : *g;
            if (!o.r.ok() && k) continue;
            int ep = passesOf(c, o);
            map<string, int> ver;
            set<string> missing;
            for (auto &n : input_names(p, c.masks[0], true, true)) {
                vector<string> cand = {n};
                for (auto &d : dirs) cand.push_back(d + (d.back() == '/' ? "" : "/") + n);
                bool found = false;
                for (auto &x : cand) {
                    bool ex = false;
                    int vs = 0;
                    for (auto &w : p.where[n]) if (w.first == x) { ex = true; vs = w.second; }
                    if (!ex) continue;
                    bool down = false;
                    if (k) for (auto &f : t.steps.back().faults) if (f.eff == E_OUTAGE && f.path == x && (u64)ep >= f.nth && (!f.count || (u64)ep < f.nth + f.count)) down = true;
                    if (down) continue;
                    found = true;
                    ver[n] = vs;
                    break;
                }
                if (!found) missing.insert(n);
            }
            ModelOut m = model(p, c.masks[0], ver);
            if (!o.r.ok()) {
                if (m.ok && missing.empty() && m.bin(spec().o.fmt) != "<reverse>" && o.r.end == END_EXIT) { viol("not-found", "undisturbed: every file can be opened, but the run fails: " + o.r.brief() + " " + o.r.out.substr(0, 200)); return; }
                continue;
            }
            for (auto &n : missing) if (m.ok && m.readFiles.count(n)) { viol("missing", "exit status 0 although no candidate for " + n + " could be opened in the final pass"); return; }
            if (!m.ok || m.bin(spec().o.fmt) == "<reverse>") { v.valid = false; return; }
            string w = vsModel(spec(), o, m, true, true, false);
            if (!w.empty()) { viol("candidate", string(k ? "" : "undisturbed: ") + "the result is not that of the first usable candidates; " + w); return; }
        }
    }
    void c18() {
        const Outcome *g = gold(spec());
        if (!g) return;
        for (int k = 0; k < 2; k++) {
            const Outcome &o = k ? last() : *g;
            if (!o.r.ok()) continue;
            string w = cmpEchos(echoLines(o.r.out), c.mo[0].echos);
            if (!w.empty()) { viol("console", string(k ? "" : "undisturbed: ") + "console: " + w); return; }
            if (!spec().o.lst.empty()) {
                string l = o.lst;
                if (spec().o.all) { auto ps = splitPasses(l, c.progs[0].mainName); l = ps.empty() ? "" : ps.back(); }
                w = cmpEchos(echoLines(l), c.mo[0].echos);
                if (!w.empty()) { viol("listing", string(k ? "" : "undisturbed: ") + "listing: " + w); return; }
            }
        }
        if (!g->r.ok()) v.valid = false;
        if (g->r.out.size() > 16384) probe("more than 16 KiB on the console");
        if (last().r.ok() && passesOf(c, last()) > passesOf(c, *g)) probe("success after extra passes");
    }
    void c19() {
        const Outcome *g = gold(spec());
        if (!g) return;
        const Outcome &o = last();
        if (!o.r.ok()) return;
        Prog &p = c.progs[0];
        map<string, int> ver;
        bool changed = false;
        for (auto &n : input_names(p, c.masks[0], true, true)) {
            const string &path = p.where[n][0].first;
            auto i = o.r.lastOpened.find(path);
            if (i == o.r.lastOpened.end()) { v.valid = false; return; }
            int k = versions_of(p, n);
            bool ok = false;
            for (int q = 0; q < k && !ok; q++) if (render_version(p, c.masks[0], n, q) == i->second) { ver[n] = q; ok = true; changed |= q > 0; }
            if (!ok) { v.valid = false; return; }
        }
        ModelOut m = model(p, c.masks[0], ver);
        if (!m.ok || m.bin(spec().o.fmt) == "<reverse>") { v.valid = false; return; }
        string w = vsModel(spec(), o, m, true, false, true);
        if (!w.empty()) viol("inconsistent", "exit status 0 but the output is not an assembly of the versions read last; " + w);
        else if (changed) probe("success on changed inputs");
    }
};
Verdict eval_trial(Ctx &c, const Trial &t) {
    Judge j(c, t);
    if (c.err.kind >= 0 ? !errPresent(c) || !c.base.ok || c.mo[0].why != "contains an error" : (c.shape ? c.mo[0].why != "raw text" : !c.mo[0].ok)) { j.v.valid = false; return j.v; }
    for (size_t i = 1; i < c.mo.size(); i++) if (!c.mo[i].ok) { j.v.valid = false; return j.v; }
    for (auto &s : t.steps) for (auto &p : s.ps) if (p.tool == 0 && p.o.fmt != 2 && (p.prog ? c.mo[p.prog] : c.base).ok && (p.prog ? c.mo[p.prog] : c.base).bin(1) == "<reverse>") { j.v.valid = false; return j.v; }
    j.e = execTrial(c, t, c.prop == "C06" || c.prop == "C16");
    j.v.hash = j.e.hash;
    j.v.state = j.e.state;
    j.v.fired = j.e.fired;
    for (auto &s : j.e.o) for (auto &o : s) if (j.abnormal(o, "run")) return j.v;
    static const map<string, void (Judge::*)()> fn = {{"C01", &Judge::c01}, {"C02", &Judge::c02}, {"C03", &Judge::c03}, {"C04", &Judge::c04}, {"C05", &Judge::c05}, {"C06", &Judge::c06}, {"C07", &Judge::c07}, {"C08", &Judge::c08}, {"C09", &Judge::c09}, {"C10", &Judge::c10},
                                                      {"C11", &Judge::c11}, {"C12", &Judge::c12}, {"C13", &Judge::c13}, {"C14", &Judge::c14}, {"C15", &Judge::c15}, {"C16", &Judge::c16}, {"C17", &Judge::c17}, {"C18", &Judge::c18}, {"C19", &Judge::c19}};
    (j.*fn.at(c.prop))();
    const Outcome &o = j.last();
    j.probe(o.r.end == END_KILLED ? "last run killed" : o.r.ok() ? (j.v.fired ? "exit 0 with a fault fired" : "exit 0 without fault") : (j.v.fired ? "non-zero exit with a fault fired" : "non-zero exit without fault"));
    if (j.v.fired > 1) j.probe("two or more faults fired");
    u64 sh = 3;
    for (auto &s : j.e.sched) for (auto x : s) sh = mix(sh, x);
    j.v.sched = sh;
    j.v.nontrivial = j.v.fired > 0 || c.prop == "C08" || c.prop == "C09" || (c.prop == "C06" && !t.junk.empty());
    if (c.prop == "C09") j.v.state = mix(j.v.state, sh);
    if (c.prop == "C08") j.v.state = mix(j.v.state, hashstr(env_str(t.steps.back().ps[0].env)));
    return j.v;
}
const char *prop_rule(const string &p) {
    if (p == "C09") return "distinct (interleaving of file operations, executed-block sets, end states, fired faults) of trials with at least two processes";
    if (p == "C08") return "distinct (environment, executed-block set, end state) pairs of runs";
    if (p == "C06") return "distinct (executed-block sets of all runs, end states, fired faults) of trials with stale files or a fault or kill that fired";
    return "distinct (set of executed basic blocks, end state, kinds and targets of fired faults) of trials in which at least one injected fault fired";
}
