#include "prog.hpp"
#include <algorithm>
#include <cstdlib>
#include <strings.h>

const vector<Cpu> cpus = {
    {"6502", false, {{"nop", 0xea, 0}, {"iny", 0xc8, 0}, {"lda", 0xa9, 1}, {"ldx", 0xa2, 1}, {"jmp", 0x4c, 2}, {"jsr", 0x20, 2}, {"lda.w", 0xad, 2}, {"bne", 0xd0, 3}, {"lda", 0xa5, 8, 0xad}, {"sta", 0x85, 8, 0x8d}, {"inc", 0xe6, 8, 0xee}, {"ldx", 0xa6, 8, 0xae}, {"jmp", 0x6c, 7}, {"lda", 0xb1, 9}, {"cmp", 0xc9, 1}, {"adc", 0x69, 1}, {"ldy", 0xa0, 1}, {"beq", 0xf0, 3}, {"bcc", 0x90, 3}}},
    {"65c02", false, {{"nop", 0xea, 0}, {"phx", 0xda, 0}, {"lda", 0xa9, 1}, {"jmp", 0x4c, 2}, {"jsr", 0x20, 2}, {"bra", 0x80, 3}, {"stz", 0x64, 8, 0x9c}, {"lda", 0xa5, 8, 0xad}, {"bbr0", 0x0f, 11}, {"bbs7", 0xff, 11}, {"beq", 0xf0, 3}}},
    {"6803", true, {{"nop", 0x01, 0}, {"pula", 0x32, 0}, {"ldaa", 0x86, 1}, {"jmp", 0x7e, 2}, {"jsr.w", 0xbd, 2}, {"bra", 0x20, 3}, {"ldaa", 0x96, 8, 0xb6}, {"staa", 0x97, 8, 0xb7}, {"ldx", 0xce, 10}, {"ldaa", 0xa6, 17}, {"bne", 0x26, 3}}},
    {"hd6303", true, {{"nop", 0x01, 0}, {"xgdx", 0x18, 0}, {"ldaa", 0x86, 1}, {"jmp", 0x7e, 2}, {"bra", 0x20, 3}, {"ldaa", 0x96, 8, 0xb6}, {"ldx", 0xce, 10}, {"ldaa", 0xa6, 17}}},
    {"68705", true, {{"nop", 0x9d, 0}, {"lda", 0xa6, 1}, {"jmp.w", 0xcc, 2}, {"bra", 0x20, 3}, {"lda", 0xb6, 8, 0xc6}, {"sta", 0xb7, 8, 0xc7}, {"bset", 0x10, 12}, {"bclr", 0x11, 12}, {"brset", 0x00, 13}, {"brclr", 0x01, 13}, {"lda", 0xe6, 17}}},
    {"68hc11", true, {{"nop", 0x01, 0}, {"ldaa", 0x86, 1}, {"jmp", 0x7e, 2}, {"bra", 0x20, 3}, {"iny", 0x1808, 4}, {"ldaa", 0x96, 8, 0xb6}, {"ldx", 0xce, 10}, {"bset", 0x14, 14}, {"brset", 0x12, 15}, {"brclr", 0x13, 15}, {"ldaa", 0xa6, 17}}},
    {"68908", true, {{"nop", 0x9d, 0}, {"lda", 0xa6, 1}, {"jmp.w", 0xcc, 2}, {"bra", 0x20, 3}, {"lda", 0xb6, 8, 0xc6}, {"bset", 0x10, 12}, {"brset", 0x00, 13}, {"brclr", 0x01, 13}, {"ldhx", 0x45, 10}, {"lda", 0xe6, 17}}},
    {"f8", true, {{"nop", 0x2b, 0}, {"com", 0x18, 0}, {"li", 0x20, 5}, {"jmp", 0x29, 2}, {"pi", 0x28, 2}, {"dci", 0x2a, 2}, {"ai", 0x24, 5}, {"ci", 0x25, 5}, {"bz", 0x84, 6}, {"br", 0x90, 6}, {"bnz", 0x94, 6}, {"bc", 0x82, 6}, {"lis", 0x70, 16}, {"as", 0xc0, 16}, {"ins", 0xa0, 16}, {"asd", 0xd0, 16}, {"xs", 0xe0, 16}, {"ns", 0xf0, 16}, {"outs", 0xb0, 16}}, true},
};

// ------------------------------------------------------------------ rendering
static string num(const Expr &e) {
    char b[64];
    long v = e.v;
    if (v < 0) { snprintf(b, sizeof b, "-%ld", -v); return b; }
    if (e.radix == 16) snprintf(b, sizeof b, "$%lx", v);
    else if (e.radix > 16) return "$" + string(e.radix - 16, '0') + (snprintf(b, sizeof b, "%lx", v), b);    // many leading zeros
    else if (e.radix == 2 && v < 256) { string s = "%"; for (int i = 7; i >= 0; i--) s += (v >> i & 1) ? '1' : '0'; return s; }
    else snprintf(b, sizeof b, "%ld", v);
    return b;
}
static string ofs(long v) { if (!v) return ""; char b[32]; snprintf(b, sizeof b, "%+ld", v); return b; }
static string xs(const Expr &e) {
    switch (e.k) {
    case X_NUM: return num(e);
    case X_SYM: return e.a + ofs(e.v);
    case X_LO: return "<" + (e.v ? "[" + e.a + ofs(e.v) + "]" : e.a);
    case X_HI: return ">" + (e.v ? "[" + e.a + ofs(e.v) + "]" : e.a);
    case X_DOT: return "." + ofs(e.v);
    case X_DIFF: return e.a + "-" + e.b + ofs(e.v);
    case X_PARAM: return "{" + std::to_string(e.v) + "}";
    case X_STR: return "\"" + e.a + "\"";
    case X_CMP: return e.a + e.b + std::to_string(e.v);
    case X_SUM: return e.a + "+" + e.b + ofs(e.v);
    case X_CHK: return e.v == 1 ? "<..." : e.v == 2 ? ">..." : "...";
    case X_SPEC: return ".." + ofs(e.v);
    case X_DEC: return "[" + e.a + ofs(e.v) + "]d";
    case X_CAT: case X_VIA: return e.a;
    }
    return "?";
}
string xlist(const vector<Expr> &v) { string s; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + xs(v[i]); return s; }

static string hex(long v) { char b[32]; snprintf(b, sizeof b, "$%lx", v); return b; }
struct Renderer {
    const Mask &m;
    map<string, string> out;
    map<string, long> lineno;
    string curName;
    int want = -1;
    string wantFile;
    long wantLine = 0, macBase = 0;
    LineMap lines;
    explicit Renderer(const Mask &k) : m(k) {}
    void line(const string &f, const Node &n, const string &mnem, const string &opnd, bool tag = true) {
        string l = n.label;
        l += "\t";
        l += mnem;
        if (!opnd.empty()) l += (n.id % 3 == 0 ? "  " : "\t") + opnd;
        if (tag && n.tag) l += " ;n" + std::to_string(n.id);
        put(f, l);
    }
    void put(const string &f, const string &l) { out[f] += l + "\n"; lineno[f]++; }
    void nodes(const string &f, const vector<Node> &v) { for (auto &n : v) node(f, n); }
    void node(const string &f, const Node &n) {
        if (m.count(n.id)) return;
        lines[n.id] = {lineno[f] + 1, macBase ? lineno[f] + 1 - macBase : 0};
        if (n.id == want) { wantFile = curName; wantLine = lineno[f] + 1; }
        static const char *dcn[] = {"dc.b", "dc.w", "dc.l", "dc.s", ".byte", ".word", ".long", "dc"};
        static const char *dsn[] = {"ds.b", "ds.w", "ds.l", "ds"};
        switch (n.kind) {
        case N_GROUP: nodes(f, n.kids); break;
        case N_PROC: line(f, n, "processor", n.s); break;
        case N_ORG: line(f, n, "org", xlist(n.x)); break;
        case N_RORG: line(f, n, "rorg", xlist(n.x)); break;
        case N_REND: line(f, n, "rend", ""); break;
        case N_SEG: line(f, n, n.n ? "seg.u" : "seg", n.s); break;
        case N_DC: line(f, n, dcn[n.n], xlist(n.x)); break;
        case N_HEX: line(f, n, "hex", n.s); break;
        case N_DS: line(f, n, dsn[n.n], xlist(n.x)); break;
        case N_ALIGN: line(f, n, "align", xlist(n.x)); break;
        case N_INS: line(f, n, n.s, (n.n == 1 || n.n == 10 ? "#" : n.n == 7 || n.n == 9 ? "(" : "") + xlist(n.x) + (n.n == 7 ? ")" : n.n == 9 ? "),y" : n.n == 17 ? ",x" : "")); break;
        case N_LABEL: line(f, n, "", ""); break;
        case N_EQU: line(f, n, n.n ? "=" : "equ", xlist(n.x)); break;
        case N_SET: line(f, n, n.n ? "setsym" : "set", xlist(n.x)); break;
        case N_IF: {
            line(f, n, n.n == 1 ? "ifconst" : n.n == 2 ? n.id % 5 ? "ifnconst" : "ifndef" : n.id % 9 ? "if" : ".if", xlist(n.x));
            nodes(f, n.kids);
            if (!n.alt.empty()) { put(f, n.id % 4 ? "\telse" : "\t.else"); nodes(f, n.alt); }
            put(f, n.id % 6 == 0 ? "\teif" : n.id % 7 == 0 ? "\t.endif" : "\tendif");
            break;
        }
        case N_REP:
            line(f, n, n.id % 8 ? "repeat" : ".repeat", xlist(n.x));
            nodes(f, n.kids);
            put(f, n.id % 5 ? "\trepend" : "\t.repend");
            break;
        case N_MACDEF:
            line(f, n, n.n ? "macro" : "mac", n.s, false);
            macBase = lineno[f];
            nodes(f, n.kids);
            macBase = 0;
            put(f, "\tendm");
            break;
        case N_CALL: line(f, n, n.s, xlist(n.x)); break;
        case N_INCLUDE:
            line(f, n, n.id % 10 ? "include" : ".include", "\"" + n.s + "\"");
            break;
        case N_INCBIN: line(f, n, "incbin", "\"" + n.s + "\"" + (n.n ? n.id % 2 ? "," + std::to_string(n.n) : ", " + hex(n.n) : "")); break;
        case N_INCDIR: line(f, n, "incdir", n.s); break;
        case N_ECHO: line(f, n, "echo", xlist(n.x)); break;
        case N_SUBR: line(f, n, "subroutine", ""); break;
        case N_LIST: line(f, n, "list", n.s, false); break;
        case N_COMMENT: {
            if (n.n == 2) { for (long k = n.x[0].v; k > 0; k--) put(f, "; " + n.s + " " + std::to_string(k)); }
            else if (n.n) { put(f, "\t/* " + n.s); put(f, "  bogus line in a comment"); if (n.n == 3) { lines[n.id].first += 2; put(f, "end" + std::to_string(n.id) + " " + n.s + " */\tdc.b\t" + xlist(n.x) + " ;n" + std::to_string(n.id)); } else put(f, "*/ "); }
            else put(f, "; " + n.s + " ;n" + std::to_string(n.id));
            break;
        }
        case N_BLANK: put(f, ""); break;
        case N_MEXIT: line(f, n, "mexit", ""); put(f, "\tbogus after mexit"); break;
        case N_STRSET: line(f, n, n.n == 1 ? "setstr" : n.n == 2 ? "equ" : "set", n.n == 1 ? n.s : "\"" + n.s + "\""); break;
        case N_EQM: line(f, n, "eqm", xlist(n.x)); break;
        case N_DV: line(f, n, n.n ? "dv.w" : "dv", n.s + " " + xlist(n.x)); break;
        case N_END: line(f, n, "end", ""); put(f, "\tbogus after end"); put(f, "\tdc.b 1,2,3"); break;
        case N_RAW: case N_ERR: { size_t a = 0; while (a <= n.s.size()) { size_t b = n.s.find('\n', a); if (b == string::npos) b = n.s.size(); put(f, n.s.substr(a, b - a)); a = b + 1; } break; }
        }
    }
    void files(const vector<Node> &v, const Prog &p) {
        for (auto &n : v) {
            if (m.count(n.id)) continue;
            if (n.kind == N_INCLUDE) {
                auto w = p.where.find(n.s);
                if (w != p.where.end())
                    for (auto &c : w->second) {
                        out[c.first] = "";
                        lineno[c.first] = 0;
                        curName = n.s;
                        nodes(c.first, c.second ? n.more[c.second - 1] : n.kids);
                    }
                files(n.kids, p);
            } else { files(n.kids, p); files(n.alt, p); }
        }
    }
};
static string styled(const Prog &p, const string &name, const string &txt) {
    if (!p.style || txt.empty()) return txt;
    int k = (int)(mix(p.style, hashstr(name)) % 100);
    string o;
    if (k >= 25 && k < 40) { for (char ch : txt) { if (ch == '\n') o += '\r'; o += ch; } }
    else o = txt;
    if (k < 30) while (!o.empty() && (o.back() == '\n' || o.back() == '\r')) { bool nl = o.back() == '\n'; o.pop_back(); if (nl && (o.empty() || o.back() != '\r')) break; if (!nl) break; }
    return o;
}
map<string, string> render(const Prog &p, const Mask &m) {
    Renderer r(m);
    r.out[p.mainName] = "";
    r.curName = p.mainName;
    r.nodes(p.mainName, p.body);
    r.files(p.body, p);
    r.out[p.mainName] = styled(p, p.mainName, r.out[p.mainName]);
    for (auto &w : p.where) if (!p.bins.count(w.first)) for (auto &c : w.second) { auto i = r.out.find(c.first); if (i != r.out.end()) i->second = styled(p, w.first, i->second); }
    for (auto &b : p.bins) {
        auto w = p.where.find(b.first);
        if (w != p.where.end()) for (auto &c : w->second) r.out[c.first] = b.second[c.second];
    }
    for (auto &x : p.extra) r.out[x.first] = x.second;
    return r.out;
}
static const Node *findInc(const vector<Node> &v, const string &name) {
    for (auto &n : v) {
        if (n.kind == N_INCLUDE && n.s == name) return &n;
        if (const Node *q = findInc(n.kids, name)) return q;
        if (const Node *q = findInc(n.alt, name)) return q;
    }
    return nullptr;
}
int versions_of(const Prog &p, const string &name) {
    auto b = p.bins.find(name);
    if (b != p.bins.end()) return (int)b->second.size();
    const Node *n = findInc(p.body, name);
    return n ? 1 + (int)n->more.size() : 0;
}
string render_version(const Prog &p, const Mask &m, const string &name, int ver) {
    auto b = p.bins.find(name);
    if (b != p.bins.end()) return b->second[ver];
    const Node *n = findInc(p.body, name);
    Renderer r(m);
    r.nodes("x", ver ? n->more[ver - 1] : n->kids);
    return styled(p, name, r.out["x"]);
}
static void names1(const vector<Node> &v, const Mask &m, bool inc, bool bin, vector<string> &o) {
    for (auto &n : v) {
        if (m.count(n.id)) continue;
        if ((n.kind == N_INCLUDE && inc) || (n.kind == N_INCBIN && bin)) o.push_back(n.s);
        names1(n.kids, m, inc, bin, o);
        names1(n.alt, m, inc, bin, o);
    }
}
vector<string> input_names(const Prog &p, const Mask &m, bool inc, bool bin) { vector<string> o; names1(p.body, m, inc, bin, o); return o; }
string node_file_line(const Prog &p, const Mask &m, int id, long &line) {
    Renderer r(m);
    r.want = id;
    r.curName = p.mainName;
    r.nodes(p.mainName, p.body);
    r.files(p.body, p);
    line = r.wantLine;
    return r.wantFile;
}
LineMap node_lines(const Prog &p, const Mask &m) {
    Renderer r(m);
    r.nodes(p.mainName, p.body);
    r.files(p.body, p);
    return r.lines;
}
static void ids1(const vector<Node> &v, const Mask &m, vector<int> &ids) {
    for (auto &n : v) {
        if (m.count(n.id)) continue;
        if (!n.pinned) ids.push_back(n.id);
        ids1(n.kids, m, ids);
        ids1(n.alt, m, ids);
        for (auto &k : n.more) ids1(k, m, ids);
    }
}
void all_ids(const Prog &p, const Mask &m, vector<int> &ids) { ids1(p.body, m, ids); }
static int cnt(const vector<Node> &v, const Mask &m) { int c = 0; for (auto &n : v) if (!m.count(n.id)) c += 1 + cnt(n.kids, m) + cnt(n.alt, m); return c; }
int count_nodes(const Prog &p, const Mask &m) { return cnt(p.body, m); }

// ------------------------------------------------------------------ generator
GenCfg gen_cfg(Rng &r) {
    GenCfg c;
    static const int sz[] = {3, 5, 8, 12, 18, 25, 40, 70};
    c.size = sz[r.below(r.chance(15) ? 8 : 6)];
    auto f = [&](int on) { return r.chance(on); };
    c.macros = f(55); c.repeats = f(60); c.ifs = f(60); c.includes = f(65); c.incbins = f(50); c.segs = f(50); c.rorgs = f(35);
    c.orgs = f(60); c.echos = f(50); c.locals = f(45); c.fwd = f(70); c.equs = f(60); c.sets = f(45); c.listctl = f(25); c.ends = f(30);
    c.aligns = f(45); c.longlines = f(15); c.fwdLayout = f(25); c.chains = f(20); c.descending = f(15); c.bigbin = f(25); c.noseg = f(50);
    c.dollar = f(25); c.incdirs = f(40); c.fills = f(50); c.mlc = f(20); c.strsyms = f(20); c.bigecho = f(10);
    c.mexits = f(50); c.nested = f(50); c.checks = f(30); c.ifconsts = f(30); c.eqms = f(30); c.dyn = f(25); c.longdirs = f(10);
    c.filler = f(4); c.manySyms = f(2); c.bigImage = f(1); c.nestCalls = f(50); c.eols = f(40); c.cases = f(25);
    c.maxInc = (int)r.range(1, 5);
    c.defs = f(30);
    c.oddNames = f(25); c.openRorg = f(25); c.firstOnly = f(15); c.subdirs = f(30);
    return c;
}
struct Gen {
    Rng &r;
    GenCfg c;
    Prog p;
    long est = 0;              // estimated program counter
    vector<string> defined, future, names;
    vector<string> consts, strs;             // EQU constants with known value, definition anywhere
    map<string, long> constVal;
    vector<string> futureConst;
    set<string> odd;
    vector<string> setv, eqmv, dvm;
    struct Mac { string name; int params; long size; bool label; long pad = 300; };     // pad: how long an argument may be made
    vector<Mac> macs;
    vector<string> dirs;
    int nlab = 0, nInc = 0, nBin = 0, nSeg = 0, nFill = 0;
    bool inRep = false, inMac = false, cond = false;
    int depth = 0;
    long mult = 1;
    Gen(Rng &rr, const GenCfg &cc) : r(rr), c(cc) {}
    Node mk(int kind) { Node n; n.kind = kind; n.id = p.nextId++; return n; }
    Expr N(long v) { Expr e; e.v = v; static const int rx[] = {10, 16, 2}; e.radix = rx[r.below(3)]; return e; }
    Expr sym(const string &s, long v = 0, int k = X_SYM) { Expr e; e.k = k; e.a = s; e.v = v; return e; }
    string newName(const char *pre) {
        char b[64];
        static const char *sfx[] = {"", "_a", "Loop", "x", "_Very_Long_Label_Name_Here", "Z9"};
        if (c.cases && !names.empty() && r.chance(25)) {
            // a name that differs from another one only in case
            string s = r.pick(names);
            for (auto &ch : s) if (isalpha((unsigned char)ch) && r.chance(50)) ch = (char)(ch ^ 32);
            if (std::find(names.begin(), names.end(), s) == names.end()) { names.push_back(s); return s; }
        }
        snprintf(b, sizeof b, "%s%d%s", pre, ++nlab, sfx[r.below(6)]);
        names.push_back(b);
        return b;
    }
    bool canLabel() { return !inRep && !inMac && !cond; }
    string refLabel() {
        if (c.fwd && r.chance(45)) {
            if (future.empty() || r.chance(40)) { string s = newName("F"); future.push_back(s); return s; }
            return r.pick(future);
        }
        if (!defined.empty()) return r.pick(defined);
        return "";
    }
    void maybeLabel(Node &n, int pct) {
        if (!canLabel() || !r.chance(pct)) return;
        string s;
        if (!future.empty() && r.chance(50)) { size_t k = r.below(future.size()); s = future[k]; future.erase(future.begin() + k); }
        else s = newName("L");
        n.label = s;
        if (r.chance(30)) n.label += ":";
        defined.push_back(s);
    }
    void adv(long k) { est += k * mult; }
    Expr byteX() {
        if (inMac && r.chance(40)) { Expr e; e.k = X_PARAM; e.v = 1; return e; }
        if (r.chance(30)) { string s = refLabel(); if (!s.empty()) return sym(s, r.below(3), r.chance(50) ? X_LO : X_HI); }
        if (!setv.empty() && r.chance(15)) { Expr e = sym(r.pick(setv), 0, X_LO); return e; }
        if (!consts.empty() && r.chance(15)) return sym(r.pick(consts), 0, X_LO);
        if (!eqmv.empty() && r.chance(15)) return sym(r.pick(eqmv), 0, r.chance(50) ? X_LO : X_HI);
        return N(r.below(256));
    }
    Expr wordX() {
        if (r.chance(55)) { string s = refLabel(); if (!s.empty()) return sym(s, r.below(3)); }
        if (!inMac && r.chance(10)) { Expr e; e.k = X_DOT; e.v = r.below(4); return e; }
        if (!consts.empty() && r.chance(20)) return sym(r.pick(consts), 0);
        if (!setv.empty() && r.chance(20)) return sym(r.pick(setv), 0);
        if (!eqmv.empty() && r.chance(20)) return sym(r.pick(eqmv), r.below(3));
        if (defined.size() > 1 && r.chance(10)) { Expr e; e.k = X_SUM; e.a = r.pick(defined); e.b = r.pick(defined); return e; }
        return N(r.below(65536));
    }
    string str(int n) {
        static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 _+-*.:()";
        string s;
        static const char rare[] = "%%%%\\#$&'<=>?@[]^`|~!/,;\xe9\xff";
        int odd = r.chance(25) ? (int)r.range(3, 40) : 0;
        for (int i = 0; i < n; i++) s += r.chance(odd) ? rare[r.below(sizeof rare - 1)] : al[r.below(sizeof al - 1)];
        for (size_t i = 1; i < s.size(); i++) if ((s[i] == '*' && s[i - 1] == '/') || (s[i] == '/' && s[i - 1] == '*') || (s[i] == 'n' && s[i - 1] == ';')) s[i] = '%';
        if (s[0] == ' ') s[0] = 'q';
        for (size_t i = 1; i < s.size(); i++) if (s[i] == ' ' && s[i - 1] == ' ') s[i] = 'w';
        if (!s.empty() && s.back() == ' ') s.back() = 'e';
        return s;
    }
    Node dc() {
        Node n = mk(N_DC);
        maybeLabel(n, 25);
        n.n = r.below(8);
        int kind = n.n == 7 ? 0 : n.n >= 4 ? (int)n.n - 4 : (int)n.n;   // 0 b, 1 w, 2 l, 3 s
        static const int w[] = {1, 2, 4, 2};
        int cntx = 1 + (int)r.below(r.chance(20) ? 16 : 4);
        if (c.longlines && r.chance(30)) cntx = (int)r.range(20, r.chance(40) ? 250 : 60);
        for (int i = 0; i < cntx; i++) {
            if (kind == 0 && !inMac && r.chance(12)) { Expr e; e.k = X_STR; e.a = str((int)r.range(1, 12)); n.x.push_back(e); adv((long)e.a.size()); continue; }
            if (kind == 0 && !strs.empty() && r.chance(8)) { n.x.push_back(sym(r.pick(strs), 0)); adv(30); continue; }
            if (c.checks && r.chance(8)) { Expr e; e.k = X_CHK; e.v = kind == 0 ? r.range(1, 2) : 0; n.x.push_back(e); }
            else n.x.push_back(kind == 0 ? byteX() : wordX());
            adv(w[kind]);
        }
        // keep lines short enough for the assembler's line buffer
        while (n.x.size() > 1 && xlist(n.x).size() > (c.longlines ? 940 : 300)) n.x.pop_back();
        return n;
    }
    Expr absX() { string s = refLabel(); return !s.empty() ? sym(s, r.below(2)) : N(r.range(0x100, 0xffff)); }
    Node simple() {
        for (;;) {
            switch (r.below(12)) {
            case 0: case 1: case 2: case 3: return dc();
            case 4: case 5: case 6: {
                Node n = mk(N_INS);
                maybeLabel(n, 25);
                const Ins &i = r.pick(cpus[p.cpu].ins);
                n.s = i.name; n.n = i.mode;
                if (i.mode == 1 || i.mode == 5) n.x.push_back(byteX());
                if (i.mode == 2) {
                    string s = refLabel();
                    n.x.push_back(!s.empty() ? sym(s, r.below(2)) : N(r.range(0x100, 0xffff)));
                }
                auto zp = [&]() { return c.fwdLayout && r.chance(25) ? sym(anyConst(r.range(1, 255)), 0) : N(r.below(256)); };
                if (i.mode == 7 || i.mode == 10) n.x.push_back(i.mode == 10 && r.chance(50) ? N(r.below(65536)) : absX());
                if (i.mode == 8) n.x.push_back(r.chance(50) ? zp() : !c.chains || !c.fwd ? absX() : N(r.range(0x100, 0xffff)));
                if (i.mode == 9) n.x.push_back(byteX());
                if (i.mode == 17) n.x.push_back(N(r.range(1, 255)));
                if (i.mode == 12 || i.mode == 13) n.x.push_back(c.fwdLayout && r.chance(20) ? sym(anyConst(r.below(8)), 0) : N(r.below(8)));
                if (i.mode >= 11 && i.mode <= 15) n.x.push_back(zp());
                if (i.mode == 14 || i.mode == 15) n.x.push_back(zp());
                if (i.mode == 16) n.x.push_back(c.fwdLayout && r.chance(35) ? sym(anyConst(r.below(15)), 0) : N(r.below(15)));
                if (i.mode == 3 || i.mode == 6 || i.mode == 11 || i.mode == 13 || i.mode == 15) { Expr e; e.k = X_DOT; e.v = r.range(-20, 40); n.x.push_back(e); }
                adv(3);
                return n;
            }
            case 7: {
                Node n = mk(N_HEX);
                maybeLabel(n, 20);
                int k = (int)r.range(1, c.longlines ? 300 : 16);
                char b[8];
                for (int i = 0; i < k; i++) { snprintf(b, sizeof b, r.chance(50) ? "%02x" : "%02X", (int)r.below(256)); n.s += b; if (r.chance(15)) n.s += ' '; }
                while (n.s.back() == ' ') n.s.pop_back();
                adv(k);
                return n;
            }
            case 8: {
                if (cpus[p.cpu].f8) break;     // DS is an instruction there
                Node n = mk(N_DS);
                maybeLabel(n, 25);
                n.n = r.below(4);
                static const int w[] = {1, 2, 4, 1};
                long k = r.chance(15) ? r.range(200, 1500) : r.range(0, 20);
                if (inRep || mult > 1) k = r.below(8);
                if (c.fwdLayout && r.chance(30)) { n.x.push_back(sym(anyConst(1 + r.below(20)), 0)); k = 20; }
                else n.x.push_back(N(k));
                if (r.chance(50)) n.x.push_back(N(r.below(n.n == 1 ? 65536 : 256)));
                adv(k * w[n.n]);
                return n;
            }
            case 9: {
                if (!c.aligns) break;
                Node n = mk(N_ALIGN);
                maybeLabel(n, 20);
                static const int al[] = {2, 4, 8, 16, 64, 256, 3, 10};
                long a = al[r.below(inRep || mult > 1 ? 3 : 8)];
                n.x.push_back(N(a));
                if (!inRep && !inMac && mult == 1 && est < 0xa000 && r.chance(4)) {     // a wide one
                    static const int big[] = {0x400, 0x1000, 0x2000, 0x4000};
                    a = big[r.below(4)];
                    n.x[0] = N(a);
                }
                if (r.chance(40)) n.x.push_back(N(r.below(256)));
                adv(a);
                return n;
            }
            case 10: {
                if (!canLabel()) break;
                Node n = mk(N_LABEL);
                if (c.oddNames && r.chance(30)) {
                    // a name of unusual characters that nothing refers to
                    static const char *w[] = {"\x1a", "\x01", "\x1a", "l\xe9g", "\xff", "\x7f", "\x04y", "@odd", "z?", "\x1b[0m"};
                    string s = w[r.below(10)];
                    if (odd.insert(s).second) { n.label = s; return n; }
                }
                maybeLabel(n, 100);
                return n;
            }
            case 11: {
                if (r.chance(50)) { Node n = mk(N_BLANK); return n; }
                Node n = mk(N_COMMENT);
                n.s = "note " + str((int)r.range(1, 30));
                if (c.mlc && !inMac && !inRep && r.chance(40)) { n.n = r.chance(50) ? 1 : 3; if (n.n == 3) { n.s = n.s.substr(0, 12); for (auto &ch : n.s) if (ch == ';' || ch == '*') ch = '.'; n.x.push_back(N(r.below(256))); adv(1); } }
                return n;
            }
            }
        }
    }
    // a constant symbol, possibly one that is only defined later
    string anyConst(long v) {
        for (auto &k : consts) if (constVal[k] == v) return k;
        if (c.fwd && r.chance(60)) { string s = newName("K"); futureConst.push_back(s); constVal[s] = v; return s; }
        if (!canLabel()) { string s = newName("K"); futureConst.push_back(s); constVal[s] = v; return s; }
        string s = newName("K");
        constVal[s] = v;
        futureConst.push_back(s);
        return s;
    }
    Node equ(const string &s, long v) {
        Node n = mk(N_EQU);
        n.label = s; n.n = r.chance(30);
        n.x.push_back(N(v));
        consts.push_back(s);
        constVal[s] = v;
        return n;
    }
    // a directory in the name of a file
    string sub() { return c.subdirs && r.chance(40) ? r.pick(vector<string>{"sub/", "lib/", "a/b/", "src/"}) : ""; }
    // where to store a file that the program refers to as `name`
    void place(const string &name) {
        string path = !dirs.empty() && r.chance(60) ? r.pick(dirs) + "/" + name : name;
        p.where[name].push_back({path, 0});
    }
    void echo(vector<Node> &out) {
        Node n = mk(N_ECHO);
        Expr e; e.k = X_STR;
        e.a = "E" + std::to_string(n.id) + ":" + (r.chance(50) ? str((int)r.range(1, c.bigecho ? (r.chance(20) ? 700 : 150) : 20)) : "");
        n.x.push_back(e);
        int k = !inRep && r.chance(8) ? (int)r.range(3, 30) : (int)r.below(3);
        for (int i = 0; i < k; i++) {
            if (inMac && r.chance(50)) { Expr q; q.k = X_PARAM; q.v = 1; n.x.push_back(q); }
            else if (!strs.empty() && r.chance(20)) n.x.push_back(sym(r.pick(strs), 0));
            else if (c.checks && r.chance(25)) { Expr q; q.k = X_CHK; n.x.push_back(q); }
            else if (c.fwd && r.chance(15)) n.x.push_back(sym(anyConst(r.below(5000)), 0));
            else if (!defined.empty() && r.chance(15)) n.x.push_back(sym(r.pick(defined), r.below(3), X_DEC));
            else if (r.chance(12)) { Expr q = N((long)(r.next() >> r.range(1, 47))); q.radix = 16; if (r.chance(30)) q = N(-(long)r.below(100000)); n.x.push_back(q); }
            else n.x.push_back(wordX());
        }
        out.push_back(n);
    }
    void stmt(vector<Node> &out) {
        int k = (int)r.below(100);
        bool top = !inRep && !inMac && !cond;
        if (c.bigecho && c.repeats && top && r.chance(8)) {
            Node n = mk(N_REP);
            n.x.push_back(N(r.range(20, 400)));
            bool s = inRep;
            inRep = true;
            echo(n.kids);
            if (r.chance(30)) echo(n.kids);
            inRep = s;
            out.push_back(n);
            return;
        }
        if (k < 8 && c.repeats && mult < 50) {
            Node n = mk(N_REP);
            long cntr = r.chance(10) ? 0 : r.range(1, r.chance(20) ? 12 : 4);
            if (inRep || inMac) cntr = std::min(cntr, 3l);
            if (c.fwdLayout && r.chance(20)) n.x.push_back(sym(anyConst(std::max(1l, cntr)), 0)), cntr = std::max(1l, cntr);
            else n.x.push_back(N(cntr));
            bool s = inRep; long sm = mult;
            inRep = true; mult *= std::max(1l, cntr);
            int q = (int)r.range(1, 3);
            for (int i = 0; i < q; i++) {
                if (c.sets && !inMac && r.chance(20) && !setv.empty()) { Node t = mk(N_SET); t.label = r.pick(setv); t.x.push_back(sym(t.label, r.range(1, 5))); n.kids.push_back(t); }
                else if (!inMac && r.chance(15) && !macs.empty()) call(n.kids);
                else if (c.echos && r.chance(10)) echo(n.kids);
                else stmt(n.kids);
            }
            inRep = s; mult = sm;
            out.push_back(n);
            return;
        }
        if (k < 16 && c.ifs) {
            Node n = mk(N_IF);
            if (inMac && r.chance(30)) { Expr e; e.k = X_CMP; e.a = "{1}"; e.b = r.chance(50) ? "==" : ">"; e.v = r.below(200); n.x.push_back(e); }
            else if (c.ifconsts && r.chance(40)) { n.n = 1 + r.below(2); n.x.push_back(sym(p.defs.empty() || r.chance(40) ? "Never" + std::to_string(r.below(4)) : p.defs[r.below(p.defs.size())].first, 0)); }
            else if (r.chance(40)) n.x.push_back(N(r.below(2)));
            else {
                long v = r.below(5);
                string s = c.fwdLayout ? anyConst(v) : (consts.empty() ? string() : r.pick(consts));
                if (s.empty()) n.x.push_back(N(r.below(2)));
                else { Expr e; e.k = X_CMP; e.a = s; static const char *o[] = {"==", ">", "<", "!="}; e.b = o[r.below(4)]; e.v = r.chance(60) ? constVal[s] : (long)r.below(6); n.x.push_back(e); }
            }
            bool s = cond;
            cond = true;
            int q = (int)r.range(1, 3);
            for (int i = 0; i < q; i++) stmt(n.kids);
            if (r.chance(50)) { q = (int)r.range(1, 2); for (int i = 0; i < q; i++) stmt(n.alt); }
            cond = s;
            leaveBlock(r.chance(70) || n.alt.empty() ? n.kids : n.alt);
            out.push_back(n);
            return;
        }
        if (c.filler && top && nFill < 4 && r.chance(15)) {
            nFill++;
            // a file in which the statements are far from the start
            Node n = mk(N_COMMENT);
            n.n = 2;
            n.s = string(r.range(20, 90), '.');
            n.x.push_back(N(r.range(300, 900)));
            out.push_back(n);
        }
        if (c.firstOnly && top && r.chance(12)) {
            // assembled in the first pass only: the symbol is known in the later ones
            Node g = mk(N_GROUP), n = mk(N_IF), d = mk(N_DC);
            string s = newName("F");
            future.push_back(s);
            n.n = 2;
            n.x.push_back(sym(s, 0));
            int q = (int)r.range(1, 3);
            cond = true;
            for (int i = 0; i < q; i++) n.kids.push_back(r.chance(50) ? simple0() : simple());
            if (r.chance(40)) n.alt.push_back(simple());
            cond = false;
            d.n = 1;
            d.x.push_back(sym(s, 0));
            adv(2);
            if (r.chance(50)) g.kids = {n, d}; else g.kids = {d, n};
            out.push_back(g);
            return;
        }
        if (k < 24 && (!inMac || (c.nestCalls && mult < 5)) && !macs.empty() && c.macros) { call(out); return; }
        if (k < 30 && c.echos) { echo(out); return; }
        if (k < 36 && c.sets && !inMac && !cond) {
            if (!inRep || !setv.empty()) {
                Node n = mk(N_SET);
                if (setv.empty() || (!inRep && r.chance(40))) { n.label = newName("S"); n.x.push_back(N(r.below(1000))); setv.push_back(n.label); }
                else { n.label = r.pick(setv); if (r.chance(60)) n.x.push_back(sym(n.label, r.range(1, 9))); else n.x.push_back(N(r.below(1000))); }
                out.push_back(n);
                return;
            }
        }
        bool deep = c.nested && !c.versions;
        if (k < 44 && c.incbins && ((!inRep && !inMac && !cond) || (deep && mult < 5)) && nBin < 5) {
            Node n = mk(N_INCBIN);
            maybeLabel(n, 30);
            string name = sub() + c.prefix + "bin" + std::to_string(++nBin) + ".dat";
            long sz = c.bigbin && mult == 1 && r.chance(50) ? r.range(1000, 9000) : r.range(0, 40);
            if (mult == 1 && r.chance(20)) sz = r.pick(vector<long>{1, 1023, 1024, 1025, 2048, 4096, 4095, 512});
            n.s = name;
            place(name);
            int nv = c.versions ? (int)r.range(1, 3) : 1;
            for (int k = 0; k < nv; k++) {
                string d;
                long q = k == 0 ? sz : r.chance(30) ? sz : std::max(0l, sz + r.range(-20, 20));
                for (long i = 0; i < q; i++) d += (char)r.below(256);
                p.bins[name].push_back(d);
            }
            if (r.chance(30)) n.n = r.below((u64)sz + 1);
            adv(sz + 20);
            out.push_back(n);
            return;
        }
        if ((top || deep) && k >= 44 && k < 54 && c.includes && nInc < 6 && depth < c.maxInc && mult < 5) {
            bool sm = inMac, sc = cond;
            if (inMac) cond = true;
            inMac = false;
            include(out);
            inMac = sm; cond = sc;
            return;
        }
        if (top && k < 60 && c.orgs) {
            Node n = mk(N_ORG);
            long gap = r.chance(70) ? r.range(1, 60) : r.range(60, 3000);
            if (c.descending && r.chance(40)) { est = r.range(0x200, 0xd000); }
            else est += gap;
            if (est > 0xf800) est = est & 0x7fff;   // only matters for descending programs
            n.x.push_back(N(est));
            n.x[0].radix = 16;
            if (c.fills && r.chance(40)) n.x.push_back(N(r.below(256)));
            maybeLabel(n, 20);
            out.push_back(n);
            return;
        }
        if (top && k < 64 && c.rorgs) {
            Node g = mk(N_GROUP);
            Node a = mk(N_RORG);
            a.x.push_back(c.fwdLayout && r.chance(30) ? sym(anyConst(r.range(0x100, 0xe000)), 0) : N(r.range(0x100, 0xe000)));
            maybeLabel(a, 20);
            g.kids.push_back(a);
            int q = (int)r.range(1, 4);
            for (int i = 0; i < q; i++) g.kids.push_back(simple());
            if (!c.openRorg || r.chance(60)) {
                Node b = mk(N_REND);
                maybeLabel(b, 15);
                g.kids.push_back(b);
            }
            out.push_back(g);
            return;
        }
        if (top && k < 69 && c.locals) {
            Node g = mk(N_GROUP);
            Node a = mk(N_SUBR);
            maybeLabel(a, 60);
            g.kids.push_back(a);
            string la = ".l" + std::to_string(r.below(3)), lb = ".m" + std::to_string(r.below(3));
            Node x = mk(N_LABEL); x.label = la; g.kids.push_back(x);
            g.kids.push_back(simple());
            Node d = mk(N_DC); d.n = 1; d.x.push_back(sym(la, 0)); d.x.push_back(sym(c.fwd ? lb : la, 1)); adv(4); g.kids.push_back(d);
            if (r.chance(40)) g.kids.push_back(simple());
            if (c.fwd) { Node y = mk(N_LABEL); y.label = lb; g.kids.push_back(y); g.kids.push_back(simple()); }
            out.push_back(g);
            return;
        }
        if (top && k < 72 && c.dollar) {
            Node g = mk(N_GROUP);
            Node a = mk(N_LABEL); maybeLabel(a, 100); g.kids.push_back(a);
            string d = std::to_string(10 * (1 + r.below(3))) + "$";
            Node b = mk(N_DC); b.n = 1; b.x.push_back(sym(d, 0)); adv(2);
            Node e = mk(N_LABEL); e.label = d;
            bool f = c.fwd && r.chance(70);
            g.kids.push_back(f ? b : e);
            if (c.macros && !macs.empty() && r.chance(50)) call(g.kids);
            g.kids.push_back(f ? e : b);
            out.push_back(g);
            return;
        }
        if (top && k < 77 && c.segs) {
            Node g = mk(N_GROUP);
            Node a = mk(N_SEG); a.n = 1; a.s = "vars" + std::to_string(++nSeg);
            g.kids.push_back(a);
            Node o = mk(N_ORG); o.x.push_back(c.fwdLayout && r.chance(30) ? sym(anyConst(r.range(0x40, 0xc0)), 0) : N(r.range(0x40, 0xc0))); g.kids.push_back(o);
            int q = (int)r.range(1, 4);
            for (int i = 0; i < q; i++) { Node d = mk(N_DS); maybeLabel(d, 80); d.n = r.below(3); d.x.push_back(N(r.range(1, 4))); g.kids.push_back(d); }
            Node b = mk(N_SEG); b.s = "code"; g.kids.push_back(b);
            out.push_back(g);
            return;
        }
        if (top && k < 82 && c.equs) {
            if (!futureConst.empty() && r.chance(40)) { size_t q = r.below(futureConst.size()); string s = futureConst[q]; futureConst.erase(futureConst.begin() + q); out.push_back(equ(s, constVal[s])); return; }
            if (r.chance(60)) { out.push_back(equ(newName("K"), r.chance(50) ? r.below(6) : r.below(70000))); return; }
            // symbolic EQU; counts as a label-like value
            if (r.chance(25)) {
                Node n = mk(N_EQU);
                n.label = newName("Q");
                Expr e; e.k = X_DOT; e.v = r.range(0, 5);
                n.x.push_back(e);
                defined.push_back(n.label);
                out.push_back(n);
                return;
            }
            string t = refLabel();
            if (!t.empty()) {
                Node n = mk(N_EQU);
                n.label = newName("Q");
                n.x.push_back(sym(t, r.range(0, 5)));
                defined.push_back(n.label);
                out.push_back(n);
                return;
            }
        }
        if (top && k < 84 && (c.strsyms || c.eqms || c.dyn)) {
            int w = (int)r.below(4);
            if (w == 0 && c.strsyms) {
                Node n = mk(N_STRSET);
                n.n = r.below(3);
                n.label = newName("T");
                n.s = str((int)r.range(1, r.chance(20) ? 200 : 25));
                if (n.n == 1) for (auto &ch : n.s) if (!isalnum((unsigned char)ch)) ch = '_';
                strs.push_back(n.label);
                if (!defined.empty() && n.n != 2 && r.chance(30)) {
                    n.s = r.pick(defined);
                    Node e = mk(N_SET); e.n = 1; e.label = newName("W"); e.x.emplace_back(); e.x[0].k = X_VIA; e.x[0].a = n.label; e.x[0].b = n.s;
                    Node d = mk(N_DC); d.n = 1; d.x.push_back(sym(e.label, 0)); adv(2);
                    Node g = mk(N_GROUP);
                    g.kids = {n, e, d};
                    out.push_back(g);
                    return;
                }
                out.push_back(n);
                return;
            }
            if (w == 1 && c.eqms) {
                Node n = mk(N_EQM);
                n.label = newName("Y");
                string t;
                if (r.chance(40)) { Expr e; e.k = X_DOT; e.v = r.below(9); n.x.push_back(e); }
                else if (r.chance(60) && !(t = refLabel()).empty()) n.x.push_back(sym(t, r.below(4)));
                else n.x.push_back(N(r.below(5000)));
                eqmv.push_back(n.label);
                out.push_back(n);
                return;
            }
            if (w == 2 && c.eqms) {
                if (dvm.empty()) {
                    Node n = mk(N_EQM);
                    n.label = newName("V");
                    Expr e; e.k = X_SPEC; e.v = r.below(20);
                    n.x.push_back(e);
                    dvm.push_back(n.label);
                    out.push_back(n);
                }
                Node n = mk(N_DV);
                n.s = dvm[0];
                n.n = r.below(2);
                int q = (int)r.range(1, 5);
                for (int i = 0; i < q; i++) { n.x.push_back(N(r.below(200))); adv(2); }
                out.push_back(n);
                return;
            }
            if (w == 3 && c.dyn) {
                Node g = mk(N_GROUP);
                string iv = newName("I"), base = newName("Dy");
                Node a = mk(N_SET); a.label = iv; a.x.push_back(N(r.below(r.chance(70) ? 20 : 30000)));
                string mid = r.chance(30) ? "_m" + std::to_string(r.below(10)) : "";
                string made = base + (mid.empty() ? "" : ",\"" + mid + "\"") + "," + iv;
                long v0 = a.x[0].v, q = r.range(1, 4);
                g.kids.push_back(a);
                Node rep = mk(N_REP); rep.x.push_back(N(q));
                Node l = mk(N_LABEL); l.label = made; rep.kids.push_back(l);
                bool s = inRep; long sm = mult;
                inRep = true; mult *= q;
                rep.kids.push_back(simple());
                inRep = s; mult = sm;
                Node t = mk(N_SET); t.label = iv; t.x.push_back(sym(iv, 1)); rep.kids.push_back(t);
                g.kids.push_back(rep);
                if (r.chance(60)) {
                    Node b = mk(N_SET); b.label = iv; b.x.push_back(N(v0 + r.below(q))); g.kids.push_back(b);
                    Node e = mk(N_SET); e.label = newName("V"); e.x.emplace_back(); e.x[0].k = X_CAT; e.x[0].a = made; g.kids.push_back(e);
                    Node d = mk(N_DC); d.n = 1; d.x.push_back(sym(e.label, 0)); adv(2); g.kids.push_back(d);
                }
                for (long i = 0; i < q; i++) defined.push_back(base + mid + std::to_string(v0 + i));
                out.push_back(g);
                return;
            }
        }
        if (top && k < 85 && c.listctl) {
            Node n = mk(N_LIST);
            static const char *l[] = {"off", "on", "localoff", "localon", "on"};
            n.s = l[r.below(5)];
            out.push_back(n);
            return;
        }
        out.push_back(simple());
    }
    // END or MEXIT as the last statement of a block
    void leaveBlock(vector<Node> &b) {
        if (c.mexits && inMac && r.chance(35)) b.push_back(mk(N_MEXIT));
        else if (c.ends && !c.fwdLayout && (depth > 0 || inMac) && r.chance(inMac ? 12 : 20)) b.push_back(mk(N_END));
    }
    void call(vector<Node> &out) {
        Mac &m = macs[r.below(macs.size())];
        Node n = mk(N_CALL);
        maybeLabel(n, 15);
        n.s = m.name;
        for (int i = 0; i < m.params; i++) {
            if (inMac && r.chance(40)) { Expr e; e.k = X_PARAM; e.v = 1; n.x.push_back(e); }
            else n.x.push_back(N(r.below(256)));
        }
        if (m.params > 0) n.x[0].radix = 10;
        for (auto &e : n.x) if (e.k == X_NUM && r.chance(12)) if (long k = std::min(m.pad, r.chance(20) ? 300L : 60L); k > 0) e.radix = 16 + (int)r.range(1, k);
        if (m.label) {
            if (inRep || cond || inMac) { return; }
            string s = newName("M");
            Expr e = sym(s, 0);
            n.x.back() = e;
            defined.push_back(s);
        }
        adv(m.size);
        out.push_back(n);
    }
    // no line of the macro may become longer than a line can be
    void limitPad(const vector<Node> &v, Mac &m) {
        for (auto &n : v) {
            long uses = 0;
            for (auto &e : n.x) if (e.k == X_PARAM) uses += e.v ? 1 : m.params; else if (e.a.find('{') != string::npos) uses++;
            if (uses) m.pad = std::min(m.pad, (850 - (long)xlist(n.x).size()) / uses - 4);
            if (uses && n.kind == N_CALL) for (auto &q : macs) if (q.name == n.s) m.pad = std::min(m.pad, q.pad);
            limitPad(n.kids, m);
            limitPad(n.alt, m);
        }
    }
    void macdef(vector<Node> &out) {
        Node n = mk(N_MACDEF);
        n.s = "mac" + std::to_string(n.id) + (r.chance(30) ? "_x" : "");
        n.n = r.chance(50);
        Mac m;
        m.name = n.s;
        m.params = (int)r.range(1, 3);
        m.label = m.params > 1 && r.chance(30);
        inMac = true;
        long e0 = est;
        int q = (int)r.range(1, 4);
        if (m.label) { Node l = mk(N_LABEL); l.label = "{" + std::to_string(m.params) + "}"; n.kids.push_back(l); }
        if (c.locals && r.chance(50)) {
            Node l = mk(N_LABEL); l.label = ".q"; n.kids.push_back(l);
            Node d = mk(N_DC); d.n = 1; d.x.push_back(sym(".q", 0)); adv(2); n.kids.push_back(d);
        }
        if (c.dollar && r.chance(50)) {
            string k = std::to_string(10 * (1 + r.below(3))) + "$";
            Node l = mk(N_LABEL); l.label = k;
            Node d = mk(N_DC); d.n = 1; d.x.push_back(sym(k, 0)); adv(2);
            if (c.fwd && r.chance(50)) n.kids.push_back(d), n.kids.push_back(l); else n.kids.push_back(l), n.kids.push_back(d);
        }
        if (!m.label && r.chance(20)) { Node d = mk(N_DC); d.n = r.below(2); Expr e; e.k = X_PARAM; e.v = 0; d.x.push_back(e); adv(6); n.kids.push_back(d); }
        for (int i = 0; i < q; i++) stmt(n.kids);
        if (r.chance(15)) leaveBlock(n.kids);
        inMac = false;
        m.size = est - e0;
        est = e0;
        limitPad(n.kids, m);
        // macro bodies are listed at the definition with their tag, and again without when run
        macs.push_back(m);
        out.push_back(n);
    }
    // END in a macro that is called by other macros: it ends the file all of them are in
    void endInMacros(vector<Node> &out) {
        string callee;
        int q = (int)r.range(1, 4);
        for (int i = 0; i < q; i++) {
            Node n = mk(N_MACDEF);
            n.s = "mac" + std::to_string(n.id) + "e";
            n.n = r.chance(50);
            if (r.chance(60)) n.kids.push_back(simple0());
            if (callee.empty()) n.kids.push_back(mk(N_END));
            else { Node m = mk(N_CALL); m.s = callee; m.x.push_back(N(1)); m.x[0].radix = 10; n.kids.push_back(m); }
            if (r.chance(70)) n.kids.push_back(simple0());
            callee = n.s;
            out.push_back(n);
        }
        Node m = mk(N_CALL);
        m.s = callee;
        m.x.push_back(N(1));
        m.x[0].radix = 10;
        out.push_back(m);
        int k = (int)r.range(0, 2);
        for (int i = 0; i < k; i++) out.push_back(simple0());
    }
    void include(vector<Node> &out) {
        Node n = mk(N_INCLUDE);
        n.s = sub() + c.prefix + "inc" + std::to_string(++nInc) + ".h";
        maybeLabel(n, 10);
        place(n.s);
        depth++;
        int q = (int)r.range(1, 5);
        for (int i = 0; i < q; i++) stmt(n.kids);
        if (c.ends && c.macros && !c.versions && !inMac && !inRep && !cond && r.chance(20)) endInMacros(n.kids);
        else if (c.ends && r.chance(25)) n.kids.push_back(mk(N_END));
        depth--;
        if (c.versions && r.chance(80) && leaf(n.kids)) {
            int nv = (int)r.range(1, 2);
            for (int k = 0; k < nv; k++) n.more.push_back(variant(n.kids));
        }
        out.push_back(n);
    }
    static bool leaf(const vector<Node> &v) {
        for (auto &n : v) if (n.kind == N_INCLUDE || n.kind == N_INCBIN || n.kind == N_MACDEF || n.kind == N_SET || n.kind == N_STRSET || n.kind == N_EQM || !leaf(n.kids) || !leaf(n.alt)) return false;
        return true;
    }
    static bool plain(const Node &n) { return n.label.empty() && (n.kind == N_DC || n.kind == N_HEX || n.kind == N_DS || n.kind == N_ALIGN || n.kind == N_INS || n.kind == N_BLANK || n.kind == N_COMMENT || n.kind == N_ECHO); }
    void renum(Node &n) {
        n.id = p.nextId++;
        if (n.kind == N_ECHO) n.x[0].a = "E" + std::to_string(n.id) + ":v";
        for (auto &k : n.kids) renum(k);
        for (auto &k : n.alt) renum(k);
    }
    // another version of an included file that defines the same symbols
    vector<Node> variant(const vector<Node> &v) {
        vector<Node> o;
        bool sc = cond;
        cond = true;            // no new labels
        for (auto &n : v) {
            if (n.kind != N_ORG && r.chance(20)) o.push_back(simple());
            if (plain(n) && r.chance(25)) continue;
            Node q = n;
            renum(q);
            if (n.kind == N_DC && r.chance(40)) for (auto &e : q.x) if (e.k == X_NUM) e.v ^= 1;
            o.push_back(q);
        }
        if (o.empty() || (o.back().kind != N_END && r.chance(40))) o.push_back(simple());
        cond = sc;
        return o;
    }
    Prog go() {
        p.cpu = r.chance(50) ? 0 : (int)r.below(cpus.size());
        if (cpus[p.cpu].f8) c.segs = false;
        bool segsOk = !cpus[p.cpu].f8;
        if (c.incdirs) {
            int k = (int)r.range(1, 3);
            for (int i = 0; i < k; i++) dirs.push_back(c.longdirs && r.chance(60) ? string(r.range(60, 240), 'p') + "/" + string(r.range(60, 240), 'w') : r.pick(vector<string>{"lib", "inc", "sub/dir", "d1", "d2", "inc2", "lib/a", "sub", "d"}));
            std::sort(dirs.begin(), dirs.end());
            dirs.erase(std::unique(dirs.begin(), dirs.end()), dirs.end());
        }
        p.mainName = (c.subdirs && r.chance(40) ? "src/" : "") + c.prefix + "main.asm";
        if (c.eols) p.style = r.next() | 1;
        Node pr = mk(N_PROC); pr.s = cpus[p.cpu].name; pr.pinned = true;
        p.body.push_back(pr);
        for (auto &d : dirs) {
            if (r.chance(50)) p.incdirs.push_back(d + (r.chance(30) ? "/" : ""));
            else { p.srcdirs.push_back(d); Node n = mk(N_INCDIR); n.pinned = true; n.s = r.chance(50) ? "\"" + d + "\"" : d; p.body.push_back(n); }
        }
        if (!c.noseg || r.chance(30)) { Node s = mk(N_SEG); s.s = "code"; s.pinned = true; p.body.push_back(s); }
        est = c.descending ? 0x8000 : r.pick(vector<long>{0x100, 0x400, 0x1000, 0x2000});
        Node o = mk(N_ORG);
        o.x.push_back(N(est)); o.x[0].radix = 16;
        if (c.fills && r.chance(40)) o.x.push_back(N(r.below(256)));
        o.pinned = true;
        p.body.push_back(o);
        if (c.bigImage && segsOk) {
            // up to the whole address space
            long at = r.chance(50) ? 0 : r.range(0, 5), end = 0x10000 - (r.chance(60) ? 0 : r.range(1, 5));
            p.body.back().x.assign(1, N(at));
            while (at < end) {
                if (r.chance(20)) { p.body.push_back(simple0()); at++; continue; }
                if (r.chance(15) && nBin < 3) {
                    Node n = mk(N_INCBIN);
                    n.s = c.prefix + "bin" + std::to_string(++nBin) + ".dat";
                    place(n.s);
                    string d;
                    for (long i = std::min(end - at, r.range(1000, 40000)); i > 0; i--) d += (char)r.below(256);
                    at += d.size();
                    p.bins[n.s].push_back(d);
                    p.body.push_back(n);
                    continue;
                }
                Node n = mk(N_DS);
                if (r.chance(30)) { n.label = newName("L"); defined.push_back(n.label); }
                long k = std::min(end - at, r.chance(50) ? r.range(1, 3000) : r.range(1000, 70000));
                n.x.push_back(N(k));
                n.x.push_back(N(r.below(256)));
                at += k;
                p.body.push_back(n);
            }
            return p;
        }
        bool initialCode = p.body[p.body.size() - 2].kind != N_SEG;
        if (initialCode) c.segs = c.segs && false;   // set again below: SEG back to the initial segment needs its name
        if (initialCode && r.chance(50)) { Node k = mk(N_SEG); k.s = "code"; k.pinned = true; p.body.push_back(k); Node o2 = mk(N_ORG); o2.x.push_back(N(est)); o2.pinned = true; p.body.push_back(o2); c.segs = segsOk; }
        if (c.defs) {
            int k = (int)r.range(1, 3);
            for (int i = 0; i < k; i++) { string s = "D" + std::to_string(i) + "ef"; long v = r.below(6); p.defs.push_back({s, v}); p.defKind.push_back(v == 0 && r.chance(50) ? 1 : r.chance(15) ? 2 : r.chance(15) ? 3 : 0); if (p.defKind.back() == 3) { Node q; q.kind = N_EQM; q.x.push_back(N(v)); p.mdefs[s] = q; eqmv.push_back(s); } else { consts.push_back(s); constVal[s] = v; } }
        }
        int nm = c.macros ? (int)r.range(1, 3) : 0;
        for (int i = 0; i < nm; i++) macdef(p.body);
        for (int i = 0; i < c.size; i++) stmt(p.body);
        if (c.manySyms) {
            int k = (int)r.range(200, 1600);
            for (int i = 0; i < k; i++) {
                if (r.chance(50)) { p.body.push_back(equ(newName("K"), r.below(70000))); continue; }
                Node n = mk(N_LABEL);
                n.label = newName("L");
                defined.push_back(n.label);
                p.body.push_back(n);
                if (r.chance(20)) p.body.push_back(simple0());
            }
        }
        if (c.chains && r.chance(70)) {
            // each symbol of the chain is resolved one pass later than the one it refers to
            int k = (int)r.range(2, 6);
            vector<string> ch;
            for (int i = 0; i <= k; i++) ch.push_back(newName("C"));
            for (int i = 0; i < k; i++) { Node n = mk(N_EQU); n.label = ch[i]; n.x.push_back(sym(ch[i + 1], 1)); p.body.push_back(n); }
            p.body.push_back(equ(ch[k], r.below(100)));
            Node d = mk(N_DC); d.n = 1; d.x.push_back(sym(ch[0], 0)); p.body.push_back(d);
        }
        for (auto &s : futureConst) p.body.push_back(equ(s, constVal[s]));
        futureConst.clear();
        for (auto &s : future) { Node n = mk(N_LABEL); n.label = s; p.body.push_back(n); if (r.chance(40)) p.body.push_back(simple0()); }
        future.clear();
        if (c.ends && r.chance(50)) p.body.push_back(mk(N_END));
        return p;
    }
    Node simple0() { Node n = mk(N_DC); n.n = 0; n.x.push_back(N(r.below(256))); return n; }
};
// files of the same name beside the including file; only the current directory and the include directories count
static void decoys(Prog &p, Rng &r, const string &from, const vector<Node> &v, set<string> &used) {
    for (auto &n : v) {
        size_t q = from.rfind('/');
        if ((n.kind == N_INCLUDE || n.kind == N_INCBIN) && q != string::npos) {
            string path = from.substr(0, q + 1) + n.s;
            if (!used.count(path) && r.chance(70)) { used.insert(path); p.extra[path] = n.kind == N_INCLUDE ? "\tdc.b\t77\n" : "decoy"; }
        }
        decoys(p, r, n.kind == N_INCLUDE ? n.s : from, n.kids, used);
        decoys(p, r, from, n.alt, used);
    }
}
void add_decoys(Prog &p, Rng &r) {
    set<string> used = {p.mainName};
    vector<string> dirs = p.incdirs;
    dirs.insert(dirs.end(), p.srcdirs.begin(), p.srcdirs.end());
    for (auto &w : p.where) { used.insert(w.first); for (auto &c : w.second) used.insert(c.first); for (auto &d : dirs) used.insert(d + (d.back() == '/' ? "" : "/") + w.first); }
    decoys(p, r, p.mainName, p.body, used);
}
Prog gen_prog(Rng &r, const GenCfg &c) { return Gen(r, c).go(); }

// ------------------------------------------------------------------ reference model
struct Seg { long org = 0, rorg = 0; bool known = false, rk = false, ractive = false, bss = false; };
struct Model {
    const Prog &p;
    const Mask &m;
    const map<string, int> &ver;
    ModelOut o;
    map<string, long> cur, prev;         // symbol values: this pass / previous pass
    map<string, Seg> segs;
    string seg;
    bool unresolved = false, stop = false;
    int fill = 255;
    long local = 0, lastLocal = 0, dollar = 0, lastDollar = 0;
    bool list = true;
    struct Frame { bool noList = false; };
    vector<Frame> files;          // source files and running macros
    int nFiles = 1;
    vector<vector<string>> args;
    bool inMac = false, steady = true;
    map<string, const Node *> macs, eqms;
    set<string> asked;            // looked at by IFCONST/IFNCONST before it was defined
    map<string, string> strs;
    unsigned long sum = 0;        // bytes put out so far
    long special = 0;
    long work = 0;                // lines and text dealt with in this pass
    bool leave = false;           // MEXIT
    string fail;
    Model(const Prog &pp, const Mask &mm, const map<string, int> &v) : p(pp), m(mm), ver(v) {}
    int version(const string &s) { auto i = ver.find(s); return i == ver.end() ? 0 : i->second; }

    string sname(const string &s) {
        if (s.size() > 1 && s[0] == '.') return std::to_string(local) + s;
        if (!s.empty() && s.back() == '$') return std::to_string(dollar) + "$" + s;
        return s;
    }
    bool get(const string &raw, long &v) {
        if (!raw.empty() && (isdigit((unsigned char)raw[0])) && raw.back() != '$') { v = atol(raw.c_str()); return true; }
        string s = sname(raw);
        auto q = eqms.find(s);
        if (q != eqms.end()) return val(q->second->x[0], v);
        auto i = cur.find(s);
        if (i != cur.end()) { v = i->second; return true; }
        i = prev.find(s);
        if (i != prev.end()) { v = i->second; return true; }
        unresolved = true;
        v = 0;
        return false;
    }
    string subst(string s) {
        if (args.empty()) return s;
        for (size_t a; (a = s.find('{')) != string::npos;) {
            size_t b = s.find('}', a);
            size_t k = (size_t)atoi(s.c_str() + a + 1);
            s = s.substr(0, a) + (k >= 1 && k <= args.back().size() ? args.back()[k - 1] : "") + s.substr(b + 1);
        }
        return s;
    }
    long pc() { Seg &s = segs[seg]; return s.ractive ? s.rorg : s.org; }
    bool val(const Expr &e, long &v) { bool k = val0(e, v); if (k && (v > 0xffff || v < -0xffff)) o.strict = false; return k; }
    bool val0(const Expr &e, long &v) {
        long a, b;
        switch (e.k) {
        case X_NUM: v = e.v; return true;
        case X_DOT: v = pc() + e.v; return true;
        case X_CHK: v = e.v == 1 ? sum & 0xff : e.v == 2 ? sum >> 8 & 0xff : sum; return true;
        case X_SPEC: v = special + e.v; return true;
        case X_PARAM: { string t = args.back()[e.v - 1]; if (t[0] == '$') { v = strtol(t.c_str() + 1, nullptr, 16); return true; } if (t[0] == '%') { v = strtol(t.c_str() + 1, nullptr, 2); return true; } return get(t, v); }
        case X_SYM: case X_DEC: { bool k = get(subst(e.a), a); v = a + e.v; return k; }
        case X_LO: { bool k = get(subst(e.a), a); v = (a + e.v) & 0xff; return k; }
        case X_HI: { bool k = get(subst(e.a), a); v = ((a + e.v) >> 8) & 0xff; return k; }
        case X_DIFF: { bool k = get(e.a, a), l = get(e.b, b); v = a - b + e.v; return k && l; }
        case X_SUM: { bool k = get(e.a, a), l = get(e.b, b); v = a + b + e.v; return k && l; }
        case X_VIA: return get(e.b, v);
        case X_CAT: { string t; return catName(e.a, t) && get(t, v); }
        case X_CMP: {
            string t = subst(e.a);
            bool k = true;
            if (t[0] == '$') a = strtol(t.c_str() + 1, nullptr, 16);
            else if (t[0] == '%') a = strtol(t.c_str() + 1, nullptr, 2);
            else k = get(t, a);
            v = e.b == "==" ? a == e.v : e.b == "!=" ? a != e.v : e.b == ">" ? a > e.v : a < e.v;
            return k;
        }
        }
        return false;
    }
    void define(const string &s, long v) {
        if (!cur.count(s)) o.syms.push_back({s, v});
        else for (auto &q : o.syms) if (q.first == s) q.second = v;
        cur[s] = v;
    }
    // a name made of parts: name,symbol,"text"
    bool catName(const string &l, string &o) {
        size_t a = l.find(',');
        o = l.substr(0, a);
        while (a != string::npos) {
            size_t b = l.find(',', a + 1);
            string t = l.substr(a + 1, b == string::npos ? b : b - a - 1);
            long v;
            if (t[0] == '"') o += t.substr(1, t.size() - 2);
            else if (!get(t, v)) return false;
            else o += std::to_string(v);
            a = b;
        }
        return true;
    }
    void label(const Node &n) {
        string l = subst(n.label);
        if (l.empty()) return;
        if (l.back() == ':') l.pop_back();
        if (string t; !catName(l, t)) return;
        else l = t;
        if (l[0] != '.' && l.back() != '$') dollar = ++lastDollar;
        if (pc() > 0xffff) { fail = "label above 64 KiB"; return; }
        define(sname(l), pc());
    }
    void emit(const string &b) {
        Seg &s = segs[seg];
        if (b.empty()) return;
        if (!s.bss) {
            for (unsigned char ch : b) sum += ch;
            if (!s.known) { fail = "code at unknown origin"; return; }
            if (!o.chunks.empty() && o.chunks.back().addr + (long)o.chunks.back().bytes.size() == s.org) o.chunks.back().bytes += b;
            else o.chunks.push_back({s.org, b, fill});
        }
        s.org += b.size();
        if (s.ractive) s.rorg += b.size();
        if (s.org > 0x10000 || s.rorg > 0xffff) fail = "image above 64 KiB";
    }
    void lower() { for (auto &q : o.chunks) if (q.addr + (long)q.bytes.size() > segs[seg].org) o.low = true; }
    void lst(const Node &n, bool tag, bool chk = false, long addr = 0, const string &bytes = "") {
        if (!list || files.back().noList) return;
        ListExp e;
        e.tag = tag && n.tag && !inMac ? n.id : 0;
        e.chk = chk;
        e.addr = addr;
        e.bytes = bytes.substr(0, 4);
        e.id = n.kind == N_CALL || n.kind == N_INCLUDE ? 0 : n.id;    // those are listed as line 0 of what they call
        e.mac = inMac;
        if (inMac && bytes.empty()) return;
        o.list.push_back(e);
    }
    void data(const Node &n, const string &b) {
        Seg &s = segs[seg];
        long a = s.org;
        bool bss = s.bss;
        emit(b);
        lst(n, true, !bss && !b.empty(), a, b);
        if (b.size() > 1024 && !o.list.empty()) o.list.back().prefix = true;   // filled in pieces, the last one is listed
    }
    string word(long v, bool msb) { string s; if (msb) { s += (char)(v >> 8); s += (char)v; } else { s += (char)v; s += (char)(v >> 8); } return s; }
    string lng(long v, bool msb) { string s; for (int i = 0; i < 4; i++) s += (char)(v >> (msb ? 24 - 8 * i : 8 * i)); return s; }
    // lines of a block that is not assembled are listed too
    void skipped(const vector<Node> &v) {
        for (auto &n : v) {
            if (m.count(n.id)) continue;
            switch (n.kind) {
            case N_GROUP: skipped(n.kids); break;
            case N_LIST: break;
            case N_COMMENT: if (!n.n || n.n == 3) lst(n, true); break;
            case N_BLANK: break;
            case N_IF: lst(n, true); skipped(n.kids); skipped(n.alt); break;
            case N_REP: lst(n, true); skipped(n.kids); break;
            default: lst(n, true);
            }
        }
    }
    // a condition that is not known yet: either branch may be taken in this pass
    void mayOpen(const vector<Node> &v, int d) {
        for (auto &n : v) {
            if (m.count(n.id)) continue;
            if (n.kind == N_INCBIN || n.kind == N_INCLUDE) o.maxIn = std::max(o.maxIn, d + 1);
            if (n.kind == N_CALL && macs.count(n.s)) mayOpen(macs[n.s]->kids, d);
            if (n.kind == N_MACDEF) continue;
            int e = d + (n.kind == N_INCLUDE);
            mayOpen(n.kids, e); mayOpen(n.alt, e);
            for (auto &k : n.more) mayOpen(k, e);
        }
    }
    void run(const vector<Node> &v) { for (auto &n : v) { if (stop || leave || !fail.empty()) return; step(n); } }
    void step(const Node &n) {
        if (m.count(n.id)) return;
        if ((work += n.kind == N_GROUP ? (long)n.kids.size() / 8 : n.kind == N_COMMENT && n.n == 2 ? n.x[0].v / 4 : 1) > 30000) { fail = "too much work"; return; }
        bool msb = cpus[p.cpu].msb;
        long v;
        switch (n.kind) {
        case N_GROUP: run(n.kids); break;
        case N_PROC: lst(n, true); break;
        case N_INCDIR: lst(n, true); break;
        case N_ORG: {
            Seg &s = segs[seg];
            val(n.x[0], v);
            s.org = v; s.known = true;
            lower();
            if (n.x.size() > 1) { val(n.x[1], v); fill = (int)v; }
            label(n);
            lst(n, true);
            break;
        }
        case N_RORG: { Seg &s = segs[seg]; val(n.x[0], v); s.ractive = true; s.rorg = v; label(n); lst(n, true); break; }
        case N_REND: label(n); segs[seg].ractive = false; lst(n, true); break;
        case N_SEG: { seg = n.s; if (n.n) segs[seg].bss = true; lower(); label(n); lst(n, true); break; }
        case N_DC: {
            label(n);
            int kind = n.n == 7 ? 0 : n.n >= 4 ? (int)n.n - 4 : (int)n.n;
            string b;
            vector<Expr> all = n.x;
            if (all.size() == 1 && all[0].k == X_PARAM && all[0].v == 0) {
                all.clear();
                for (size_t i = 0; i < args.back().size(); i++) { Expr e; e.k = X_PARAM; e.v = (long)i + 1; all.push_back(e); }
            }
            for (auto &e : all) {
                if (e.k == X_STR) { b += e.a; continue; }
                if (e.k == X_SYM && strs.count(e.a)) { b += strs[e.a]; continue; }
                val(e, v);
                if (kind == 0) b += (char)v;
                else if (kind == 1) b += word(v, msb);
                else if (kind == 2) b += lng(v, msb);
                else b += word(v, !msb);
            }
            data(n, b);
            break;
        }
        case N_HEX: {
            label(n);
            string b, h;
            for (char ch : n.s) if (ch != ' ') h += ch;
            for (size_t i = 0; i + 1 < h.size(); i += 2) b += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
            data(n, b);
            break;
        }
        case N_DS: {
            label(n);
            static const int w[] = {1, 2, 4, 1};
            long k, f = 0;
            val(n.x[0], k);
            if (n.x.size() > 1) val(n.x[1], f);
            string one = w[n.n] == 1 ? string(1, (char)f) : w[n.n] == 2 ? word(f, msb) : lng(f, msb), b;
            if (k < 0 || k > 100000) { fail = "ds size"; return; }
            for (long i = 0; i < k; i++) b += one;
            data(n, b);
            break;
        }
        case N_ALIGN: {
            long a, f = 0;
            val(n.x[0], a);
            if (n.x.size() > 1) val(n.x[1], f);
            long q = pc() % a;
            string pad = q ? string(a - q, (char)f) : string();
            emit(pad);
            label(n);
            lst(n, true, false, 0, pad);
            break;
        }
        case N_INS: {
            label(n);
            const Ins *in = nullptr;
            for (auto &i : cpus[p.cpu].ins) if (n.s == i.name && n.n == i.mode) in = &i;
            string b;
            int md = in->mode, op = in->op;
            size_t q = 0;
            auto next = [&]() { long w = 0; val(n.x[q++], w); return w; };
            if (md == 12 || md == 13) op += (int)next() * 2;
            if (md == 16) op |= (int)next();
            if (md == 8) {
                v = next();
                if (n.x[0].k != X_NUM && v >= 0x80 && v < 0x180 && !n.x[0].a.empty() && n.x[0].a[0] != 'K') { fail = "operand size depends on the layout"; return; }
                if (v > 0xff || v < 0) { b += (char)in->op2; b += word(v, msb); } else { b += (char)op; b += (char)v; }
                data(n, b);
                break;
            }
            if (md == 4) b += (char)(op >> 8);
            b += (char)op;
            if (md == 1 || md == 5 || md == 9 || md == 17 || (md >= 11 && md <= 15)) b += (char)next();
            if (md == 14 || md == 15) b += (char)next();
            if (md == 2 || md == 7 || md == 10) b += word(next(), msb);
            if (md == 3 || md == 11 || md == 13 || md == 15) { v = next(); b += (char)(v - pc() - (long)b.size() - 1); }
            if (md == 6) b += (char)(next() - pc() - 1);
            data(n, b);
            break;
        }
        case N_LABEL: label(n); lst(n, true); break;
        case N_EQU: case N_SET: {
            val(n.x[0], v);
            define(sname(n.label), v);
            lst(n, true);
            break;
        }
        case N_IF: {
            bool k = true;
            if (n.n) {
                bool def = cur.count(n.x[0].a);
                if (!def) asked.insert(n.x[0].a);
                if (!def && prev.count(n.x[0].a)) def = true;
                v = def == (n.n == 1);
            } else k = val(n.x[0], v);
            if (!k) steady = false;
            lst(n, true);
            if (!k) { skipped(n.kids); skipped(n.alt); mayOpen(n.kids, nFiles); mayOpen(n.alt, nFiles); break; }
            if (v) { run(n.kids); if (!stop && !leave) skipped(n.alt); } else { skipped(n.kids); run(n.alt); }
            break;
        }
        case N_REP: {
            bool k = val(n.x[0], v);
            if (!k) steady = false;
            lst(n, true);
            if (k && v == 0) { skipped(n.kids); break; }
            if (v < 0 || v > 5000) { fail = "repeat"; return; }
            for (long i = 0; i < std::max(1l, v); i++) run(n.kids);
            break;
        }
        case N_MACDEF:
            // body lines are listed with their comment at the definition
            for (auto &k : n.kids) bodyLst(k);
            if (macs.count(n.s)) o.strict = false;
            macs[n.s] = &n;
            break;
        case N_CALL: {
            label(n);
            files.push_back({});      // the call is listed as the first line of the macro
            lst(n, true);
            auto it = macs.find(n.s);
            if (it == macs.end()) { fail = "macro undefined"; return; }
            vector<string> a;
            for (auto &e : n.x) a.push_back(subst(xs(e)));
            long sl = local, sd = dollar;
            local = ++lastLocal;
            dollar = ++lastDollar;
            args.push_back(a);
            bool si = inMac;
            inMac = true;
            run(it->second->kids);
            leave = false;
            inMac = si;
            args.pop_back();
            files.pop_back();
            local = sl; dollar = sd;
            break;
        }
        case N_INCLUDE: {
            label(n);
            files.push_back({});
            lst(n, true);
            nFiles++;
            o.depth = std::max(o.depth, nFiles);
            o.maxIn = std::max(o.maxIn, nFiles);
            o.readFiles.insert(n.s);
            int vs = version(n.s);
            bool si = inMac;
            inMac = false;
            run(vs ? n.more[vs - 1] : n.kids);
            inMac = si;
            stop = false;
            files.pop_back();
            nFiles--;
            break;
        }
        case N_INCBIN: {
            label(n);
            o.maxIn = std::max(o.maxIn, nFiles + 1);
            o.readFiles.insert(n.s);
            auto it = p.bins.find(n.s);
            if (it == p.bins.end()) { fail = "incbin missing"; return; }
            const string &d = it->second[version(n.s)];
            if (n.n < (long)d.size()) emit(d.substr(n.n));
            lst(n, true);
            break;
        }
        case N_ECHO: {
            string t;
            for (auto &e : n.x) {
                if (e.k == X_STR) { t += " " + e.a; continue; }
                if (e.k == X_SYM && strs.count(e.a)) { t += " " + strs[e.a]; continue; }
                if (val(e, v)) { char b[40]; snprintf(b, sizeof b, e.k == X_DEC ? " %ld" : " $%lx", v); t += b; }
            }
            o.echos.push_back(t);
            work += (long)t.size() / 20;
            lst(n, true);
            break;
        }
        case N_SUBR: local = ++lastLocal; label(n); lst(n, true); break;
        case N_LIST:
            label(n);
            if (n.s == "off") list = false;
            else if (n.s == "on") list = true;
            else files.back().noList = n.s == "localoff";
            break;
        case N_COMMENT: if (!n.n) lst(n, true); else if (n.n == 3) { val(n.x[0], v); data(n, string(1, (char)v)); } break;
        case N_BLANK: break;
        case N_END: lst(n, true); stop = true; break;
        case N_MEXIT: leave = true; break;
        case N_STRSET: {
            unsigned long w = 0;
            for (unsigned char ch : n.s) w = w << 8 | ch;
            strs[n.label] = n.s;
            define(n.label, (long)w);
            o.strsyms[n.label] = n.s;
            lst(n, true);
            break;
        }
        case N_EQM: eqms[n.label] = &n; define(n.label, 0); o.strsyms[n.label] = xlist(n.x); lst(n, true); break;
        case N_DV: {
            auto it = eqms.find(n.s);
            if (it == eqms.end()) { fail = "dv without eqm"; return; }
            string b;
            for (auto &e : n.x) { val(e, special); val(it->second->x[0], v); if (n.n) b += word(v, msb); else b += (char)v; }
            data(n, b);
            break;
        }
        case N_RAW: fail = "raw text"; break;
        case N_ERR: fail = "contains an error"; break;
        }
    }
    void bodyLst(const Node &n) {
        if (m.count(n.id)) return;
        if (n.kind == N_GROUP) { for (auto &k : n.kids) bodyLst(k); return; }
        if (n.kind != N_BLANK && n.kind != N_LIST && n.kind != N_MACDEF) lst(n, true);
        if (n.kind == N_INCLUDE) return;
        for (auto &k : n.kids) bodyLst(k);
        for (auto &k : n.alt) bodyLst(k);
    }
    void reset() {
        o = ModelOut();
        cur.clear();
        segs.clear();
        seg = "<initial>";
        segs[seg] = Seg();
        unresolved = stop = false;
        fill = 255;
        local = lastLocal = dollar = lastDollar = 0;
        list = true;
        files.assign(1, Frame());
        nFiles = 1;
        args.clear();
        inMac = false;
        macs.clear();
        eqms.clear();
        asked.clear();
        strs.clear();
        sum = 0;
        work = 0;
        leave = false;
        fail.clear();
        o.depth = o.maxIn = 1;
        o.readFiles.insert(p.mainName);
    }
};
static void tested1(const vector<Node> &v, set<string> &o) {
    for (auto &n : v) {
        if (n.kind == N_IF && n.n) o.insert(n.x[0].a);
        tested1(n.kids, o); tested1(n.alt, o);
        for (auto &k : n.more) tested1(k, o);
    }
}
ModelOut model(const Prog &p, const Mask &mask, const map<string, int> &ver) {
    Model m(p, mask, ver);
    vector<vector<int>> tags;
    for (int pass = 0; pass < 25; pass++) {
        int in = m.o.maxIn;
        m.reset();
        m.o.maxIn = std::max(1, in);
        for (size_t i = 0; i < p.defs.size(); i++) if (!mask.count(-(int)i - 1)) {
            m.define(p.defs[i].first, p.defKind[i] == 3 ? 0 : p.defs[i].second);
            if (p.defKind[i] == 3) { const Node &q = p.mdefs.at(p.defs[i].first); m.eqms[p.defs[i].first] = &q; m.o.strsyms[p.defs[i].first] = xlist(q.x); }
        }
        m.run(p.body);
        if (!m.fail.empty()) break;
        tags.emplace_back();
        for (auto &l : m.o.list) if (l.tag) tags.back().push_back(l.tag);
        for (auto &a : m.asked) if (m.cur.count(a)) {
            // defined further down, so the next pass differs; there must be one for another reason
            m.steady = false;
            if (pass == 0 && !m.unresolved) m.fail = "IFCONST of a later symbol";
        }
        if (!m.fail.empty()) break;
        bool same = m.cur == m.prev;
        m.prev = m.cur;
        if (same && !m.unresolved) { m.o.ok = true; m.o.passTags = tags; tested1(p.body, m.o.tested); m.o.steady = m.steady; return m.o; }
    }
    m.o.ok = false;
    m.o.why = m.fail.empty() ? "no fixed point" : m.fail;
    return m.o;
}
long ModelOut::imageBytes() const { long n = 0; for (auto &c : chunks) n += c.bytes.size(); return n; }
string ModelOut::bin(int fmt) const {
    string s;
    long at = -1;
    for (auto &c : chunks) {
        if (fmt == 2) {
            // one way to write a hunk longer than 65535 bytes
            for (size_t i = 0; i < c.bytes.size(); i += 0x8000) {
                size_t n = c.bytes.size() > 65535 ? std::min<size_t>(0x8000, c.bytes.size() - i) : c.bytes.size();
                s += (char)(c.addr + i); s += (char)((c.addr + i) >> 8);
                s += (char)n; s += (char)(n >> 8);
                s += c.bytes.substr(i, n);
                if (n == c.bytes.size()) break;
            }
            continue;
        }
        if (at < 0) { if (fmt == 1) { s += (char)c.addr; s += (char)(c.addr >> 8); } at = c.addr; }
        if (c.addr < at) return "<reverse>";
        s.append(c.addr - at, (char)c.fill);
        s += c.bytes;
        at = c.addr + c.bytes.size();
    }
    return s;
}

bool ModelOut::sameBin(const string &d, int fmt) const {
    if (d == bin(fmt)) return true;
    bool big = false;
    for (auto &c : chunks) big |= c.bytes.size() > 65535;
    if (fmt != 2 || !big) return false;
    Image a, b;
    string why;
    return parse_bin(d, 2, 0, a, why) && parse_bin(bin(2), 2, 0, b, why) && a == b;
}

// ------------------------------------------------------------------ reading the outputs
vector<ListLine> parse_listing(const string &txt) {
    vector<ListLine> r;
    size_t a = 0;
    while (a < txt.size()) {
        size_t b = txt.find('\n', a);
        if (b == string::npos) b = txt.size();
        string raw = txt.substr(a, b - a), s;
        a = b + 1;
        for (char ch : raw) { if (ch == '\t') { do s += ' '; while (s.size() % 8); } else s += ch; }
        if (s.compare(0, 7, "-------") == 0) { ListLine l; l.text = s; r.push_back(l); continue; }
        if (s.size() < 13) { ListLine l; l.text = s; r.push_back(l); continue; }
        ListLine l;
        l.text = s;
        size_t q = s.rfind(";n");
        if (q != string::npos) { l.tag = atoi(s.c_str() + q + 2); }
        char *e;
        long no = strtol(s.c_str(), &e, 10);
        if (e - s.c_str() != 7) { r.push_back(l); continue; }
        l.no = no;
        const char *ap = s.c_str() + 9;
        l.addr = strtol(ap, &e, 16);
        if (e == ap) l.addr = -1;
        for (size_t k = 31; k + 1 < s.size() && k < 43; k += 3) {
            if (isxdigit((unsigned char)s[k]) && isxdigit((unsigned char)s[k + 1])) l.bytes += (char)strtol(s.substr(k, 2).c_str(), nullptr, 16);
            else break;
        }
        if (s.size() > 42) { l.more = s[42] == '*'; l.falsy = s[42] == '-'; }
        r.push_back(l);
    }
    return r;
}
static string hx(const string &b) { string s; char t[8]; for (unsigned char c : b) { snprintf(t, sizeof t, "%02x ", c); s += t; } return s; }
string check_listing(const string &txt, const ModelOut &m, const LineMap &lines) {
    auto ll = parse_listing(txt);
    size_t j = 0;
    auto relevant = [](const ListLine &l) { return l.tag || (!l.bytes.empty() && !l.falsy); };
    for (auto &e : m.list) {
        if (!e.tag && e.bytes.empty()) continue;
        while (j < ll.size() && !relevant(ll[j])) j++;
        if (j >= ll.size()) return "listing ends before line tagged n" + std::to_string(e.tag);
        ListLine &l = ll[j++];
        if (l.tag != e.tag) return "listing shows '" + l.text + "' where line n" + std::to_string(e.tag) + " belongs";
        if (auto q = lines.find(e.id); e.id && q != lines.end()) { long no = e.mac ? q->second.second : q->second.first; if (no && l.no != no) return "listing line number wrong in '" + l.text + "', expected " + std::to_string(no); }
        if (e.chk) {
            if ((l.addr & 0xffffff) != e.addr) return "listing address wrong in '" + l.text + "', expected " + std::to_string(e.addr);
            if (l.bytes != e.bytes && !(e.prefix && !l.bytes.empty() && e.bytes.compare(0, l.bytes.size(), l.bytes) == 0)) return "listing bytes wrong in '" + l.text + "', expected " + hx(e.bytes);
        }
    }
    while (j < ll.size() && !relevant(ll[j])) j++;
    if (j < ll.size()) return "unexpected listing line '" + ll[j].text + "'";
    // ECHO texts appear in the listing as well
    return "";
}
static string words1(const string &s) {
    string o;
    for (char ch : s) { if (ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n') { if (!o.empty() && o.back() != ' ') o += ' '; } else o += ch; }
    while (!o.empty() && o.back() == ' ') o.pop_back();
    return o;
}
string check_list_text(const string &txt, const map<string, string> &files) {
    map<int, string> src;
    for (auto &f : files) {
        if (f.first.size() > 4 && f.first.compare(f.first.size() - 4, 4, ".dat") == 0) continue;     // binary
        const string &t = f.second;
        for (size_t a = 0, b; a < t.size(); a = b + 1) {
            b = t.find('\n', a);
            if (b == string::npos) b = t.size();
            string s = t.substr(a, b - a);
            size_t q = s.rfind(";n");
            if (q == string::npos || !isdigit((unsigned char)s[q + 2])) continue;
            int id = atoi(s.c_str() + q + 2);
            size_t w = s.find_first_of(" \t");
            if (s.substr(0, w).find(',') != string::npos) continue;    // shown with the value in the name
            if (w != string::npos && w > 0 && s[w - 1] == ':') s[w - 1] = ' ';
            src[id] = words1(s);
        }
    }
    for (auto &l : parse_listing(txt)) {
        if (!l.tag || l.addr < 0 || l.text.size() < 43 || !src.count(l.tag)) continue;
        string got = words1(l.text.substr(43));
        // .byte, .word and .long are shown with the size they stand for
        for (const char *k : {".byte.b", ".word.w", ".long.l"}) { size_t q = got.find(k); if (q != string::npos && got.size() > q + 7 && got[q + 7] == ' ') { got.erase(q + 5, 2); break; } }
        if (src[l.tag].find(" */") != string::npos && src[l.tag].compare(0, 3, "end") == 0) {
            // the end of a comment is shown after the code that follows it
            string all = " " + got + " ";
            for (auto &ch : all) if (ch == ';' || ch == '*' || ch == '/') ch = ' ';
            string s = src[l.tag] + " ";
            for (auto &ch : s) if (ch == ';' || ch == '*' || ch == '/') ch = ' ';
            for (size_t a = 0, b; (b = s.find(' ', a)) != string::npos; a = b + 1) if (b > a && all.find(" " + s.substr(a, b - a) + " ") == string::npos) return "listing shows '" + got + "' for the source line '" + src[l.tag] + "'";
            continue;
        }
        if (got != src[l.tag]) return "listing shows '" + got + "' for the source line '" + src[l.tag] + "'";
    }
    return "";
}
bool parse_symfile(const string &txt, vector<std::pair<string, long>> &out, string &why) {
    size_t a = 0;
    int state = 0;
    while (a < txt.size()) {
        size_t b = txt.find('\n', a);
        if (b == string::npos) { why = "last line incomplete"; return false; }
        string s = txt.substr(a, b - a);
        a = b + 1;
        if (s.compare(0, 15, "--- Symbol List") == 0) { if (state) { why = "second header"; return false; } state = 1; continue; }
        if (s.compare(0, 7, "--- End") == 0) { if (state != 1) { why = "misplaced end"; return false; } state = 2; continue; }
        if (state != 1) { why = "text outside the list"; return false; }
        size_t sp = s.find(' ');
        if (sp == string::npos) { why = "bad line '" + s + "'"; return false; }
        string name = s.substr(0, sp);
        const char *q = s.c_str() + sp;
        while (*q == ' ') q++;
        char *e;
        long v = (long)strtoull(q, &e, 16);
        if (e == q || e - q < 4) { why = "bad value in '" + s + "'"; return false; }
        if (strstr(e, "????")) v = -12345;
        out.push_back({name, v});
    }
    if (state != 2) { why = "no end line"; return false; }
    return true;
}
string check_symfile(const string &txt, const ModelOut &m, int mode) {
    vector<std::pair<string, long>> got;
    string why;
    if (!parse_symfile(txt, got, why)) return "symbol file malformed: " + why;
    map<string, long> g, w;
    for (auto &s : got) { if (g.count(s.first)) return "symbol listed twice: " + s.first; g[s.first] = s.second; }
    for (auto &s : m.syms) w[s.first] = s.second;
    for (auto &s : w) {
        if (!g.count(s.first)) return "symbol missing: " + s.first;
        if (g[s.first] != s.second) return "symbol " + s.first + " has value " + std::to_string(g[s.first]) + ", expected " + std::to_string(s.second);
    }
    // local labels get numbered names; ones numbered differently in an earlier pass may stay behind
    auto local = [](const string &s) { return isdigit((unsigned char)s[0]) != 0; };
    for (auto &s : m.strsyms) if (txt.find("\n" + s.first + " ") != string::npos && txt.find("\"" + s.second + "\"\n", txt.find("\n" + s.first + " ")) == string::npos) return "text of symbol " + s.first + " missing";
    for (auto &s : g) if (!w.count(s.first) && !local(s.first) && !(m.tested.count(s.first) && s.second == -12345)) return "unknown symbol listed: " + s.first;
    if (txt.find("unsorted") != string::npos) return "";
    for (size_t i = 1; i < got.size(); i++) {
        if (mode == 0 && strcasecmp(got[i - 1].first.c_str(), got[i].first.c_str()) > 0) return "symbols not in alphabetical order at " + got[i].first;
        if (mode == 1 && got[i - 1].second > got[i].second && got[i].second != -12345) return "symbols not in value order at " + got[i].first;
    }
    if (mode == 2) {
        size_t j = 0;
        for (auto &q : got) {
            if (!w.count(q.first)) continue;
            if (q.first != m.syms[j].first) return "symbols not in code order at " + q.first + ", expected " + m.syms[j].first;
            j++;
        }
    }
    return "";
}
bool parse_bin(const string &d, int fmt, long rawOrg, Image &img, string &why) {
    size_t i = 0;
    auto w = [&](size_t k) { return (long)(unsigned char)d[k] | (long)(unsigned char)d[k + 1] << 8; };
    if (fmt == 2) {
        while (i < d.size()) {
            if (i + 4 > d.size()) { why = "truncated hunk header"; return false; }
            long a = w(i), n = w(i + 2);
            i += 4;
            if (i + n > d.size()) { why = "truncated hunk"; return false; }
            for (long k = 0; k < n; k++) img[(a + k)] = d[i + k];
            i += n;
        }
        return true;
    }
    long a = rawOrg;
    if (fmt == 1) {
        if (d.empty()) return true;
        if (d.size() < 2) { why = "truncated header"; return false; }
        a = w(0);
        i = 2;
    }
    for (; i < d.size(); i++) img[a++] = d[i];
    return true;
}
bool parse_hex(const string &d, Image &img, string &why) {
    size_t i = 0;
    bool end = false;
    auto hexd = [&](size_t k) -> int { char c = d[k]; if (c >= '0' && c <= '9') return c - '0'; if (c >= 'A' && c <= 'F') return c - 'A' + 10; if (c >= 'a' && c <= 'f') return c - 'a' + 10; return -1; };
    auto byte = [&](size_t k) -> int { if (k + 1 >= d.size()) return -1; int a = hexd(k), b = hexd(k + 1); return a < 0 || b < 0 ? -1 : a * 16 + b; };
    while (i < d.size()) {
        if (end) { why = "data after the end record"; return false; }
        if (d[i] != ':') { why = "record does not start with a colon"; return false; }
        int n = byte(i + 1), ah = byte(i + 3), al = byte(i + 5), t = byte(i + 7);
        if (n < 0 || ah < 0 || al < 0 || t < 0) { why = "bad record"; return false; }
        int sum = n + ah + al + t;
        vector<int> b;
        for (int k = 0; k < n; k++) { int v = byte(i + 9 + 2 * k); if (v < 0) { why = "short record"; return false; } b.push_back(v); sum += v; }
        int ck = byte(i + 9 + 2 * n);
        if (ck < 0) { why = "record without checksum"; return false; }
        if ((sum + ck) & 0xff) { why = "bad checksum"; return false; }
        if (t == 0) { long a = ah * 256 + al; for (int k = 0; k < n; k++) img[a + k] = (unsigned char)b[k]; }
        else if (t == 1) { if (n) { why = "end record with data"; return false; } end = true; }
        else { why = "unknown record type"; return false; }
        i += 11 + 2 * n;
        if (i < d.size() && d[i] == '\r') i++;
        if (i >= d.size() || d[i] != '\n') { why = "record not ended by a newline"; return false; }
        i++;
    }
    if (!end) { why = "no end record"; return false; }
    return true;
}
string hexof(int fmt, const string &bin, bool &ok) {
    string s;
    ok = true;
    auto rec = [&](long a, const string &b) {
        char t[16];
        int sum = (int)b.size() + (int)((a >> 8) & 0xff) + (int)(a & 0xff);
        snprintf(t, sizeof t, ":%02X%04X00", (unsigned)b.size(), (unsigned)(a & 0xffff));
        s += t;
        for (unsigned char c : b) { snprintf(t, sizeof t, "%02X", c); s += t; sum += c; }
        snprintf(t, sizeof t, "%02X\r\n", (-sum) & 0xff);
        s += t;
    };
    auto run = [&](long a, const string &b) { for (size_t i = 0; i < b.size(); i += 16) rec(a + (long)i, b.substr(i, 16)); };
    auto w = [&](size_t k) { return (long)(unsigned char)bin[k] | (long)(unsigned char)bin[k + 1] << 8; };
    if (fmt == 3) run(0, bin);
    else if (fmt == 1) { if (bin.size() == 1) { ok = false; } else if (!bin.empty()) run(w(0), bin.substr(2)); }
    else {
        size_t i = 0;
        while (i < bin.size()) {
            if (i + 4 > bin.size()) { ok = false; break; }
            long a = w(i), n = w(i + 2);
            if (i + 4 + n > bin.size()) { ok = false; break; }
            run(a, bin.substr(i + 4, n));
            i += 4 + n;
        }
    }
    s += ":00000001FF\r\n";
    return s;
}
