#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

u64 g_totalRuns, g_totalSteps, g_totalEvents, g_totalSimtime, g_maxSteps;
map<string, u64> g_faultFired;
set<u64> g_coverSet;

static const char *opn[] = {"openr", "openw", "read", "write", "seek", "close", "unlink", "other", "?", "any", "alloc"};
static const char *effn[] = {"fail", "partial", "loseclose", "kill", "power", "edit", "outage", "diskfull"};
static const char *endn[] = {"exit", "killed", "crash", "heap-damage", "bad-stream", "hang", "none"};
const char *op_name(int o) { return opn[o]; }
const char *eff_name(int e) { return effn[e]; }
const char *end_name(int e) { return endn[e]; }
string fault_str(const Fault &f) {
    return std::to_string(f.proc) + " " + opn[f.op] + " " + (f.path.empty() ? "*" : f.path) + " " + std::to_string(f.nth) + " " + std::to_string(f.count) + " " + effn[f.eff] + " " +
           std::to_string(f.arg);
}
bool fault_parse(const string &s, Fault &f) {
    char op[40], path[5000], eff[40];
    unsigned long long n, c;
    if (sscanf(s.c_str(), "%d %39s %4999s %llu %llu %39s %ld", &f.proc, op, path, &n, &c, eff, &f.arg) != 7) return false;
    f.nth = n; f.count = c;
    f.path = strcmp(path, "*") ? path : "";
    f.op = f.eff = -1;
    for (int i = 0; i <= OP_ALLOC; i++) if (!strcmp(op, opn[i])) f.op = i;
    for (int i = 0; i <= E_DISKFULL; i++) if (!strcmp(eff, effn[i])) f.eff = i;
    f.fired = f.seen = 0;
    return f.op >= 0 && f.eff >= 0;
}
string env_str(const Env &e) {
    char b[300];
    snprintf(b, sizeof b, "%llu %d %d %d %d %d %llu %d %llu", (unsigned long long)e.memseed, e.rbuf, e.wbuf, e.rchunk, e.wchunk,
             e.fdlimit, (unsigned long long)e.stepcap, (int)e.environ_, (unsigned long long)e.latseed);
    return b;
}
bool env_parse(const string &s, Env &e) {
    unsigned long long m, c, l; int v;
    if (sscanf(s.c_str(), "%llu %d %d %d %d %d %llu %d %llu", &m, &e.rbuf, &e.wbuf, &e.rchunk, &e.wchunk, &e.fdlimit, &c, &v, &l) != 9) return false;
    e.memseed = m; e.stepcap = c; e.environ_ = v; e.latseed = l;
    return true;
}
string RunResult::brief() const {
    string s = end_name(end);
    if (end == END_EXIT) s += " status " + std::to_string(status);
    if (!detail.empty()) s += " (" + detail + ")";
    return s;
}

// ---------------------------------------------------------------- loaded copies of the programs
struct Region { char *p; size_t n; string copy; };
struct Lib {
    void *h = nullptr;
    int (*main)(int, char **, char **) = nullptr;
    uintptr_t base = 0;
    vector<Region> regs;
};
static vector<Lib> libD, libF;

struct FindCtx { Lib *l; string path; };
static int phdr_cb(struct dl_phdr_info *i, size_t, void *d) {
    FindCtx *c = (FindCtx *)d;
    if (!i->dlpi_name || c->path != i->dlpi_name) return 0;
    c->l->base = i->dlpi_addr;
    uintptr_t relLo = 0, relHi = 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
            relLo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            relHi = relLo + i->dlpi_phdr[k].p_memsz;
            relLo &= ~4095ul;
            relHi &= ~4095ul;
        }
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto &ph = i->dlpi_phdr[k];
        if (ph.p_type != PT_LOAD || !(ph.p_flags & PF_W)) continue;
        uintptr_t a = i->dlpi_addr + ph.p_vaddr, e = a + ph.p_memsz;
        if (relHi > a && relLo <= a) a = std::min(relHi, e);
        if (e > a) c->l->regs.push_back({(char *)a, (size_t)(e - a), ""});
    }
    return 1;
}
static bool load1(const string &path, Lib &l, string &err) {
    l.h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!l.h) { err = dlerror(); return false; }
    *(void **)&l.main = dlsym(l.h, "prog_main");
    if (!l.main) { err = "no prog_main in " + path; return false; }
    FindCtx c{&l, path};
    dl_iterate_phdr(phdr_cb, &c);
    if (l.regs.empty()) { err = "no data in " + path; return false; }
    for (auto &r : l.regs) r.copy.assign(r.p, r.n);
    return true;
}
bool sim_load(const string &d, const string &f, int copies, string &err) {
    for (int k = 0; k < copies; k++) {
        libD.emplace_back(); libF.emplace_back();
        string sfx = "." + std::to_string(k);
        if (!load1(d + sfx, libD.back(), err) || !load1(f + sfx, libF.back(), err)) return false;
    }
    return true;
}

// ---------------------------------------------------------------- processes
struct Proc;
struct Stream {
    Proc *p = nullptr;
    string path;
    InodeP ino;
    bool rd = false, wr = false, app = false, alive = true, console = false, dead = false;
    string *sink = nullptr;
    long pos = 0, lastOff = -1, lastLen = 0;
    int fd = -1;
    FILE *f = nullptr;
    char *buf = nullptr;
};
struct Block { u64 size; u64 state; };
enum { RZ = 48 };
static const size_t ARENA = 768ul << 20, STACK = 16ul << 20;
struct Slot { char *arena = nullptr, *stack = nullptr; };
static Slot slots[8];

struct Proc {
    int idx = 0;
    ProcSpec spec;
    Lib *lib = nullptr;
    Slot *slot = nullptr;
    ucontext_t ctx;
    bool done = false, started = false;
    RunResult res;
    vector<std::unique_ptr<Stream>> streams;
    std::unordered_map<void *, Stream *> byHandle;
    std::map<int, Stream *> byFd;
    Stream *sin = nullptr, *sout = nullptr, *serr = nullptr;
    int open = 0, nextFd = 3;
    char *tok = nullptr;      // strtok
    u64 steps = 0, cap = 0, clock = 0, epoch = 0, allocs = 0;
    Rng mem{1}, lat{1}, chunk{1};
    size_t brk = 0, top = 0;      // blocks are taken from both ends of the arena
    vector<size_t> blocks;        // offsets of Block headers
    vector<void (*)()> atex;
    vector<string> args;
    vector<vector<char>> argbufs;
    vector<char *> argv;
    vector<u64> cov;
    u64 poisonKey = 0, nextJunk = 0, junkEvery = 1;
    u64 hash = 14695981039346656037ull;
};
static Proc *cur = nullptr;
static World *W = nullptr;
static ucontext_t schedCtx;
static bool multi = false;
static vector<std::unique_ptr<Proc>> procs;
static u64 worldSeq;
static long diskfullUntil;

extern "C" {
FILE *sim_stdin, *sim_stdout, *sim_stderr;
}
static void setStd(Proc *p) {
    sim_stdin = (FILE *)p->sin;
    sim_stdout = (FILE *)p->sout;
    sim_stderr = (FILE *)p->serr;
}
static void leave(Proc *p) __attribute__((noreturn));
static void leave(Proc *p) {
    p->done = true;
    setcontext(&schedCtx);
    abort();
}
static void endWith(int end, const string &why) __attribute__((noreturn));
static void endWith(int end, const string &why) {
    Proc *p = cur;
    p->res.end = end;
    p->res.detail = why;
    for (auto &s : p->streams) s->dead = true;
    leave(p);
}

static void hang() __attribute__((noreturn, noinline, cold));
static void hang() { endWith(END_HANG, "more than " + std::to_string(cur->cap) + " steps"); }
extern "C" __attribute__((no_stack_protector)) void __sanitizer_cov_trace_pc(void) {
    Proc *p = cur;
    if (!p) return;
    uintptr_t pc = (uintptr_t)__builtin_return_address(0) - p->lib->base;
    unsigned b = (unsigned)(pc & 0xFFFFF);
    p->cov[b >> 6] |= 1ull << (b & 63);
    if (++p->steps > p->cap) hang();
    // what earlier calls left on the stack is replaced now and then, so that a variable used
    // before it is set holds something else in every run (this file is built without red zone)
    if (p->steps == p->nextJunk) {
        u64 z = (p->poisonKey + p->steps) * 0x9E3779B97F4A7C15ull;
        p->nextJunk += 1 + (z >> 58) % p->junkEvery;
        long i = -96;
        __asm__ volatile("1:\tmovq %1, -8(%%rsp,%0,8)\n\trolq $7, %1\n\taddq $1, %0\n\tjle 1b" : "+r"(i), "+r"(z) : : "memory", "cc");
    }
}

// ---------------------------------------------------------------- kernel events and faults
struct Act { int eff; long arg; };
static const Act PASS = {-1, 0};

static void powerLoss() {
    Rng r(W->powerSeed);
    vector<string> gone;
    for (auto &f : W->disk.files) {
        Inode &i = *f.second;
        if (i.data == i.durable) continue;
        switch (r.below(5)) {
        case 0: i.data = i.durable; break;
        case 1: i.data = i.data.substr(0, r.below(i.data.size() + 1)); break;
        case 2: { size_t k = r.below(i.data.size() + 1); std::fill(i.data.begin() + k, i.data.end(), '\0'); break; }
        case 3: i.data.clear(); break;
        case 4: break;
        }
        i.durable = i.data;
    }
}
static void note(const Fault &f, int op) {
    string k = f.eff == E_FAIL || f.eff == E_PARTIAL ? string(opn[op]) + "-" + effn[f.eff] : string(effn[f.eff]);
    g_faultFired[k]++;
}
static void killProc(Proc *p, bool power) {
    p->res.end = END_KILLED;
    for (auto &s : p->streams) s->dead = true;
    if (power) {
        W->powered = false;
        powerLoss();
    }
    leave(p);
}
static void yieldNow(Proc *p) {
    if (!multi) return;
    swapcontext(&p->ctx, &schedCtx);
    cur = p;
    setStd(p);
}
static string keyOf(int op, const string &path) { return string(opn[op]) + " " + path; }

// One operation on the disk. Returns what the fault plan says about it.
static Act event(Proc *p, int op, const string &path, long n, bool tornOk = false) {
    p->clock += 1 + p->lat.below(1000);
    yieldNow(p);
    p->res.events++;
    worldSeq++;
    p->res.prof[keyOf(op, path)]++;
    p->hash = mix(mix(mix(p->hash, op), hashstr(path)), (u64)n);
    if (op == OP_OPENR && path == p->spec.epochFile) p->epoch++;
    if (W->keepLog && p->res.log.size() < 20000) p->res.log.push_back({p->idx, op, path, n, 0, p->epoch});
    if (diskfullUntil >= 0 && (long)worldSeq >= diskfullUntil) { W->diskLeft = -1; diskfullUntil = -1; }
    Act a = PASS;
    for (auto &f : W->faults) {
        if (f.eff == E_EDIT) {
            if (++f.seen == f.nth) {
                auto v = W->versions.find(f.path);
                if (v != W->versions.end() && f.arg < (long)v->second.size()) {
                    auto in = std::make_shared<Inode>();
                    in->data = in->durable = v->second[f.arg];
                    W->disk.files[f.path] = in;
                    f.fired++; note(f, op);
                }
            }
            continue;
        }
        if (f.eff == E_DISKFULL) {
            if (++f.seen == f.nth) { W->diskLeft = f.arg; diskfullUntil = f.count ? (long)(worldSeq + f.count) : -1; f.fired++; note(f, op); }
            continue;
        }
        if (f.proc != p->idx) continue;
        if (f.eff == E_OUTAGE) {
            if (op != OP_OPENR || f.path != path) continue;
            if (p->epoch >= f.nth && (f.count == 0 || p->epoch < f.nth + f.count) && a.eff < 0) { a = {E_FAIL, f.arg}; f.fired++; note(f, op); }
            continue;
        }
        if (f.op != OP_ANY && f.op != op) continue;
        if (!f.path.empty() && f.path != path) continue;
        ++f.seen;
        if (f.seen < f.nth || (f.count && f.seen >= f.nth + f.count)) continue;
        if (f.eff == E_KILL || f.eff == E_POWER) {
            f.fired++; note(f, op);
            if (tornOk && f.arg > 0) { a = {f.eff, f.arg}; break; }
            killProc(p, f.eff == E_POWER);
        }
        if (a.eff < 0) {
            if (f.eff == E_LOSECLOSE && op != OP_CLOSE) continue;
            if (op == OP_CLOSE || op == OP_WRITE || op == OP_READ || op == OP_SEEK || op == OP_OPENR || op == OP_OPENW || op == OP_UNLINK || op == OP_OTHER) {
                a = {f.eff, f.arg};
                f.fired++; note(f, op);
            }
        }
    }
    p->hash = mix(p->hash, (u64)(a.eff + 7));
    return a;
}

static string norm(const char *c) {
    string s = c, r;
    while (s.compare(0, 2, "./") == 0) s = s.substr(2);
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '/' && !r.empty() && r.back() == '/') continue;
        if (s[i] == '.' && (r.empty() || r.back() == '/') && i + 1 < s.size() && s[i + 1] == '/') { i++; continue; }
        r += s[i];
    }
    return r;
}
static void wrote(Proc *p, const string &path) {
    auto &w = p->res.written;
    if (std::find(w.begin(), w.end(), path) == w.end()) w.push_back(path);
}
static int errOf(long arg, int dflt) { return arg > 0 && arg < 200 ? (int)arg : dflt; }

// open at kernel level; returns null and errno on failure
static Stream *kopen(Proc *p, const string &path, bool rd, bool wr, bool creat, bool trunc, bool app, bool excl) {
    Act a = event(p, wr ? OP_OPENW : OP_OPENR, path, 0);
    if (a.eff >= 0) { errno = errOf(a.arg, wr ? EACCES : EIO); return nullptr; }
    if (p->open >= (p->spec.env.fdlimit ? p->spec.env.fdlimit : 1000)) { errno = EMFILE; return nullptr; }
    if (path.empty()) { errno = ENOENT; return nullptr; }
    auto it = W->disk.files.find(path);
    if (it == W->disk.files.end()) {
        if (!creat) { errno = ENOENT; return nullptr; }
        auto in = std::make_shared<Inode>();
        W->disk.files[path] = in;
        it = W->disk.files.find(path);
        wrote(p, path);
    } else if (excl) { errno = EEXIST; return nullptr; }
    else if (trunc) { it->second->data.clear(); wrote(p, path); }
    std::unique_ptr<Stream> s(new Stream);
    s->p = p; s->path = path; s->ino = it->second; s->rd = rd; s->wr = wr; s->app = app;
    s->fd = p->nextFd++;
    p->open++;
    p->res.peakfds = std::max(p->res.peakfds, p->open);
    if (!wr) { p->res.lastOpened[path] = s->ino->data; p->res.lastOpenEpoch[path] = p->epoch; }
    Stream *r = s.get();
    p->streams.push_back(std::move(s));
    return r;
}
static int pickSize(Proc *p, int policy, bool forChunk) {
    if (policy > 0) return policy;
    if (policy == 0 && forChunk) return 0;
    static const int sizes[] = {1, 2, 3, 7, 16, 31, 64, 100, 128, 256, 511, 512, 1000, 1024, 2048, 4096, 4097, 8192};
    return sizes[p->chunk.below(sizeof sizes / sizeof *sizes)];
}
static ssize_t kread(Stream *s, char *b, size_t n) {
    Proc *p = s->p;
    int c = pickSize(p, p->spec.env.rchunk, true);
    if (c > 0 && (size_t)c < n) n = c;
    Act a = event(p, OP_READ, s->path, (long)n);
    if (a.eff >= 0) { errno = errOf(a.arg, EIO); return -1; }
    size_t sz = s->ino->data.size();
    if ((size_t)s->pos >= sz) return 0;
    n = std::min(n, sz - s->pos);
    memcpy(b, s->ino->data.data() + s->pos, n);
    s->pos += n;
    return n;
}
static void putBytes(Stream *s, const char *b, size_t n) {
    string &d = s->ino->data;
    if (s->app) s->pos = d.size();
    if (d.size() < s->pos + n) d.resize(s->pos + n, '\0');
    memcpy(&d[s->pos], b, n);
    s->lastOff = s->pos; s->lastLen = n;
    s->pos += n;
    wrote(s->p, s->path);
    s->p->hash = mix(s->p->hash, hashstr(string(b, n)));
}
// returns bytes written; fewer than n means error (errno)
static size_t kwrite(Stream *s, const char *b, size_t n) {
    Proc *p = s->p;
    size_t done = 0;
    while (done < n) {
        size_t m = n - done;
        int c = pickSize(p, p->spec.env.wchunk, true);
        if (c > 0 && (size_t)c < m) m = c;
        Act a = event(p, OP_WRITE, s->path, (long)m, true);
        if (a.eff == E_KILL || a.eff == E_POWER) {
            putBytes(s, b + done, std::min(m, (size_t)a.arg));
            killProc(p, a.eff == E_POWER);
        }
        if (a.eff == E_PARTIAL) {
            size_t k = std::min(m, (size_t)std::max(0l, a.arg));
            if (k) putBytes(s, b + done, k);
            errno = ENOSPC;
            return done + (k == m && k ? k - 1 : k);
        }
        if (a.eff >= 0) { errno = errOf(a.arg, EIO); return done; }
        if (W->diskLeft >= 0) {
            long grow = (long)((s->app ? s->ino->data.size() : (size_t)s->pos) + m) - (long)s->ino->data.size();
            if (grow > W->diskLeft) {
                size_t k = m - (size_t)(grow - W->diskLeft);
                g_faultFired["write-nospace"]++;
                if (k && k <= m) putBytes(s, b + done, k);
                W->diskLeft = 0;
                errno = ENOSPC;
                return done + k;
            }
            if (grow > 0) W->diskLeft -= grow;
        }
        putBytes(s, b + done, m);
        done += m;
    }
    return done;
}
static int kclose(Stream *s) {
    Proc *p = s->p;
    p->open--;
    Act a = event(p, OP_CLOSE, s->path, 0);
    if (a.eff < 0) return 0;
    if (a.eff == E_LOSECLOSE && s->wr && s->lastOff >= 0 && s->lastLen && (size_t)(s->lastOff + s->lastLen) == s->ino->data.size())
        s->ino->data.resize(s->lastOff);
    errno = errOf(a.arg, EIO);
    return -1;
}

// ---------------------------------------------------------------- cookie functions below glibc's stdio
static ssize_t ck_read(void *c, char *b, size_t n) {
    Stream *s = (Stream *)c;
    if (s->dead) return 0;
    if (s->console) return 0;
    return kread(s, b, n);
}
static ssize_t ck_write(void *c, const char *b, size_t n) {
    Stream *s = (Stream *)c;
    if (s->dead) return n;
    if (s->console) {
        Act a = event(s->p, OP_WRITE, s->path, (long)n);
        if (a.eff >= 0) { errno = errOf(a.arg, EIO); return 0; }
        s->sink->append(b, n);
        if (s->sink->size() > (64u << 20)) endWith(END_HANG, "console output above 64 MiB");
        return n;
    }
    size_t r = kwrite(s, b, n);
    if (s->ino->data.size() > (64u << 20)) endWith(END_HANG, "file above 64 MiB: " + s->path);
    return r;
}
static int ck_seek(void *c, off64_t *off, int wh) {
    Stream *s = (Stream *)c;
    if (s->dead) return 0;
    if (s->console) { errno = ESPIPE; return -1; }
    Act a = event(s->p, OP_SEEK, s->path, (long)*off * 4 + wh);
    if (a.eff >= 0) { errno = errOf(a.arg, EIO); return -1; }
    long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? s->pos : (long)s->ino->data.size();
    long np = base + (long)*off;
    if (np < 0) { errno = EINVAL; return -1; }
    s->pos = np;
    *off = np;
    return 0;
}
static int ck_close(void *c) {
    Stream *s = (Stream *)c;
    if (s->dead || s->console) return 0;
    return kclose(s);
}
static FILE *attach(Stream *s, const char *mode) {
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    s->f = fopencookie(s, mode, io);
    int sz = pickSize(s->p, s->wr ? s->p->spec.env.wbuf : s->p->spec.env.rbuf, false);
    s->buf = (char *)malloc(sz);
    setvbuf(s->f, s->buf, s->console && s->path == "<stderr>" ? _IONBF : _IOFBF, sz);
    s->p->byHandle[(void *)s] = s;
    return (FILE *)s;
}
static Stream *console(Proc *p, const char *name, string *sink, const char *mode) {
    std::unique_ptr<Stream> u(new Stream);
    Stream *s = u.get();
    s->p = p; s->path = name; s->console = true; s->sink = sink; s->wr = sink != nullptr; s->rd = !s->wr;
    p->streams.push_back(std::move(u));
    attach(s, mode);
    return s;
}
static Stream *S(FILE *f, const char *fn) {
    Proc *p = cur;
    if (!f) endWith(END_BADSTREAM, string(fn) + " on a null stream");
    auto i = p->byHandle.find((void *)f);
    if (i == p->byHandle.end()) endWith(END_BADSTREAM, string(fn) + " on something that is not a stream");
    if (!i->second->alive) endWith(END_BADSTREAM, string(fn) + " on closed stream of " + i->second->path);
    return i->second;
}

// ---------------------------------------------------------------- heap
static const u64 LIVE = 0xA110CA7EDull, FREED = 0xF4EEDB10Cull;
static inline u64 pat(Proc *p, u64 i) { u64 z = (p->poisonKey + i) * 0x9E3779B97F4A7C15ull; return z ^ (z >> 29); }
static void fillPat(Proc *p, char *a, size_t n) {
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { u64 v = pat(p, (u64)(uintptr_t)(a + i) - (u64)(uintptr_t)p->slot->arena); memcpy(a + i, &v, 8); }
    u64 v = pat(p, (u64)(a - p->slot->arena));
    for (; i < n; i++) a[i] = (char)(v >> (8 * (i & 7)));
}
static bool checkPat(Proc *p, const char *a, size_t n) {
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { u64 v = pat(p, (u64)(uintptr_t)(a + i) - (u64)(uintptr_t)p->slot->arena); if (memcmp(a + i, &v, 8)) return false; }
    u64 v = pat(p, (u64)(a - p->slot->arena));
    for (; i < n; i++) if (a[i] != (char)(v >> (8 * (i & 7)))) return false;
    return true;
}
static size_t rup(size_t n) { return (n + 15) & ~15ul; }
static void *halloc(size_t n) {
    Proc *p = cur;
    p->allocs++;
    p->res.allocs = p->allocs;
    p->hash = mix(p->hash, n + 0x77);
    for (auto &f : W->faults)
        if (f.op == OP_ALLOC && f.proc == p->idx) {
            ++f.seen;
            if (f.seen >= f.nth && (!f.count || f.seen < f.nth + f.count)) {
                f.fired++;
                g_faultFired["alloc-fail"]++;
                errno = ENOMEM;
                return nullptr;
            }
        }
    size_t pad = 16 * p->mem.below(8);
    size_t need = sizeof(Block) + RZ + rup(n) + RZ + pad;
    if (n > ARENA || p->brk + need > p->top) endWith(END_HANG, "memory use above 768 MiB");
    size_t off;
    if (p->spec.env.memseed && p->mem.chance(50)) { p->top -= need; off = p->top; }
    else { off = p->brk + pad; p->brk += need; }
    Block *b = (Block *)(p->slot->arena + off);
    b->size = n; b->state = LIVE;
    char *u = (char *)(b + 1) + RZ;
    fillPat(p, (char *)(b + 1), RZ + rup(n) + RZ);
    p->blocks.push_back(off);
    return u;
}
static Block *blk(void *u) { return (Block *)((char *)u - RZ) - 1; }
static string blockDamage(Proc *p, Block *b) {
    char *z = (char *)(b + 1);
    if (!checkPat(p, z, RZ)) return "write before the start of a heap block";
    if (b->state == FREED) { if (!checkPat(p, z, RZ + rup(b->size) + RZ)) return "write to freed heap memory"; return ""; }
    // tail: bytes from size to end
    char *u = z + RZ;
    size_t tail = rup(b->size) + RZ;
    // the pattern is positional in 8-byte words, compare bytewise
    for (size_t i = b->size; i < tail; i++) {
        u64 w = pat(p, (u64)((u + (i & ~7ul)) - p->slot->arena));
        if (u[i] != ((char *)&w)[i & 7]) return "write past the end of a heap block of " + std::to_string(b->size) + " bytes";
    }
    return "";
}
static bool inHeap(Proc *p, void *u) {
    uintptr_t c = (uintptr_t)u, a = (uintptr_t)p->slot->arena, h = sizeof(Block) + RZ;
    return (c >= a + h && c < a + p->brk) || (c >= a + p->top + h && c < a + ARENA);
}
static void hfree(void *u) {
    Proc *p = cur;
    if (!u) return;
    if (!inHeap(p, u)) endWith(END_HEAP, "free of a pointer that is not from the heap");
    Block *b = blk(u);
    if (b->state == FREED) endWith(END_HEAP, "double free");
    if (b->state != LIVE) endWith(END_HEAP, "free of an invalid pointer");
    string d = blockDamage(p, b);
    if (!d.empty()) endWith(END_HEAP, d);
    b->state = FREED;
    fillPat(p, (char *)(b + 1), RZ + rup(b->size) + RZ);
}
static string heapCheck(Proc *p) {
    for (size_t off : p->blocks) {
        Block *b = (Block *)(p->slot->arena + off);
        if (b->state != LIVE && b->state != FREED) return "heap header overwritten";
        string d = blockDamage(p, b);
        if (!d.empty()) return d;
    }
    return "";
}

// ---------------------------------------------------------------- exit
static void doExit(int rc, bool flush) {
    Proc *p = cur;
    if (flush) {
        while (!p->atex.empty()) { auto f = p->atex.back(); p->atex.pop_back(); f(); }
        p->res.openfds = p->open;
        for (size_t i = p->streams.size(); i-- > 0;) {
            Stream *s = p->streams[i].get();
            if (s->alive && s->f && s->wr) fflush(s->f);
        }
    }
    p->res.end = END_EXIT;
    p->res.status = rc & 0xff;
    leave(p);
}

// ---------------------------------------------------------------- seams seen by the programs
extern "C" {
void sim_exit(int rc) { doExit(rc, true); }
void sim__exit(int rc) { doExit(rc, false); }
int sim_atexit(void (*f)()) { cur->atex.push_back(f); return 0; }
void sim_abort() { endWith(END_CRASH, "abort"); }
void sim_assert_fail(const char *e, const char *, unsigned, const char *) { endWith(END_CRASH, string("assertion failed: ") + e); }
void sim_stack_chk_fail() { endWith(END_CRASH, "stack smashed"); }
void *sim_malloc(size_t n) { return halloc(n); }
void *sim_calloc(size_t a, size_t b) { void *p = halloc(a * b); if (p) memset(p, 0, a * b); return p; }
void sim_free(void *u) { hfree(u); }
void *sim_realloc(void *u, size_t n) {
    if (!u) return halloc(n);
    if (!inHeap(cur, u) || blk(u)->state != LIVE) endWith(END_HEAP, "realloc of an invalid pointer");
    void *v = halloc(n);
    if (!v) return nullptr;
    memcpy(v, u, std::min((size_t)blk(u)->size, n));
    hfree(u);
    return v;
}
void *sim_reallocarray(void *u, size_t a, size_t b) { return sim_realloc(u, a * b); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)halloc(n); if (r) memcpy(r, s, n); return r; }
char *sim_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *r = (char *)halloc(n + 1); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
int sim_vasprintf(char **o, const char *f, va_list ap) {
    va_list b; va_copy(b, ap);
    int n = vsnprintf(nullptr, 0, f, b); va_end(b);
    *o = (char *)halloc(n + 1);
    if (!*o) return -1;
    return vsnprintf(*o, n + 1, f, ap);
}
int sim_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vasprintf(o, f, ap); va_end(ap); return r; }
// stable merge sort, tolerant of inconsistent comparison functions
void sim_qsort(void *base, size_t n, size_t w, int (*cmp)(const void *, const void *)) {
    if (n < 2) return;
    vector<char> tmp(n * w);
    char *a = (char *)base, *b = tmp.data();
    for (size_t run = 1; run < n; run *= 2) {
        for (size_t lo = 0; lo < n; lo += 2 * run) {
            size_t mid = std::min(lo + run, n), hi = std::min(lo + 2 * run, n), i = lo, j = mid, k = lo;
            while (i < mid && j < hi) { if (cmp(a + i * w, a + j * w) <= 0) memcpy(b + (k++) * w, a + (i++) * w, w); else memcpy(b + (k++) * w, a + (j++) * w, w); }
            while (i < mid) memcpy(b + (k++) * w, a + (i++) * w, w);
            while (j < hi) memcpy(b + (k++) * w, a + (j++) * w, w);
        }
        memcpy(a, b, n * w);
    }
}
static bool parseMode(const char *m, bool &rd, bool &wr, bool &creat, bool &trunc, bool &app, bool &excl) {
    rd = wr = creat = trunc = app = excl = false;
    bool plus = strchr(m, '+');
    excl = strchr(m, 'x');
    if (*m == 'r') { rd = true; wr = plus; }
    else if (*m == 'w') { wr = creat = trunc = true; rd = plus; }
    else if (*m == 'a') { wr = creat = app = true; rd = plus; }
    else return false;
    return true;
}
FILE *sim_fopen(const char *path, const char *mode) {
    bool rd, wr, cr, tr, ap, ex;
    if (!parseMode(mode, rd, wr, cr, tr, ap, ex)) { errno = EINVAL; return nullptr; }
    Stream *s = kopen(cur, norm(path), rd, wr, cr, tr, ap, ex);
    if (!s) return nullptr;
    return attach(s, mode);
}
int sim_fclose(FILE *f) {
    Stream *s = S(f, "fclose");
    s->alive = false;
    int e = errno;
    int r = fclose(s->f);
    if (!r) errno = e;
    s->f = nullptr;
    free(s->buf);
    s->buf = nullptr;
    return r;
}
FILE *sim_freopen(const char *path, const char *mode, FILE *f) {
    Stream *s = S(f, "freopen");
    if (!path) return f;
    bool rd, wr, cr, tr, ap, ex;
    if (!parseMode(mode, rd, wr, cr, tr, ap, ex)) { errno = EINVAL; return nullptr; }
    fclose(s->f);
    s->f = nullptr;
    Stream *t = kopen(cur, norm(path), rd, wr, cr, tr, ap, ex);
    if (!t) { s->alive = false; return nullptr; }
    s->path = t->path; s->ino = t->ino; s->rd = rd; s->wr = wr; s->app = ap; s->pos = 0; s->console = false; s->fd = t->fd;
    attach(s, mode);
    return f;
}
FILE *sim_fdopen(int fd, const char *mode) {
    auto i = cur->byFd.find(fd);
    if (i == cur->byFd.end()) { errno = EBADF; return nullptr; }
    return attach(i->second, mode);
}
int sim_fflush(FILE *f) {
    if (f) return fflush(S(f, "fflush")->f);
    int r = 0;
    for (auto &s : cur->streams) if (s->alive && s->f && s->wr) r |= fflush(s->f);
    return r;
}
size_t sim_fread(void *b, size_t a, size_t n, FILE *f) { return fread(b, a, n, S(f, "fread")->f); }
size_t sim_fwrite(const void *b, size_t a, size_t n, FILE *f) { return fwrite(b, a, n, S(f, "fwrite")->f); }
char *sim_fgets(char *b, int n, FILE *f) { return fgets(b, n, S(f, "fgets")->f); }
int sim_fgetc(FILE *f) { return fgetc(S(f, "fgetc")->f); }
int sim_getchar() { return sim_fgetc(sim_stdin); }
int sim_ungetc(int c, FILE *f) { return ungetc(c, S(f, "ungetc")->f); }
ssize_t sim_getdelim(char **l, size_t *n, int d, FILE *f) {
    Stream *s = S(f, "getdelim");
    size_t k = 0;
    for (;;) {
        int c = fgetc(s->f);
        if (c == EOF) break;
        if (!*l || k + 2 > *n) { size_t nn = (*n < 64 ? 64 : *n) * 2; char *x = (char *)sim_realloc(*l, nn); if (!x) return -1; *l = x; *n = nn; }
        (*l)[k++] = (char)c;
        if (c == d) break;
    }
    if (!k) return -1;
    (*l)[k] = 0;
    return (ssize_t)k;
}
ssize_t sim_getline(char **l, size_t *n, FILE *f) { return sim_getdelim(l, n, '\n', f); }
int sim_fputs(const char *s, FILE *f) { return fputs(s, S(f, "fputs")->f); }
int sim_fputc(int c, FILE *f) { return fputc(c, S(f, "fputc")->f); }
int sim_putchar(int c) { return fputc(c, S(sim_stdout, "putchar")->f); }
int sim_puts(const char *s) { FILE *o = S(sim_stdout, "puts")->f; if (fputs(s, o) < 0) return EOF; return fputc('\n', o); }
int sim_vfprintf(FILE *f, const char *fmt, va_list ap) { return vfprintf(S(f, "fprintf")->f, fmt, ap); }
int sim_vprintf(const char *fmt, va_list ap) { return vfprintf(S(sim_stdout, "printf")->f, fmt, ap); }
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vprintf(fmt, ap); va_end(ap); return r; }
int sim_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(f, fmt, ap); va_end(ap); return r; }
int sim_printf_chk(int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vprintf(fmt, ap); va_end(ap); return r; }
int sim_fprintf_chk(FILE *f, int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(f, fmt, ap); va_end(ap); return r; }
int sim_vprintf_chk(int, const char *fmt, va_list ap) { return sim_vprintf(fmt, ap); }
int sim_vfprintf_chk(FILE *f, int, const char *fmt, va_list ap) { return sim_vfprintf(f, fmt, ap); }
void sim_perror(const char *s) { int e = errno; FILE *o = S(sim_stderr, "perror")->f; if (s && *s) fprintf(o, "%s: ", s); fprintf(o, "%s\n", strerror(e)); }
int sim_fscanf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfscanf(S(f, "fscanf")->f, fmt, ap); va_end(ap); return r; }
int sim_fseek(FILE *f, long o, int w) { return fseek(S(f, "fseek")->f, o, w); }
long sim_ftell(FILE *f) { return ftell(S(f, "ftell")->f); }
void sim_rewind(FILE *f) { rewind(S(f, "rewind")->f); }
int sim_fgetpos(FILE *f, fpos_t *p) { return fgetpos(S(f, "fgetpos")->f, p); }
int sim_fsetpos(FILE *f, const fpos_t *p) { return fsetpos(S(f, "fsetpos")->f, p); }
int sim_ferror(FILE *f) { return ferror(S(f, "ferror")->f); }
int sim_feof(FILE *f) { return feof(S(f, "feof")->f); }
void sim_clearerr(FILE *f) { clearerr(S(f, "clearerr")->f); }
int sim_fileno(FILE *f) { Stream *s = S(f, "fileno"); if (s->console) return s == cur->sin ? 0 : s == cur->sout ? 1 : 2; cur->byFd[s->fd] = s; return s->fd; }
int sim_setvbuf(FILE *f, char *, int, size_t) { S(f, "setvbuf"); return 0; }
void sim_setbuf(FILE *f, char *) { S(f, "setbuf"); }
FILE *sim_tmpfile() { static const char m[] = "w+b"; string n = "/tmp/simtmp" + std::to_string(cur->nextFd); Stream *s = kopen(cur, n, true, true, true, true, false, false); if (!s) return nullptr; W->disk.files.erase(n); return attach(s, m); }
char *sim_tmpnam(char *b) { static char sb[64]; if (!b) b = sb; snprintf(b, 40, "/tmp/simtmp%d", cur->nextFd); return b; }
int sim_open(const char *path, int fl, ...) {
    bool wr = (fl & O_ACCMODE) != O_RDONLY, rd = (fl & O_ACCMODE) != O_WRONLY;
    Stream *s = kopen(cur, norm(path), rd, wr, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND, (fl & O_EXCL) && (fl & O_CREAT));
    if (!s) return -1;
    cur->byFd[s->fd] = s;
    return s->fd;
}
int sim_creat(const char *path, int) { return sim_open(path, O_WRONLY | O_CREAT | O_TRUNC, 0666); }
int sim_mkstemp(char *t) { size_t n = strlen(t); if (n < 6) { errno = EINVAL; return -1; } snprintf(t + n - 6, 7, "s%05d", cur->nextFd); return sim_open(t, O_RDWR | O_CREAT | O_EXCL, 0600); }
static Stream *fds(int fd) { auto i = cur->byFd.find(fd); if (i == cur->byFd.end() || !i->second->alive) { errno = EBADF; return nullptr; } return i->second; }
ssize_t sim_read(int fd, void *b, size_t n) { if (fd == 0) return 0; Stream *s = fds(fd); return s ? kread(s, (char *)b, n) : -1; }
ssize_t sim_write(int fd, const void *b, size_t n) {
    if (fd == 1 || fd == 2) { string &t = fd == 1 ? cur->res.out : cur->res.err; t.append((const char *)b, n); return n; }
    Stream *s = fds(fd);
    if (!s) return -1;
    size_t r = kwrite(s, (const char *)b, n);
    return r == 0 && n ? -1 : (ssize_t)r;
}
int sim_close(int fd) { Stream *s = fds(fd); if (!s) return -1; s->alive = false; return kclose(s); }
long sim_lseek(int fd, long o, int w) { Stream *s = fds(fd); if (!s) return -1; off64_t x = o; return ck_seek(s, &x, w) ? -1 : (long)x; }
int sim_ftruncate(int fd, long n) { Stream *s = fds(fd); if (!s) return -1; Act a = event(cur, OP_WRITE, s->path, n); if (a.eff >= 0) { errno = EIO; return -1; } s->ino->data.resize(n, '\0'); wrote(cur, s->path); return 0; }
int sim_truncate(const char *p, long n) { string k = norm(p); Act a = event(cur, OP_OTHER, k, n); if (a.eff >= 0) { errno = EIO; return -1; } auto i = W->disk.files.find(k); if (i == W->disk.files.end()) { errno = ENOENT; return -1; } i->second->data.resize(n, '\0'); wrote(cur, k); return 0; }
int sim_fsync(int fd) { Stream *s = fds(fd); if (!s) return 0; Act a = event(cur, OP_OTHER, s->path, 0); if (a.eff >= 0) { errno = EIO; return -1; } s->ino->durable = s->ino->data; return 0; }
int sim_unlink(const char *p) {
    string k = norm(p);
    Act a = event(cur, OP_UNLINK, k, 0);
    if (a.eff >= 0) { errno = errOf(a.arg, EACCES); return -1; }
    if (!W->disk.files.erase(k)) { errno = ENOENT; return -1; }
    cur->res.removed.push_back(k);
    return 0;
}
int sim_rename(const char *a, const char *b) {
    string x = norm(a), y = norm(b);
    Act c = event(cur, OP_OTHER, x, 1);
    if (c.eff >= 0) { errno = errOf(c.arg, EIO); return -1; }
    auto i = W->disk.files.find(x);
    if (i == W->disk.files.end()) { errno = ENOENT; return -1; }
    auto in = i->second;
    W->disk.files.erase(i);
    W->disk.files[y] = in;
    cur->res.removed.push_back(x);
    wrote(cur, y);
    return 0;
}
int sim_link(const char *, const char *b) { wrote(cur, norm(b)); errno = EPERM; return -1; }
int sim_chmod(const char *, unsigned) { return 0; }
int sim_fchmod(int, unsigned) { return 0; }
int sim_access(const char *p, int) { string k = norm(p); event(cur, OP_OTHER, k, 2); if (W->disk.files.count(k)) return 0; errno = ENOENT; return -1; }
static void fillStat(struct stat *st, const Inode &i) { memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = i.data.size(); st->st_nlink = 1; st->st_blksize = 4096; st->st_ino = 100; }
int sim_stat(const char *p, struct stat *st) { string k = norm(p); event(cur, OP_OTHER, k, 3); auto i = W->disk.files.find(k); if (i == W->disk.files.end()) { errno = ENOENT; return -1; } fillStat(st, *i->second); return 0; }
int sim_fstat(int fd, struct stat *st) { if (fd >= 0 && fd < 3) { memset(st, 0, sizeof *st); st->st_mode = S_IFCHR | 0600; return 0; } Stream *s = fds(fd); if (!s) return -1; event(cur, OP_OTHER, s->path, 4); fillStat(st, *s->ino); return 0; }
int sim_mkdir(const char *p, unsigned) { wrote(cur, norm(p)); return 0; }
int sim_rmdir(const char *p) { cur->res.removed.push_back(norm(p)); return 0; }
int sim_chdir(const char *) { errno = EACCES; return -1; }
char *sim_getcwd(char *b, size_t n) { if (!b) { n = 16; b = (char *)halloc(16); } if (b && n > 4) strcpy(b, "/sim"); return b; }
int sim_system(const char *c) { wrote(cur, string("<system:") + (c ? c : "") + ">"); return -1; }
FILE *sim_popen(const char *c, const char *) { wrote(cur, string("<popen:") + c + ">"); return nullptr; }
int sim_pclose(FILE *) { return -1; }
int sim_fork() { wrote(cur, "<fork>"); errno = EAGAIN; return -1; }
int sim_exec(const char *c, ...) { wrote(cur, string("<exec:") + c + ">"); errno = EACCES; return -1; }
char *sim_getenv(const char *n) {
    static char buf[256];
    if (!cur->spec.env.environ_) return nullptr;
    // any name may be set, to anything that programs take from their environment
    static const char *const val[] = {"", "1", "0", "lib", "inc", "sub/dir", "d1", "d2", "lib:inc:d1", "/", "C", "o", "-R", "out", "verbose", "100000"};
    u64 h = mix(hashstr(n), cur->spec.env.memseed);
    if (h % 5 == 0) return nullptr;
    if (h % 5 == 1) snprintf(buf, sizeof buf, "%llu", (unsigned long long)(h >> 20) % 1000);
    else snprintf(buf, sizeof buf, "%s", val[(h >> 20) % 16]);
    return buf;
}
time_t sim_time(time_t *t) { time_t v = (time_t)(1500000000 + (cur->spec.env.memseed % 1000000) + cur->clock / 1000000); if (t) *t = v; return v; }
clock_t sim_clock() { return (clock_t)(cur->clock + cur->spec.env.memseed % 1000); }
int sim_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = sim_time(nullptr); tv->tv_usec = cur->clock % 1000000; return 0; }
int sim_clock_gettime(int, struct timespec *ts) { ts->tv_sec = sim_time(nullptr); ts->tv_nsec = (cur->clock % 1000000) * 1000; return 0; }
int sim_getpid() { return 1000 + (int)(cur->spec.env.memseed % 30000) + cur->idx; }
int sim_rand() { return (int)(cur->mem.next() & 0x7fffffff); }
void sim_srand(unsigned) {}
unsigned sim_sleep(unsigned n) { cur->clock += n; return 0; }
void *sim_signal(int, void *) { return nullptr; }
int sim_sigaction(int, const void *, void *) { return 0; }
int sim_isatty(int) { return 0; }
int sim_kill(int, int) { return 0; }
// less usual entry points, for sources that are organised differently
int sim_vdprintf(int fd, const char *f, va_list ap) { va_list b; va_copy(b, ap); int n = vsnprintf(nullptr, 0, f, b); va_end(b); string t(n + 1, '\0'); vsnprintf(&t[0], n + 1, f, ap); return (int)sim_write(fd, t.data(), n); }
int sim_dprintf(int fd, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vdprintf(fd, f, ap); va_end(ap); return r; }
ssize_t sim_pread(int fd, void *b, size_t n, long o) { long k = sim_lseek(fd, 0, SEEK_CUR); if (k < 0 || sim_lseek(fd, o, SEEK_SET) < 0) return -1; ssize_t r = sim_read(fd, b, n); sim_lseek(fd, k, SEEK_SET); return r; }
ssize_t sim_pwrite(int fd, const void *b, size_t n, long o) { long k = sim_lseek(fd, 0, SEEK_CUR); if (k < 0 || sim_lseek(fd, o, SEEK_SET) < 0) return -1; ssize_t r = sim_write(fd, b, n); sim_lseek(fd, k, SEEK_SET); return r; }
ssize_t sim_readv(int fd, const struct iovec *v, int n) { ssize_t t = 0; for (int i = 0; i < n; i++) { ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t sim_writev(int fd, const struct iovec *v, int n) { ssize_t t = 0; for (int i = 0; i < n; i++) { ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
int sim_openat(int, const char *path, int fl, ...) { return sim_open(path, fl); }
int sim_unlinkat(int, const char *path, int) { return sim_unlink(path); }
int sim_zero() { return 0; }
int sim_posix_memalign(void **o, size_t, size_t n) { void *p = halloc(n); if (!p) return ENOMEM; *o = p; return 0; }
void *sim_aligned_alloc(size_t, size_t n) { return halloc(n); }
void sim_qsort_r(void *base, size_t n, size_t w, int (*cmp)(const void *, const void *, void *), void *arg) {
    static int (*c)(const void *, const void *, void *);
    static void *a;
    c = cmp; a = arg;
    sim_qsort(base, n, w, [](const void *x, const void *y) { return c(x, y, a); });
}
char *sim_strtok(char *s, const char *d) { return strtok_r(s, d, &cur->tok); }
char *sim_realpath(const char *p, char *o) {
    string k = norm(p);
    event(cur, OP_OTHER, k, 5);
    if (!W->disk.files.count(k)) { errno = ENOENT; return nullptr; }
    if (k[0] != '/') k = "/sim/" + k;
    if (!o) o = (char *)halloc(k.size() + 1);
    if (o) strcpy(o, k.c_str());
    return o;
}
static void complain(int e, const char *f, va_list ap) {
    FILE *o = S(sim_stderr, "err")->f;
    fputs("dasm: ", o);
    if (f) vfprintf(o, f, ap);
    if (e) fprintf(o, "%s%s", f ? ": " : "", strerror(e));
    fputc('\n', o);
}
void sim_vwarn(const char *f, va_list ap) { complain(errno, f, ap); }
void sim_vwarnx(const char *f, va_list ap) { complain(0, f, ap); }
void sim_warn(const char *f, ...) { int e = errno; va_list ap; va_start(ap, f); complain(e, f, ap); va_end(ap); }
void sim_warnx(const char *f, ...) { va_list ap; va_start(ap, f); complain(0, f, ap); va_end(ap); }
void sim_err(int rc, const char *f, ...) { int e = errno; va_list ap; va_start(ap, f); complain(e, f, ap); va_end(ap); doExit(rc, true); }
void sim_errx(int rc, const char *f, ...) { va_list ap; va_start(ap, f); complain(0, f, ap); va_end(ap); doExit(rc, true); }
void sim_verr(int rc, const char *f, va_list ap) { complain(errno, f, ap); doExit(rc, true); }
void sim_verrx(int rc, const char *f, va_list ap) { complain(0, f, ap); doExit(rc, true); }
void sim_error(int rc, int e, const char *f, ...) { va_list ap; va_start(ap, f); complain(e, f, ap); va_end(ap); if (rc) doExit(rc, true); }
// memory streams: the bytes are kept by the simulator and handed over on flush and close
struct Mem { Stream *s; char **o; size_t *n; string d; };
static ssize_t mem_write(void *c, const char *b, size_t n) {
    Mem *m = (Mem *)c;
    if (m->s->dead) return n;
    m->d.append(b, n);
    char *x = (char *)halloc(m->d.size() + 1);
    if (!x) return 0;
    memcpy(x, m->d.c_str(), m->d.size() + 1);
    if (*m->o) hfree(*m->o);
    *m->o = x; *m->n = m->d.size();
    return n;
}
FILE *sim_open_memstream(char **o, size_t *n) {
    char *e = (char *)halloc(1);
    if (!e) return nullptr;
    *e = 0; *o = e; *n = 0;
    std::unique_ptr<Stream> s(new Stream);
    s->p = cur; s->path = "<memory>"; s->wr = true;
    Mem *m = new Mem{s.get(), o, n, ""};
    cookie_io_functions_t io = {nullptr, mem_write, nullptr, [](void *c) { delete (Mem *)c; return 0; }};
    s->f = fopencookie(m, "w", io);
    Stream *r = s.get();
    cur->streams.push_back(std::move(s));
    cur->byHandle[(void *)r] = r;
    return (FILE *)r;
}
FILE *sim_fmemopen(void *b, size_t n, const char *mode) {
    std::unique_ptr<Stream> s(new Stream);
    s->p = cur; s->path = "<memory>"; s->wr = *mode != 'r' || strchr(mode, '+');
    s->f = fmemopen(b, n, mode);
    if (!s->f) return nullptr;
    Stream *r = s.get();
    cur->streams.push_back(std::move(s));
    cur->byHandle[(void *)r] = r;
    return (FILE *)r;
}
// a mapped file is a copy; only private or read-only maps are offered
void *sim_mmap(void *, size_t n, int prot, int fl, int fd, long o) {
    Stream *s = nullptr;
    if (!(fl & MAP_ANONYMOUS)) {
        if (!(s = fds(fd))) return MAP_FAILED;
        if ((fl & MAP_SHARED) && (prot & PROT_WRITE)) { errno = ENODEV; return MAP_FAILED; }
        Act a = event(cur, OP_READ, s->path, n);
        if (a.eff >= 0) { errno = EIO; return MAP_FAILED; }
    }
    size_t pg = (n + 4095) / 4096 * 4096;
    char *u = (char *)halloc(pg + 4096);
    if (!u) return MAP_FAILED;
    u = (char *)(((size_t)u + 4095) / 4096 * 4096);
    memset(u, 0, pg);
    if (s && (size_t)o < s->ino->data.size()) memcpy(u, s->ino->data.data() + o, std::min(n, s->ino->data.size() - o));
    return u;
}
ssize_t sim_getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((char *)b)[i] = (char)cur->mem.next(); return n; }
long sim_syscall(long n, ...) { wrote(cur, "<syscall:" + std::to_string(n) + ">"); errno = ENOSYS; return -1; }
int sim_vfscanf(FILE *f, const char *fmt, va_list ap) { return vfscanf(S(f, "fscanf")->f, fmt, ap); }
int sim_fcloseall() { for (size_t i = 0; i < cur->streams.size(); i++) { Stream *s = cur->streams[i].get(); if (s->alive && s->f && !s->console) sim_fclose((FILE *)s); } return 0; }
int sim_raise(int) { endWith(END_CRASH, "raise"); }
}

// ---------------------------------------------------------------- running
static void onSignal(int sig, siginfo_t *, void *) {
    if (!cur) { static const char m[] = "simulator: signal outside a simulated process\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(97); }
    Proc *p = cur;
    p->res.end = END_CRASH;
    p->res.detail = sig == SIGSEGV ? "segmentation fault" : sig == SIGFPE ? "arithmetic fault" : sig == SIGBUS ? "bus error" : sig == SIGILL ? "illegal instruction" : "abort signal";
    for (auto &s : p->streams) s->dead = true;
    leave(p);
}
static void installSignals() {
    static bool did = false;
    if (did) return;
    did = true;
    static char alt[1 << 16];
    stack_t ss{};
    ss.ss_sp = alt; ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = onSignal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_SIGINFO;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
}
static void entry() {
    Proc *p = cur;
    static char *noenv[] = {nullptr};
    int rc = p->lib->main((int)p->argv.size() - 1, p->argv.data(), noenv);
    doExit(rc, true);
}
static void prepSlot(Slot &s) {
    if (s.arena) return;
    // fixed addresses, so that even pointer values are the same in every process
    char *want = (char *)(0x100000000000ul + (size_t)(&s - slots) * (1ul << 32));
    s.arena = (char *)mmap(want, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    s.stack = (char *)mmap(want + (2ul << 30), STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(s.stack, 65536, PROT_NONE);
}

vector<RunResult> World::run(const vector<ProcSpec> &specs, u64 schedSeed) {
    installSignals();
    W = this;
    procs.clear();
    multi = specs.size() > 1;
    worldSeq = 0;
    diskfullUntil = -1;
    powered = true;
    scheduleTrace.clear();
    for (auto &f : faults) f.seen = f.fired = 0;
    int nd = 0, nf = 0;
    for (size_t i = 0; i < specs.size(); i++) {
        procs.emplace_back(new Proc);
        Proc *p = procs.back().get();
        p->idx = (int)i;
        p->spec = specs[i];
        p->lib = p->spec.ftohex ? &libF[nf++] : &libD[nd++];
        p->slot = &slots[i];
        prepSlot(*p->slot);
        for (auto &r : p->lib->regs) memcpy(r.p, r.copy.data(), r.n);
        const Env &e = p->spec.env;
        p->mem = Rng(e.memseed ^ 0x51ED);
        p->poisonKey = p->mem.next();
        if (e.memseed & 1) { p->nextJunk = 1; p->junkEvery = 1ull << (e.memseed >> 1 & 3) * 2; }
        p->chunk = Rng(e.memseed ^ 0xC4u);
        p->lat = Rng(mix(e.latseed ^ schedSeed, i + 1));
        p->clock = p->lat.below(1000);
        p->cap = e.stepcap ? e.stepcap : 400000000ull;
        p->brk = 4096 * p->mem.below(64);
        p->top = ARENA - 4096 * p->mem.below(64);
        p->cov.assign(0x100000 / 64, 0);
        p->args = p->spec.argv;
        p->args.insert(p->args.begin(), p->spec.ftohex ? "ftohex" : "dasm");
        for (auto &a : p->args) p->argbufs.emplace_back(a.c_str(), a.c_str() + a.size() + 1);
        for (auto &a : p->argbufs) p->argv.push_back(a.data());
        p->argv.push_back(nullptr);
        p->sin = console(p, "<stdin>", nullptr, "r");
        p->sout = console(p, "<stdout>", &p->res.out, "w");
        p->serr = console(p, "<stderr>", &p->res.err, "w");
        u64 *st = (u64 *)(p->slot->stack + STACK);
        u64 g = p->poisonKey | 1;
        for (int k = 1; k <= 12288; k++) { g ^= g << 13; g ^= g >> 7; g ^= g << 17; st[-k] = g; }
        getcontext(&p->ctx);
        p->ctx.uc_stack.ss_sp = p->slot->stack;
        p->ctx.uc_stack.ss_size = STACK;
        p->ctx.uc_link = nullptr;
        makecontext(&p->ctx, entry, 0);
    }
    size_t fpos = 0;
    for (;;) {
        Proc *next = nullptr;
        if (!powered) for (auto &p : procs) if (!p->done) { p->done = true; p->res.end = END_KILLED; for (auto &s : p->streams) s->dead = true; }
        if (useForced) {
            while (fpos < forcedSchedule.size() && !next) {
                unsigned k = forcedSchedule[fpos++];
                if (k < procs.size() && !procs[k]->done) next = procs[k].get();
            }
            if (!next) for (auto &p : procs) if (!p->done) { next = p.get(); break; }
        } else
            for (auto &p : procs) if (!p->done && (!next || p->clock < next->clock)) next = p.get();
        if (!next) break;
        if (multi && scheduleTrace.size() < 200000) scheduleTrace.push_back((unsigned char)next->idx);
        cur = next;
        setStd(next);
        next->started = true;
        volatile bool again = false;
        (void)again;
        swapcontext(&schedCtx, &next->ctx);
        cur = nullptr;
    }
    cur = nullptr;
    vector<RunResult> out;
    for (auto &u : procs) {
        Proc *p = u.get();
        cur = p;
        string d = p->res.end == END_CRASH || p->res.end == END_HEAP ? "" : heapCheck(p);
        cur = nullptr;
        if (!d.empty()) { p->res.end = END_HEAP; p->res.detail = d; }
        for (auto &s : p->streams) {
            s->dead = true;
            if (s->f && p->res.end == END_EXIT) { fclose(s->f); free(s->buf); s->f = nullptr; }
        }
        u64 c = 0;
        for (size_t k = 0; k < p->cov.size(); k++) if (p->cov[k]) c = mix(mix(c, k), p->cov[k]);
        p->res.cover = c;
        p->res.steps = p->steps;
        p->res.simtime = p->clock;
        u64 h = p->hash;
        h = mix(h, (u64)p->res.end); h = mix(h, (u64)p->res.status); h = mix(h, p->steps);
        h = mix(h, hashstr(p->res.out)); h = mix(h, hashstr(p->res.err));
        p->res.hash = h;
        g_totalRuns++; g_totalSteps += p->steps; if (p->steps > g_maxSteps) g_maxSteps = p->steps; g_totalEvents += p->res.events; g_totalSimtime += p->clock;
        g_coverSet.insert(c);
        out.push_back(std::move(p->res));
    }
    procs.clear();
    return out;
}

// further names of the same functions
#define ALIAS(n, t) __asm__(".globl sim_alias_" #n "\n.type sim_alias_" #n ", @function\n.set sim_alias_" #n ", sim_" #t "\n");
ALIAS(pread64, pread)
ALIAS(pwrite64, pwrite)
ALIAS(openat64, openat)
ALIAS(memalign, aligned_alloc)
ALIAS(mmap64, mmap)
ALIAS(munmap, zero)
ALIAS(msync, zero)
ALIAS(fcntl, zero)
ALIAS(fcntl64, zero)
ALIAS(flock, zero)
ALIAS(lockf, zero)
ALIAS(lockf64, zero)
ALIAS(flockfile, zero)
ALIAS(funlockfile, zero)
ALIAS(umask, zero)
ALIAS(posix_fadvise, zero)
ALIAS(posix_fadvise64, zero)
ALIAS(sync, zero)
ALIAS(utime, zero)
ALIAS(utimes, zero)
ALIAS(setlinebuf, setbuf)
ALIAS(setbuffer, setbuf)
ALIAS(fflush_unlocked, fflush)
ALIAS(clearerr_unlocked, clearerr)
ALIAS(fileno_unlocked, fileno)
ALIAS(getchar_unlocked, getchar)
ALIAS(nanosleep, zero)
ALIAS(mkostemp, mkstemp)
ALIAS(__isoc99_vfscanf, vfscanf)
ALIAS(__isoc23_vfscanf, vfscanf)
ALIAS(euidaccess, access)
ALIAS(eaccess, access)
ALIAS(fopen64, fopen)
ALIAS(freopen64, freopen)
ALIAS(fread_unlocked, fread)
ALIAS(fwrite_unlocked, fwrite)
ALIAS(fgets_unlocked, fgets)
ALIAS(getc, fgetc)
ALIAS(_IO_getc, fgetc)
ALIAS(getc_unlocked, fgetc)
ALIAS(fgetc_unlocked, fgetc)
ALIAS(fputs_unlocked, fputs)
ALIAS(putc, fputc)
ALIAS(_IO_putc, fputc)
ALIAS(putc_unlocked, fputc)
ALIAS(fputc_unlocked, fputc)
ALIAS(putchar_unlocked, putchar)
ALIAS(__isoc99_fscanf, fscanf)
ALIAS(__isoc23_fscanf, fscanf)
ALIAS(fseeko, fseek)
ALIAS(fseeko64, fseek)
ALIAS(ftello, ftell)
ALIAS(ftello64, ftell)
ALIAS(ferror_unlocked, ferror)
ALIAS(feof_unlocked, feof)
ALIAS(tmpfile64, tmpfile)
ALIAS(mkstemp64, mkstemp)
ALIAS(open64, open)
ALIAS(creat64, creat)
ALIAS(lseek64, lseek)
ALIAS(ftruncate64, ftruncate)
ALIAS(truncate64, truncate)
ALIAS(fdatasync, fsync)
ALIAS(remove, unlink)
ALIAS(symlink, link)
ALIAS(stat64, stat)
ALIAS(lstat, stat)
ALIAS(lstat64, stat)
ALIAS(fstat64, fstat)
ALIAS(vfork, fork)
ALIAS(execve, exec)
ALIAS(execvp, exec)
ALIAS(__strdup, strdup)
ALIAS(_Exit, _exit)
ALIAS(quick_exit, _exit)
ALIAS(secure_getenv, getenv)
ALIAS(random, rand)
ALIAS(srandom, srand)
ALIAS(usleep, sleep)
