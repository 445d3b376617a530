// Simulated world: disk, processes, heap, scheduler, fault plan.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
using std::map;
using std::set;
using std::string;
using std::vector;
typedef uint64_t u64;

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + (long)below((u64)(b - a + 1)); }
    bool chance(int pct) { return (int)below(100) < pct; }
    template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
};

static inline u64 mix(u64 h, u64 v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdull;
}
static inline u64 hashstr(const string &s, u64 h = 1469598103934665603ull) {
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

// ---------------------------------------------------------------- faults
enum Op { OP_OPENR, OP_OPENW, OP_READ, OP_WRITE, OP_SEEK, OP_CLOSE, OP_UNLINK, OP_OTHER, OP_NKINDS, OP_ANY, OP_ALLOC };
enum Eff {
    E_FAIL,      // the operation fails with errno arg
    E_PARTIAL,   // write: arg bytes reach the disk, then the error
    E_LOSECLOSE, // close fails and the bytes of the last write are lost
    E_KILL,      // process killed before the operation (write: after arg bytes)
    E_POWER,     // the same, and the disk loses what was not synced
    E_EDIT,      // before the operation, file `path` becomes version arg (epoch/seq keyed)
    E_OUTAGE,    // opens of `path` fail while epoch in [nth, nth+count)
    E_DISKFULL,  // only arg further bytes fit on the disk until `count` ops passed (0: for ever)
};
struct Fault {
    int proc = 0;
    int op = OP_ANY;
    string path;      // "" = any
    u64 nth = 1;      // first matching occurrence that is hit
    u64 count = 1;    // how many in a row; 0 = for ever
    int eff = E_FAIL;
    long arg = 0;
    u64 fired = 0;    // filled in by the run
    u64 seen = 0;
};
const char *op_name(int);
const char *eff_name(int);
string fault_str(const Fault &);
bool fault_parse(const string &, Fault &);

// ---------------------------------------------------------------- disk
struct Inode {
    string data, durable;
};
typedef std::shared_ptr<Inode> InodeP;
struct Disk {
    map<string, InodeP> files;
    void put(const string &p, const string &d) {
        auto i = std::make_shared<Inode>();
        i->data = i->durable = d;
        files[p] = i;
    }
    bool has(const string &p) const { return files.count(p) != 0; }
    string get(const string &p) const { auto i = files.find(p); return i == files.end() ? string() : i->second->data; }
    Disk clone() const {
        Disk d;
        for (auto &f : files) { auto n = std::make_shared<Inode>(*f.second); d.files[f.first] = n; }
        return d;
    }
};

// ---------------------------------------------------------------- environment of one process
struct Env {
    u64 memseed = 0;     // garbage, layout, sort ties
    int rbuf = 4096;     // stdio buffer for reading streams; 0 = vary per stream
    int wbuf = 4096;
    int rchunk = 0;      // largest read the disk answers; 0 = unlimited; -1 = vary per read
    int wchunk = 0;      // largest write the disk accepts at once
    int fdlimit = 0;     // 0 = 1000, as many systems have it
    u64 stepcap = 0;     // 0 = default
    bool environ_ = false; // a populated environment
    u64 latseed = 0;
};
string env_str(const Env &);
bool env_parse(const string &, Env &);

enum End { END_EXIT, END_KILLED, END_CRASH, END_HEAP, END_BADSTREAM, END_HANG, END_NONE };
const char *end_name(int);

struct Event { int proc; int op; string path; long n; long res; u64 epoch; };

struct RunResult {
    int end = END_NONE;
    int status = -1;
    string detail;              // why it crashed
    string out, err;            // console
    string writeTouched;        // unused
    u64 steps = 0, events = 0, allocs = 0;
    int peakfds = 0, openfds = 0;
    u64 hash = 0;               // of everything observable, event by event
    u64 cover = 0;              // hash of the set of basic blocks executed
    u64 simtime = 0;
    map<string, u64> prof;      // "op path" -> count
    vector<string> written, removed;   // paths touched
    map<string, string> lastOpened;    // path -> contents at last successful open for reading
    map<string, u64> lastOpenEpoch;
    vector<Event> log;
    bool ok() const { return end == END_EXIT && status == 0; }
    bool abnormal() const { return end == END_CRASH || end == END_HEAP || end == END_BADSTREAM || end == END_HANG; }
    string brief() const;
};

struct ProcSpec {
    bool ftohex = false;
    vector<string> argv;        // without argv[0]
    Env env;
    string epochFile;           // opening this file for reading starts a new epoch
};

struct World {
    Disk disk;
    vector<Fault> faults;
    map<string, vector<string>> versions;  // for E_EDIT
    bool keepLog = false;
    long diskLeft = -1;         // bytes that still fit; -1 unlimited
    u64 powerSeed = 1;
    bool powered = true;
    // run processes to completion; schedSeed decides interleaving when there are several
    vector<RunResult> run(const vector<ProcSpec> &, u64 schedSeed);
    RunResult run1(const ProcSpec &p) { return run({p}, 1)[0]; }
    vector<unsigned char> scheduleTrace;     // who ran at each switch
    vector<unsigned char> forcedSchedule;    // replay/minimise: overrides the seed where present
    bool useForced = false;
};

bool sim_load(const string &dasmSo, const string &ftohexSo, int copies, string &err);
extern u64 g_totalRuns, g_totalSteps, g_totalEvents, g_totalSimtime, g_maxSteps;
extern map<string, u64> g_faultFired;   // kind -> times
extern set<u64> g_coverSet;
