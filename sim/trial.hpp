// Episodes: a generated program with its options, and a trial = what is run on it under which faults.
#pragma once
#include "prog.hpp"

struct Opts {
    int fmt = 1;
    string out = "out.bin";   // "" = default a.out
    string lst, sym;
    bool all = false;         // -L instead of -l
    bool R = false, P = false;
    int sort = -1, verbose = -1, err = -1, passes = 0;
    u64 order = 0;            // shuffles the options
    string extra;             // a further option, wrong on purpose
    string outName() const { return out.empty() ? "a.out" : out; }
};
struct PSpec {
    int tool = 0;             // 0 dasm, 1 ftohex
    Opts o;
    int hfmt = 1;
    string hin, hout;         // ftohex; hout "" = standard output
    Env env;
    int prog = 0;
};
struct Step {
    vector<PSpec> ps;
    vector<Fault> faults;
    u64 sched = 1, power = 1;
    vector<unsigned char> forced;
    bool useForced = false;
    bool keep = false;        // the minimiser may not drop it
};
struct Trial {
    vector<Step> steps;
    map<string, string> inputs;   // further input files
    map<string, string> junk;     // stale outputs, bystanders
    map<string, long> par;
};
string trial_str(const Trial &);
bool trial_parse(const vector<string> &lines, Trial &);

struct ErrInfo {
    int kind = -1;
    string name;
    int node = 0, locNode = 0;    // the erroneous node; the node whose line the message names
    long off = 0;                 // line offset within it
    bool tied = false, strict = false;   // tied to a line; an error with -S only
 int count = 1; };
struct Outcome {
    RunResult r;
    bool hasBin = false, hasLst = false, hasSym = false;
    string bin, lst, sym;
};
struct Ctx {
    string prop;
    u64 seed = 0;
    vector<Prog> progs;
    vector<Mask> masks;
    vector<ModelOut> mo;
    ModelOut base;                // the program without its error
    map<string, string> files;
    ErrInfo err;
    int shape = 0;                // C11: kind of source
    map<string, Outcome> cache;
    map<int, LineMap> lines;
    set<const void *> fine;            // undisturbed runs found to agree with the model
    void rebuild();               // after a change of the masks
};
struct Verdict {
    bool valid = true;            // false: nothing to judge
    string kind, msg;             // violation if kind is not empty
    u64 hash = 0, state = 0, sched = 0;
    int fired = 0;
    bool nontrivial = false;
    vector<string> probes;
};
bool make_ctx(const string &prop, u64 seed, Ctx &);
Trial make_trial(Ctx &, Rng &);
Verdict eval_trial(Ctx &, const Trial &);
const vector<string> &prop_ids();
vector<string> spec_argv(const Ctx &, const PSpec &);
const char *prop_rule(const string &prop);
