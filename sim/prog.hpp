// Seeded generator of assembler programs and a reference model of what they must produce.
// The model is written from the documented behaviour; it shares no code with the assembler.
#pragma once
#include "sim.hpp"

enum XK { X_NUM, X_SYM, X_LO, X_HI, X_DOT, X_DIFF, X_PARAM, X_STR, X_CMP, X_SUM, X_CHK, X_SPEC, X_DEC, X_CAT, X_VIA };
struct Expr {
    int k = X_NUM;
    long v = 0;
    string a, b;
    int radix = 10;
};
enum NK {
    N_PROC, N_ORG, N_RORG, N_REND, N_SEG, N_DC, N_HEX, N_DS, N_ALIGN, N_INS, N_LABEL, N_EQU, N_SET, N_IF, N_REP,
    N_MACDEF, N_CALL, N_INCLUDE, N_INCBIN, N_INCDIR, N_ECHO, N_SUBR, N_LIST, N_COMMENT, N_BLANK, N_END, N_RAW, N_ERR, N_GROUP,
    N_MEXIT, N_STRSET, N_EQM, N_DV
};
struct Node {
    int kind = N_BLANK, id = 0;
    string label, s;            // s: mnemonic / name / file / text
    vector<Expr> x;
    long n = 0;                 // size code, flags
    vector<Node> kids, alt;
    vector<vector<Node>> more;  // INCLUDE: further versions of the file
    bool tag = true;
    bool pinned = false;        // the minimiser keeps it
};
// modes: 0 none, 1 #imm8, 2 abs16, 3 rel to dot, 4 two-byte opcode, 5 imm8, 6 rel of the F8, 7 (abs16), 8 one or two bytes as the
// value needs (op2 is the long form), 9 (imm8),y, 10 #imm16, 11 zp,rel, 12 bit,zp, 13 bit,zp,rel, 14 zp,mask, 15 zp,mask,rel,
// 16 number in the low half of the opcode, 17 imm8,x
struct Ins { const char *name; int op; int mode; int op2 = 0; };
struct Cpu { const char *name; bool msb; vector<Ins> ins; bool f8 = false; };
extern const vector<Cpu> cpus;

struct GenCfg {
    int size = 20;              // rough number of statements
    bool macros = true, repeats = true, ifs = true, includes = true, incbins = true, segs = true, rorgs = true, orgs = true,
         echos = true, locals = true, fwd = true, equs = true, sets = true, listctl = true, ends = true, aligns = true, longlines = false,
         fwdLayout = false, chains = false, descending = false, bigbin = false, noseg = true, dollar = true, incdirs = true,
         fills = true, mlc = false, strsyms = true, bigecho = false,
         mexits = true, nested = true, checks = true, ifconsts = true, eqms = true, dyn = true, longdirs = false, filler = false, manySyms = false, bigImage = false, nestCalls = true, eols = false, cases = false, oddNames = false, openRorg = false, firstOnly = false, subdirs = false;
    int maxInc = 3;
    bool versions = false, defs = true, manyPasses = false;
    string prefix;
};
struct Prog {
    int cpu = 0;
    string mainName = "main.asm";
    vector<Node> body;
    map<string, vector<string>> bins;  // INCBIN files: name -> data of each version
    vector<string> incdirs;            // -I options
    vector<string> srcdirs;            // INCDIR directories in order
    map<string, vector<std::pair<string, int>>> where;  // name as written -> (path, version) of the stored copies
    vector<int> defKind;                   // 0 -Dx=v, 1 -Dx (0), 2 -Dx=$v, 3 -Mx=v
    map<string, Node> mdefs;               // what -M defines
    vector<std::pair<string, long>> defs;  // -D options; left out if the mask has -(index+1)
    map<string, string> extra;         // further files on the disk that the program does not find
    int nextId = 1;
    u64 style = 0;                     // how the lines of each file end; 0: all with a newline
};
Prog gen_prog(Rng &r, const GenCfg &c);
void add_decoys(Prog &p, Rng &r);      // after the files have been placed
GenCfg gen_cfg(Rng &r);                // swarm-style random configuration
typedef set<int> Mask;                 // node ids left out
map<string, string> render(const Prog &p, const Mask &m);
string render_version(const Prog &p, const Mask &m, const string &name, int ver);
int versions_of(const Prog &p, const string &name);
vector<string> input_names(const Prog &p, const Mask &m, bool includes, bool bins);
void all_ids(const Prog &p, const Mask &m, vector<int> &ids);  // removable nodes in pre-order
int count_nodes(const Prog &p, const Mask &m);
string node_file_line(const Prog &p, const Mask &m, int id, long &line);  // where a node was rendered

struct Chunk { long addr; string bytes; int fill; };
struct ListExp { int tag; bool chk; long addr; string bytes; bool prefix = false; int id = 0; bool mac = false; };   // id: whose line number is shown, 0: not known
typedef map<int, std::pair<long, long>> LineMap;   // node -> line in its file, line in the body of its macro
struct ModelOut {
    bool ok = false;
    string why;
    vector<Chunk> chunks;
    vector<std::pair<string, long>> syms;    // in order of first definition in the last pass
    map<string, string> strsyms;             // string-valued symbols
    vector<string> echos;
    vector<ListExp> list;
    int depth = 0;        // deepest include nesting incl. the main file
    int maxIn = 0;        // most input files open at once incl. INCBIN
    set<string> readFiles;
    set<string> tested;   // names looked at by IFCONST/IFNCONST
    vector<vector<int>> passTags;   // tagged listing lines of each pass of the model
    bool low = false;     // the origin was set below bytes already put out
    bool strict = true;   // -S accepts it as well
    bool steady = true;   // no condition or repeat count depended on something not known yet
    string bin(int fmt) const;
    bool sameBin(const string &d, int fmt) const;
    long imageBytes() const;
};
// ver: which version of an input file is read (0 if not mentioned)
ModelOut model(const Prog &p, const Mask &m, const map<string, int> &ver = {});

// parsers for the outputs
struct ListLine { int tag = 0; long no = -1; long addr = -1; string bytes; bool more = false, falsy = false; string text; };
vector<ListLine> parse_listing(const string &txt);
// compare a listing (of one pass) with the model; empty = agrees
string check_listing(const string &txt, const ModelOut &m, const LineMap &lines);
LineMap node_lines(const Prog &p, const Mask &m);
// compare the source text shown with the lines of the source files
string check_list_text(const string &txt, const map<string, string> &files);
bool parse_symfile(const string &txt, vector<std::pair<string, long>> &out, string &why);
string check_symfile(const string &txt, const ModelOut &m, int sortMode);
typedef map<long, unsigned char> Image;
bool parse_bin(const string &d, int fmt, long rawOrg, Image &img, string &why);
bool parse_hex(const string &d, Image &img, string &why);
string hexof(int fmt, const string &bin, bool &ok);   // the Intel HEX text for a binary; ok=false if malformed
string xlist(const vector<Expr> &v);
