// Deterministic simulator for libcypher-parser: common declarations.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <memory>
#include <algorithm>
extern "C" {
#include "cypher-parser.h"
}
using std::string; using std::vector; using std::map; using std::set;
typedef vector<string> Args;

// ---------------------------------------------------------------- randomness
// The only PRNG. It is used by explorers when they *write* a plan, never while a
// plan executes: executing a plan is a pure function of the plan and the code.
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
    bool p(double x) { return (next() >> 11) * (1.0 / 9007199254740992.0) < x; }
    template <class T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
    const char *oneof(std::initializer_list<const char *> l) { return *(l.begin() + below(l.size())); }
};
uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t fnv(const string &s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }
string hex(const string &);
string unhex(const string &);
string undoc(const string &);                  // a document line of a plan
vector<string> doclines(const string &);
string esc(const string &, size_t max = 200);   // printable, for messages
string sfmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
vector<string> split(const string &, char sep = ' ');

// ---------------------------------------------------------------------- plan
// A plan is a list of lines "name arg arg..."; it holds the complete schedule,
// workload and fault sequence of one run, and is the replay file.
struct Plan {
    vector<string> lines;
    void add(const string &l) { lines.push_back(l); }
    void addf(const char *f, ...) __attribute__((format(printf, 2, 3)));
    bool has(const string &name) const;
    Args get(const string &name) const;            // arguments of the first such line
    vector<Args> all(const string &name) const;
    long num(const string &name, long dflt, int idx = 0) const;
    string str(const string &name, const string &dflt = "") const;
    string doc(const string &name = "doc") const;  // all doc lines, concatenated
    void setdoc(const string &bytes, const string &name = "doc"); // splits into pieces of <= 64 bytes
    string text() const;
    static Plan parse(const string &);
    Plan sub(const string &task) const;            // lines "task <t> ..." with the prefix removed
};

// ------------------------------------------------------------------- results
struct Violation { bool set = false; string cls, detail; };
extern Violation g_viol;
void fail(const string &cls, const char *f, ...) __attribute__((format(printf, 2, 3)));
inline bool failed() { return g_viol.set; }
void fatal(const char *cls, const string &detail) __attribute__((noreturn));
void ev(const char *f, ...) __attribute__((format(printf, 1, 2)));   // event log (hashed, optionally printed)
void evh(const string &what, const string &payload);                 // long payload: logged by hash
extern uint64_t g_evhash;
extern bool g_verbose;
void probe(const char *name, uint64_t n = 1);                        // "this condition was reached"
void nontrivial(uint64_t key);                                       // marks the current run as non-trivial

struct Stats {
    uint64_t runs = 0, cases = 0, steps = 0, bytes = 0, ev = 0;
    map<string, uint64_t> probes, faults, kinds;
    set<uint64_t> nontriv, faultsites, outcomes;
    vector<string> samples;
};
extern Stats g_stats;
void fault_fired(const char *kind);

// ----------------------------------------------------------------- simulation
// Harness mode: code run by the harness on behalf of the oracle (snapshots):
// no faults, no preemption, not counted.
extern thread_local int t_harness;
extern thread_local bool t_live;       // what is normally harness work is under test (readers of shared trees)
struct Harness { int k; Harness() : k(!t_live) { t_harness += k; } ~Harness() { t_harness -= k; } };

struct AllocFaults {
    set<uint64_t> at;            // exact indices (of the task's allocation calls in the window)
    int64_t from = -1;           // everything from this index on
    int64_t from_to = -1;        // ... up to this one (exclusive), -1 = for ever
    int64_t bigger = -1;         // every request of more than this many bytes
    bool any() const { return !at.empty() || from >= 0 || bigger >= 0; }
};
struct TaskMem {                 // per simulated task
    bool armed = false; uint64_t n = 0, fired = 0; AllocFaults f;
};
extern thread_local TaskMem *t_mem;
extern TaskMem g_mainmem;
size_t live_blocks();
size_t live_bytes();
string oldest_block_since(uint64_t mark);   // description for leak reports
uint64_t alloc_mark();
// Window in which the code under test runs: arms faults, counts allocations.
struct Window {
    TaskMem *m; TaskMem saved; uint64_t steps0, limit0;
    explicit Window(const AllocFaults *f = nullptr, uint64_t steplimit = 0);
    ~Window();
    uint64_t n() const { return m->n; }
    uint64_t fired() const { return m->fired; }
};
extern uint64_t g_steps, g_steplimit;
extern vector<uint64_t> *g_allocsites;
extern "C" void sim_preempt(void);
void *real_alloc(size_t);

// -------------------------------------------------------------------- streams
struct Delivery {                // how the simulated input device hands out bytes
    vector<int> chunks;          // sizes of successive reads, cyclic; empty = as much as asked
    char bufmode = 'n'; int bufsize = 0;    // n: unbuffered, f: fully buffered, l: line buffered
    long err_at = -1; int err_no = 0; bool err_sticky = true;
    long eof_at = -1;            // producer dies here
    string text() const;
};
struct SimIn {
    string data; Delivery d; size_t pos = 0, nreads = 0; size_t ci = 0; bool erred = false; int errs = 0;
    bool saw_eof = false;
    std::function<void(size_t)> on_request;    // called before byte `pos` is supplied
    FILE *f = nullptr; vector<char> buf;
    SimIn(const string &data, const Delivery &d);
    ~SimIn();
    SimIn(const SimIn &) = delete;
};
struct SimOut {
    string data; char bufmode = 'n'; int bufsize = 0;
    long err_at = -1; int err_no = 0; bool err_sticky = true; int max_write = 0; bool erred = false; int errs = 0;
    FILE *f = nullptr; vector<char> buf;
    SimOut(char bufmode = 'n', int bufsize = 0);
    ~SimOut();
    SimOut(const SimOut &) = delete;
};
Delivery delivery_of(const Plan &);
void delivery_to(Plan &, const Delivery &);
AllocFaults faults_of(const Plan &);
Delivery random_delivery(Rng &, size_t len);

// --------------------------------------------------------------- observation
struct ErrObs { cypher_input_position pos; string msg, ctx; size_t ctxoff; };
struct NodeObs { int depth; unsigned ordinal; string type; cypher_input_range range; bool comment; int parent; };
struct SegObs {
    cypher_input_range range; bool eof; unsigned nnodes; int nroots; int directive;   // directive: preorder index, -1 none, -2 not in trees
    vector<ErrObs> errs; string tree; string print; vector<NodeObs> nodes;
    string text(bool with_ctx) const;
};
struct ParseObs {
    int rc = 0, err = 0; bool null_result = false; bool lastset = false; cypher_input_position last{};
    vector<SegObs> segs;
    uint64_t nalloc = 0, fired = 0;
    string text(bool with_ctx, bool with_end = true) const;
};
SegObs snap_segment(const cypher_parse_segment_t *);
string dump_tree(const cypher_astnode_t *root, vector<const cypher_astnode_t *> *order = nullptr, int base = 0);
string dump_node1(const cypher_astnode_t *);    // one node: attributes, and children by index only
string dump_node_as(const cypher_astnode_t *, cypher_input_range, unsigned nch, const std::function<string(const cypher_astnode_t *)> &ref);
string attributes(const cypher_astnode_t *, vector<vector<const cypher_astnode_t *>> &lists);
bool string_value(const cypher_astnode_t *, string &);   // of a node that has one
void preorder(const cypher_astnode_t *root, vector<const cypher_astnode_t *> &out);
const char *type_name(const cypher_astnode_t *);
string posstr(cypher_input_position p);
string rngstr(cypher_input_range r);
inline bool poseq(cypher_input_position a, cypher_input_position b) {
    return a.line == b.line && a.column == b.column && a.offset == b.offset; }
string diff2(const string &a, const string &b); // first difference, for messages

struct Cfg { unsigned line = 1, col = 1; size_t off = 0; unsigned ord = 0; int color = 0; bool null = true; }; // color: 0 none, 1 ANSI, 2 marked
const cypher_parser_colorization *mark_error_colors();
Cfg cfg_of(const Plan &);
void cfg_to(Plan &, const Cfg &);
cypher_parser_config_t *make_config(const Cfg &);   // in harness mode; nullptr for "no config"
Cfg random_cfg(Rng &);

struct ParseSpec {
    string doc; bool stream = false; Delivery d; unsigned flags = 0; Cfg cfg; AllocFaults af;
    vector<int> cb;                        // callback returns by segment; beyond: 0
    std::function<void(int, cypher_parse_segment_t *)> on_segment;   // called inside the callback, before the snapshot
    std::function<int(int, cypher_parse_segment_t *)> on_return;     // overrides cb if set
    std::function<void(size_t, const ParseObs &)> on_request;
    SimIn *in = nullptr;                   // reuse an open stream
    bool want_snap = true; bool want_last = true;
    cypher_parser_config_t *config = nullptr; // use this one instead of cfg
};
ParseObs run_parse(const ParseSpec &);     // cypher_[fu]parse_each
cypher_parse_result_t *run_parse_result(const ParseSpec &, ParseObs &);   // cypher_[fu]parse; result owned by the caller
struct ResultObs { int nroots, ndirs, nerrs; unsigned nnodes; bool eof; string trees, print; vector<int> dirs; vector<ErrObs> errs; };
ResultObs snap_result(const cypher_parse_result_t *);
struct QSeg { bool stmt, cmd, eof; string text; cypher_input_range range; cypher_input_position next; string str() const; };
struct QuickObs { int rc = 0, err = 0; vector<QSeg> segs; uint64_t nalloc = 0, fired = 0; string text() const; };
struct QuickSpec {
    string doc; bool stream = false; Delivery d; unsigned flags = 0; AllocFaults af; vector<int> cb;
    std::function<void(size_t, const QuickObs &)> on_request; SimIn *in = nullptr;
    std::function<void(int)> on_segment;
};
QuickObs run_quick(const QuickSpec &);
ParseObs ref_parse(const string &doc, unsigned flags, const Cfg &, bool stream = false); // fault-free, memoised
QuickObs ref_quick(const string &doc, unsigned flags);
void check_invariants(const ParseObs &, const string &doc, const Cfg &, bool complete, const char *what);
uint64_t parse_budget(size_t doclen);

// leak accounting around a run
struct LeakCheck { size_t b0; uint64_t mark; LeakCheck() : b0(live_blocks()), mark(alloc_mark()) {}
    bool check(const char *what); };

// ------------------------------------------------------------------ generator
struct GenOpts { int max_stmts = 4; double damage = 0.25; double commands = 0.2; double comments = 0.3; double bytes = 0.05;
    int depth = 2; int big = 0; double odd = 0, decorated = 0; bool final_nl = true; bool only_statements = false; };
string gen_doc(Rng &, const GenOpts &);
string gen_giant(Rng &, const GenOpts &, size_t max, bool clean = false);
string oddify(Rng &, string);
string decorate(Rng &, const string &, double);
string gen_statement(Rng &, int depth);
string gen_expr(Rng &, int depth);
GenOpts random_opts(Rng &);
vector<string> all_kinds_docs();          // statements that between them contain every node kind
// one statement or command with its terminator
string gen_segment(Rng &, const GenOpts &, bool last);

// ----------------------------------------------------------------- properties
struct Ctx {                    // one case of an explorer
    Rng rng; string tier; bool thorough; long index;
    bool run(const Plan &);     // executes a plan; false when exploration must stop (violation)
    Ctx(uint64_t seed) : rng(seed) {}
};
typedef void (*ExecFn)(const Plan &);
typedef void (*ExploreFn)(Ctx &);
struct Prop { const char *id; ExploreFn explore; ExecFn exec; const char *variant; };
const Prop *find_prop(const string &);
bool execute(const string &prop, const Plan &);      // resets the violation, runs, returns !failed
