// C10: tasks on real threads of which exactly one is ever runnable. Where the threads are switched is decided by the plan:
//   sw p <n> <task>   at the n-th preemption point (control-flow edge, memory access, allocator or stream call) of the run
//   sw g <n> <task>   at the n-th access to the library's (or libc's) writable global data
//   sw s <n> <task>   at the n-th access to an object shared by the tasks
//   rr <q>            round robin, every q preemption points
// Tasks: `task <i> kind parse|quick|result|tree|shared` and, with the prefix, the lines of a parse plan.
#include "sim.h"
#include <pthread.h>
#include <semaphore.h>
#include <link.h>
#include <stdarg.h>
#include <string.h>
#include <strings.h>
extern bool g_conc; unsigned flags_of(const Plan &); void flags_to(Plan &, unsigned);
typedef const cypher_astnode_t *N;
// ------------------------------------------------------------- what is global
struct Range { uintptr_t a, b; };
static vector<Range> g_globals; static Range g_lib{0, 0}; static vector<char> g_pristine;
static void cut(vector<Range> &v, Range r) { vector<Range> o; for (auto &x : v) { if (r.b <= x.a || r.a >= x.b) { o.push_back(x); continue; } if (x.a < r.a) o.push_back({x.a, r.a}); if (x.b > r.b) o.push_back({r.b, x.b}); } v = o; }
static int on_object(struct dl_phdr_info *i, size_t, void *) {
    string name = i->dlpi_name ? i->dlpi_name : ""; bool lib = name.find("libcp.so") != string::npos, libc = name.find("libc.so") != string::npos; if (!lib && !libc) return 0;
    vector<Range> v; for (int k = 0; k < i->dlpi_phnum; ++k) { auto &h = i->dlpi_phdr[k]; if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) v.push_back({i->dlpi_addr + h.p_vaddr, i->dlpi_addr + h.p_vaddr + h.p_memsz}); }
    for (int k = 0; k < i->dlpi_phnum; ++k) { auto &h = i->dlpi_phdr[k]; if (h.p_type == PT_GNU_RELRO) cut(v, {i->dlpi_addr + h.p_vaddr, (i->dlpi_addr + h.p_vaddr + h.p_memsz + 4095) & ~4095ul}); }
    for (auto &r : v) { g_globals.push_back(r); if (lib) g_lib = {r.a, r.b}; } return 0; }
static void find_globals() { if (g_lib.b) return; dl_iterate_phdr(on_object, nullptr); if (!g_lib.b) { fprintf(stderr, "the library is not a separate object\n"); exit(3); } }
__attribute__((no_sanitize("address"))) static void raw_copy(char *d, const char *s, size_t n) { for (size_t i = 0; i < n; ++i) ((volatile char *)d)[i] = s[i]; }
static void fresh_process() {     // the library's global state is that of a newly started process
    find_globals(); size_t n = g_lib.b - g_lib.a; if (g_pristine.empty()) { g_pristine.resize(n); raw_copy(g_pristine.data(), (char *)g_lib.a, n); } else raw_copy((char *)g_lib.a, g_pristine.data(), n); }

// ------------------------------------------------------------------ scheduler
struct Task { int id; Plan plan; sem_t sem; bool done = false; TaskMem mem; string out; pthread_t th; bool nest; };
static vector<Task *> *g_tasks; static thread_local Task *t_task; static int g_curtask; static sem_t g_mainsem;
struct Trig { uint64_t n; int to; };
static vector<Trig> g_trig[3]; static size_t g_ti[3]; static uint64_t g_n[3], g_rr, g_switches; static vector<Range> g_shared; static uint64_t g_order;
static int next_task(int want) { int n = (int)g_tasks->size(); want = ((want % n) + n) % n; for (int k = 0; k < n; ++k) { int t = (want + k) % n; if (!(*g_tasks)[t]->done) return t; } return -1; }
static void switch_to(int want) { Task *me = t_task; int t = next_task(want); if (t < 0 || t == me->id) return;
    ++g_switches; g_order = fnv(&g_n[0], sizeof g_n[0], g_order); g_order = fnv(&t, sizeof t, g_order); { ++t_harness; fault_fired("schedule:switch"); --t_harness; }
    g_curtask = t; sem_post(&(*g_tasks)[t]->sem); while (sem_wait(&me->sem)) { } }
static inline void point(int k) { uint64_t n = g_n[k]++; if (g_ti[k] < g_trig[k].size() && n >= g_trig[k][g_ti[k]].n) { int to = g_trig[k][g_ti[k]++].to; switch_to(to); } else if (k == 0 && g_rr && n % g_rr == g_rr - 1) switch_to(t_task->id + 1); }
extern "C" void sim_preempt_point(int) { if (!g_conc || t_harness || !t_task) return; point(0); }
static inline void touch(const void *p) { if (!g_conc || t_harness || !t_task) return; uintptr_t a = (uintptr_t)p;
    for (auto &r : g_globals) if (a >= r.a && a < r.b) { point(1); break; }
    if (!g_shared.empty() && a >= g_shared.front().a && a < g_shared.back().b) { auto it = std::upper_bound(g_shared.begin(), g_shared.end(), a, [](uintptr_t x, const Range &r) { return x < r.b; }); if (it != g_shared.end() && a >= it->a) point(2); }
    point(0); }
extern "C" {
#define ACC(n) void __sanitizer_cov_load##n(void *p) { touch(p); } void __sanitizer_cov_store##n(void *p) { touch(p); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void *__asan_memcpy(void *, const void *, size_t); void *__asan_memmove(void *, const void *, size_t); void *__asan_memset(void *, int, size_t);
#define T2(d, s) touch(d); touch(s)
void *sim___asan_memcpy(void *d, const void *s, size_t n) { T2(d, s); return __asan_memcpy(d, s, n); }
void *sim___asan_memmove(void *d, const void *s, size_t n) { T2(d, s); return __asan_memmove(d, s, n); }
void *sim___asan_memset(void *d, int c, size_t n) { touch(d); return __asan_memset(d, c, n); }
void *sim_memcpy(void *d, const void *s, size_t n) { T2(d, s); return memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { T2(d, s); return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { touch(d); return memset(d, c, n); }
int sim_memcmp(const void *d, const void *s, size_t n) { T2(d, s); return memcmp(d, s, n); }
void *sim_memchr(const void *d, int c, size_t n) { touch(d); return (void *)memchr(d, c, n); }
size_t sim_strlen(const char *s) { touch(s); return strlen(s); }
size_t sim_strnlen(const char *s, size_t n) { touch(s); return strnlen(s, n); }
char *sim_strcpy(char *d, const char *s) { T2(d, s); return strcpy(d, s); }
char *sim_strncpy(char *d, const char *s, size_t n) { T2(d, s); return strncpy(d, s, n); }
char *sim_strcat(char *d, const char *s) { T2(d, s); return strcat(d, s); }
char *sim_strncat(char *d, const char *s, size_t n) { T2(d, s); return strncat(d, s, n); }
int sim_strcmp(const char *d, const char *s) { T2(d, s); return strcmp(d, s); }
int sim_strncmp(const char *d, const char *s, size_t n) { T2(d, s); return strncmp(d, s, n); }
int sim_strcasecmp(const char *d, const char *s) { T2(d, s); return strcasecmp(d, s); }
int sim_strncasecmp(const char *d, const char *s, size_t n) { T2(d, s); return strncasecmp(d, s, n); }
char *sim_strchr(const char *d, int c) { touch(d); return (char *)strchr(d, c); }
char *sim_strrchr(const char *d, int c) { touch(d); return (char *)strrchr(d, c); }
char *sim_strstr(const char *d, const char *s) { T2(d, s); return (char *)strstr(d, s); }
int sim_vsnprintf(char *b, size_t n, const char *f, va_list ap) { touch(b); int r = vsnprintf(b, n, f, ap); touch(b); return r; }
int sim_snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sim_sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); touch(b); int r = vsprintf(b, f, ap); va_end(ap); touch(b); return r; }
int sim_fputs(const char *s, FILE *f) { touch(s); return fputs(s, f); }
int sim_fputc(int c, FILE *f) { sim_preempt_point(0); return fputc(c, f); }
size_t sim_fwrite(const void *p, size_t a, size_t b, FILE *f) { touch(p); return fwrite(p, a, b, f); }
long sim_strtol(const char *s, char **e, int b) { touch(s); return strtol(s, e, b); }
unsigned long sim_strtoul(const char *s, char **e, int b) { touch(s); return strtoul(s, e, b); }
double sim_strtod(const char *s, char **e) { touch(s); return strtod(s, e); }
int sim_pthread_mutex_lock(pthread_mutex_t *m) { for (;;) { int r = pthread_mutex_trylock(m); if (r != EBUSY || !g_conc || !t_task) return r == EBUSY ? pthread_mutex_lock(m) : r; switch_to(t_task->id + 1); } }
int sim_pthread_once(pthread_once_t *o, void (*f)(void)) { ++t_harness; int r = pthread_once(o, f); --t_harness; return r; }
}

// ---------------------------------------------------------------------- tasks
static struct { cypher_parse_result_t *res = nullptr; cypher_parser_config_t *cfg = nullptr; } g_sh;
static ParseSpec tspec(const Plan &p) { ParseSpec s; s.doc = p.doc(); s.flags = flags_of(p); s.cfg = cfg_of(p); s.stream = p.has("stream"); s.d = delivery_of(p); s.af = faults_of(p); if (p.has("sharedcfg")) s.config = g_sh.cfg; return s; }
static string restext(const ResultObs &r) { string t = sfmt("result roots=%d dirs=%d errs=%d nodes=%u eof=%d\n", r.nroots, r.ndirs, r.nerrs, r.nnodes, r.eof); for (auto &e : r.errs) t += posstr(e.pos) + " " + e.msg + " [" + e.ctx + "]\n"; return t + r.trees + r.print; }
struct Live { bool s; Live() : s(t_live) { t_live = true; } ~Live() { t_live = s; } };
static string render(N n, cypher_parse_result_t *r, unsigned width, bool color, const AllocFaults &af, uint64_t budget) {
    SimOut *out; { Harness h; out = new SimOut('f', 64); } int rc, e; { Window w(&af, budget); errno = 0; auto *col = color ? cypher_parser_ansi_colorization : nullptr; rc = n ? cypher_ast_fprint(n, out->f, width, col, 0) : cypher_parse_result_fprint_ast(r, out->f, width, col, 0); e = errno; }
    { Harness h; fflush(out->f); string s = rc ? sfmt("render failed errno=%d\n", e) : out->data; delete out; return s; } }
static void bump(void *u, N, void *) { ++*(int *)u; }
static string own_tree(const Plan &p) {       // parse, clone, annotate, render and release one's own objects
    string out; ParseSpec s = tspec(p); AllocFaults af = s.af; s.af = AllocFaults(); ParseObs po; cypher_parse_result_t *r = run_parse_result(s, po); if (!r) return "no result\n";
    unsigned width = (unsigned)p.num("width", 0); bool color = p.has("color"); out += restext(snap_result(r)); AllocFaults none;
    vector<cypher_astnode_t *> clones; for (unsigned i = 0; i < cypher_parse_result_nroots(r); ++i) { cypher_astnode_t *c; int e; { Window w(&af); errno = 0; c = cypher_ast_clone(cypher_parse_result_get_root(r, i)); e = errno; } out += c ? dump_tree(c) : sfmt("clone failed errno=%d\n", e); if (c) clones.push_back(c); }
    out += render(nullptr, r, width, color, af, 0);
    int released = 0; cypher_ast_annotation_context_t *ctx; { Window w(&none); ctx = cypher_ast_annotation_context(); cypher_ast_annotation_context_set_release_handler(ctx, bump, &released); }
    int k = 0; for (auto *c : clones) { vector<N> v; { Harness h; preorder(c, v); } for (N n : v) { if (k++ % 3) continue; void *prev = nullptr; int rc, e; { Window w(&af); errno = 0; rc = cypher_astnode_attach_annotation(ctx, n, (void *)(uintptr_t)(k + 1), &prev); e = errno; } out += sfmt("attach %d %d %d; ", rc, rc ? e : 0, prev != nullptr); void *got; { Window w(&none); got = cypher_astnode_get_annotation(ctx, n); } out += sfmt("%lu; ", (unsigned long)(uintptr_t)got); if (k % 5 == 0) { Window w(&none); got = cypher_astnode_remove_annotation(ctx, n); out += sfmt("removed %lu; ", (unsigned long)(uintptr_t)got); } } }
    size_t half = clones.size() / 2; for (size_t i = 0; i < half; ++i) { Window w(&none); cypher_ast_free(clones[i]); } out += sfmt("released %d; ", released);
    { Window w(&none); cypher_ast_annotation_context_free(ctx); } out += sfmt("released %d\n", released);
    for (size_t i = half; i < clones.size(); ++i) { out += render(clones[i], nullptr, width, color, none, 0); Window w(&none); cypher_ast_free(clones[i]); }
    { Window w(&none); cypher_parse_result_free(r); } return out; }
static string shared_tree(const Plan &p) {    // read, clone and render a tree all tasks share
    string out; AllocFaults af = faults_of(p), none; cypher_parse_result_t *r = g_sh.res; unsigned width = (unsigned)p.num("width", 0); bool color = p.has("color"); if (!r) return "";
    { Live l; Window w(&none); ResultObs o = snap_result(r); out += restext(o); }
    for (unsigned i = 0; i < cypher_parse_result_nroots(r); ++i) { N root = cypher_parse_result_get_root(r, i); cypher_astnode_t *c; int e; { Window w(&af); errno = 0; c = cypher_ast_clone(root); e = errno; } out += c ? dump_tree(c) : sfmt("clone failed errno=%d\n", e); out += render(root, nullptr, width, color, af, 0); if (c) { Window w(&none); cypher_ast_free(c); } }
    out += render(nullptr, r, width, color, none, 0); return out; }
static string run_task(const Plan &p, bool nest, int depth = 0) {
    string kind = p.str("kind", "parse"), out, inner; if (kind == "tree") return own_tree(p); if (kind == "shared") return shared_tree(p);
    // a further task run by a callback (or, when it is to run alone, afterwards)
    Plan in = p.sub("n"); long at = p.num("nest", -1); bool reached = false; auto nested = [&](int k) { if (k != at || in.lines.empty() || depth > 2) return; reached = true; if (nest) inner = run_task(in, nest, depth + 1); };
    if (kind == "quick") { ParseSpec s = tspec(p); QuickSpec q; q.doc = s.doc; q.flags = s.flags; q.stream = s.stream; q.d = s.d; q.af = s.af; q.on_segment = nested; out = run_quick(q).text(); }
    else if (kind == "result") { ParseSpec s = tspec(p); ParseObs o; cypher_parse_result_t *r = run_parse_result(s, o); out = r ? restext(snap_result(r)) : sfmt("no result, errno=%d\n", o.err); if (r) { Window w; cypher_parse_result_free(r); } }
    else { ParseSpec s = tspec(p); s.on_segment = [&](int k, cypher_parse_segment_t *) { nested(k); }; out = run_parse(s).text(true); }
    if (reached && !nest) inner = run_task(in, nest, depth + 1);
    if (reached) out += "nested:\n" + inner;
    return out; }
static void *thread_main(void *a) { Task *t = (Task *)a; t_task = t; t_mem = &t->mem; t_harness = 0; while (sem_wait(&t->sem)) { }
    t->out = run_task(t->plan, t->nest); ++t_harness; t->done = true; int n = next_task(t->id + 1); if (n < 0) sem_post(&g_mainsem); else { g_curtask = n; sem_post(&(*g_tasks)[n]->sem); } return nullptr; }
static void run_threads(vector<Task *> &ts, uint64_t limit) {
    g_tasks = &ts; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 16 << 20); sem_init(&g_mainsem, 0, 0); for (auto *t : ts) { sem_init(&t->sem, 0, 0); t->done = false; t->out.clear(); t->mem = TaskMem(); if (pthread_create(&t->th, &at, thread_main, t)) { perror("pthread_create"); exit(3); } }
    uint64_t s0 = g_steps; g_steplimit = g_steps + limit; g_conc = true; sem_post(&ts[0]->sem); while (sem_wait(&g_mainsem)) { } g_conc = false; g_steplimit = 0; g_stats.steps += g_steps - s0; for (auto *t : ts) { pthread_join(t->th, nullptr); sem_destroy(&t->sem); } sem_destroy(&g_mainsem); pthread_attr_destroy(&at); g_tasks = nullptr; }
struct Blk { uintptr_t a, b; }; void blocks_since(uint64_t mark, vector<std::pair<uintptr_t, size_t>> &);
static struct { uint64_t n[3], sw; } g_last;
static void c10_exec(const Plan &p) {
    find_globals(); fresh_process(); vector<std::unique_ptr<Task>> own; vector<Task *> ts; uint64_t budget = 0;
    for (int i = 0; i < 8; ++i) { Plan s = p.sub(std::to_string(i)); if (s.lines.empty()) continue; own.emplace_back(new Task()); Task *t = own.back().get(); t->id = (int)ts.size(); t->plan = s; ts.push_back(t); budget += parse_budget(s.text().size()); }
    if (ts.empty()) return; size_t b00 = live_blocks();
    { Harness h; uint64_t mark = alloc_mark(); string d = p.doc("docS"); if (!d.empty()) g_sh.res = cypher_uparse(d.data(), d.size(), nullptr, nullptr, 0); Cfg c = cfg_of(p); if (!c.null) g_sh.cfg = make_config(c);
      vector<std::pair<uintptr_t, size_t>> bl; blocks_since(mark, bl); std::sort(bl.begin(), bl.end()); g_shared.clear(); for (auto &x : bl) g_shared.push_back({x.first, x.first + x.second}); }
    auto reset = [&] { for (int k = 0; k < 3; ++k) { g_trig[k].clear(); g_ti[k] = 0; g_n[k] = 0; } g_rr = 0; g_switches = 0; g_order = 0; };
    // each task on its own, in a fresh process
    vector<string> alone; long left = 0; uint64_t h0 = g_evhash; bool v0 = g_verbose; g_verbose = false;
    for (auto *t : ts) { fresh_process(); reset(); long b = (long)live_blocks(); vector<Task *> one{t}; int id = t->id; t->id = 0; t->nest = false; run_threads(one, budget); t->id = id; alone.push_back(t->out); left += (long)live_blocks() - b; }
    g_verbose = v0; g_evhash = h0; for (auto &a : alone) evh("alone", a);
    // and all together
    fresh_process(); reset(); for (auto &a : p.all("sw")) if (a.size() >= 3) { int k = a[0] == "p" ? 0 : a[0] == "g" ? 1 : 2; g_trig[k].push_back({(uint64_t)atoll(a[1].c_str()), atoi(a[2].c_str())}); }
    for (auto &v : g_trig) std::stable_sort(v.begin(), v.end(), [](const Trig &x, const Trig &y) { return x.n < y.n; }); g_rr = p.num("rr", 0);
    long b = (long)live_blocks(); for (auto *t : ts) t->nest = true; run_threads(ts, budget); long got = (long)live_blocks() - b;
    for (int k = 0; k < 3; ++k) g_last.n[k] = g_n[k]; g_last.sw = g_switches; ev("switches %llu order %016llx points %llu global %llu shared %llu", (unsigned long long)g_switches, (unsigned long long)g_order, (unsigned long long)g_n[0], (unsigned long long)g_n[1], (unsigned long long)g_n[2]);
    for (size_t i = 0; i < ts.size() && !failed(); ++i) { evh("together", ts[i]->out); if (ts[i]->out != alone[i]) fail("interference", "task %zu (%s) differs from its outcome when run alone: %s", i, ts[i]->plan.str("kind", "parse").c_str(), diff2(ts[i]->out, alone[i]).c_str()); }
    if (!failed() && got != left) fail("leak", "together the tasks leave %ld blocks, alone %ld", got, left);
    { Harness h; cypher_parse_result_free(g_sh.res); if (g_sh.cfg) cypher_parser_config_free(g_sh.cfg); g_sh.res = nullptr; g_sh.cfg = nullptr; g_shared.clear(); } reset();
    if (!failed() && left == 0 && live_blocks() != b00) fail("leak", "%ld blocks left after releasing the shared objects", (long)live_blocks() - (long)b00);
    if (g_last.sw >= 3) nontrivial(fnv(&g_order, sizeof g_order, fnv(p.text()))); for (auto *t : ts) { if (t->plan.num("nest", -1) >= 0 && t->out.find("nested:") != string::npos) probe("nested-run"); if (t->plan.has("fail") || t->plan.has("failfrom")) probe("task-with-fault"); probe(("task-" + t->plan.str("kind", "parse")).c_str()); }
    probe("global-accesses", g_last.n[1]); probe("shared-accesses", g_last.n[2]); probe("switches", g_last.sw);
}
static void add_task(Plan &p, Rng &r, const string &pre, int depth) {
    static vector<string> kinds = all_kinds_docs(); auto add = [&](const string &l) { p.add(pre + l); }; static const char *K[] = {"parse", "parse", "quick", "result", "tree", "tree", "shared"};
    string kind = depth ? K[r.below(6)] : K[r.below(7)]; add("kind " + kind); string doc; if (r.p(.3)) doc = r.pick(kinds); else { GenOpts o; o.max_stmts = r.range(1, 3); o.depth = 1; o.damage = .35; o.commands = .3; doc = gen_doc(r, o); } if (doc.size() > 300) doc.resize(300);
    if (kind != "shared") { Plan q; q.setdoc(doc); if (r.p(.2)) flags_to(q, CYPHER_PARSE_ONLY_STATEMENTS); cfg_to(q, random_cfg(r)); if (kind != "tree" && r.p(.4)) { q.add("stream"); delivery_to(q, random_delivery(r, doc.size())); } for (auto &l : q.lines) add(l); if (r.p(.3) && kind != "quick") add("sharedcfg"); }
    if (r.p(.3)) add(sfmt("fail %d", (int)r.below(r.p(.5) ? 12 : 120))); if (r.p(.2)) add(sfmt("width %d", r.range(1, 100))); if (r.p(.2)) add("color");
    if (depth < 2 && (kind == "parse" || kind == "quick") && r.p(.4)) { add(sfmt("nest %d", (int)r.below(2))); add_task(p, r, pre + "task n ", depth + 1); } }
static void c10_explore(Ctx &c) {
    Rng &r = c.rng; Plan base; base.add("prop C10"); int n = r.range(2, 4); if (c.index % 7 == 3) n = 1; for (int i = 0; i < n; ++i) add_task(base, r, sfmt("task %d ", i), 0);
    if (n > 1 && r.p(.3)) { Plan s = base.sub("0"); Plan q; for (auto &l : base.lines) if (l.compare(0, 7, "task 1 ")) q.add(l); for (auto &l : s.lines) q.add("task 1 " + l); base = q; }    // twins
    { static vector<string> kinds = all_kinds_docs(); base.setdoc(r.p(.7) ? r.pick(kinds) : gen_statement(r, 1) + ";", "docS"); Cfg k = random_cfg(r); k.null = false; cfg_to(base, k); }
    if (!c.run(base)) return; uint64_t *N0 = g_last.n, np = N0[0], ng = N0[1], ns = N0[2]; if (n == 1) return; int reps = c.thorough ? 12 : 6;
    for (int rep = 0; rep < reps; ++rep) { Plan p = base; auto sw = [&](const char *k, uint64_t at) { p.addf("sw %s %llu %d", k, (unsigned long long)at, (int)r.below(n)); };
        int mode = r.below(6); if (mode == 0 && np) { int m = r.range(3, 12); for (int i = 0; i < m; ++i) sw("p", r.below(np)); }
        else if (mode == 1 && np > 300) p.addf("rr %llu", (unsigned long long)(np / (20 + r.below(180)) + 1));
        else if (mode == 2 && ns) { int m = r.range(3, 40); for (int i = 0; i < m; ++i) sw("s", r.below(ns)); }
        else if (mode == 3 && np) { int m = r.range(2, 40); uint64_t at = r.below(np); for (int i = 0; i < m; ++i) { sw("p", at); at += 1 + r.below(r.p(.5) ? 10 : 400); } }
        else if (ng) { int m = r.range(3, 60); uint64_t at = r.below(ng); if (r.p(.6)) for (int i = 0; i < m; ++i) sw("g", r.below(ng)); else for (int i = 0; i < m; ++i) { sw("g", at); at += 1 + r.below(4); } if (r.p(.5)) { m = r.range(1, 6); for (int i = 0; i < m; ++i) sw("p", r.below(np)); } }
        else if (np) { uint64_t lo = r.below(np); int m = r.range(3, 30); for (int i = 0; i < m; ++i) sw("p", lo + r.below(np / 8 + 1)); }
        if (!c.run(p)) return; }
}
void props_conc(vector<Prop> &v) { v.push_back({"C10", c10_explore, c10_exec, "conc"}); }
