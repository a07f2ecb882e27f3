// Seams: allocator, coverage/step clock, streams, fatal outcomes, event log.
#include "sim.h"
#include <stdarg.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include "shm.h"

Violation g_viol;
Stats g_stats;
uint64_t g_evhash = 1469598103934665603ull;
bool g_verbose = false;
Shm *g_shm = nullptr;

uint64_t fnv(const void *p, size_t n, uint64_t h) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
string hex(const string &s) { static const char *d = "0123456789abcdef"; string o; o.reserve(s.size() * 2);
    for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; } return o; }
string unhex(const string &s) { string o; auto v = [](char c) { return c >= 'a' ? c - 'a' + 10 : c - '0'; };
    for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)(v(s[i]) * 16 + v(s[i + 1])); return o; }
string esc(const string &s, size_t max) { string o; size_t n = 0;
    for (unsigned char c : s) { if (n++ >= max) { o += "..."; break; }
        if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += (char)c; }
    return o; }
static string vfmt(const char *f, va_list ap) { char buf[2048]; va_list ap2; va_copy(ap2, ap);
    int n = vsnprintf(buf, sizeof buf, f, ap); string r;
    if (n < (int)sizeof buf) r.assign(buf, n < 0 ? 0 : n); else { r.resize(n + 1); vsnprintf(&r[0], n + 1, f, ap2); r.resize(n); }
    va_end(ap2); return r; }
string sfmt(const char *f, ...) { va_list ap; va_start(ap, f); string r = vfmt(f, ap); va_end(ap); return r; }
vector<string> split(const string &s, char sep) { vector<string> o; string cur;
    for (char c : s) { if (c == sep) { if (!cur.empty()) o.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) o.push_back(cur); return o; }

// ------------------------------------------------------------------ plan
void Plan::addf(const char *f, ...) { va_list ap; va_start(ap, f); lines.push_back(vfmt(f, ap)); va_end(ap); }
static bool named(const string &l, const string &n) { return l.compare(0, n.size(), n) == 0 && (l.size() == n.size() || l[n.size()] == ' '); }
bool Plan::has(const string &n) const { for (auto &l : lines) if (named(l, n)) return true; return false; }
Args Plan::get(const string &n) const { for (auto &l : lines) if (named(l, n)) { auto a = split(l); a.erase(a.begin()); return a; } return {}; }
vector<Args> Plan::all(const string &n) const { vector<Args> r;
    for (auto &l : lines) if (named(l, n)) { auto a = split(l); a.erase(a.begin()); r.push_back(a); } return r; }
long Plan::num(const string &n, long d, int i) const { auto a = get(n); return (int)a.size() > i ? atol(a[i].c_str()) : d; }
string Plan::str(const string &n, const string &d) const { auto a = get(n); return a.empty() ? d : a[0]; }
// document lines: <hex> or, for repeated text, <hex>*<count>
string undoc(const string &a) { size_t i = a.find('*'); if (i == string::npos) return unhex(a); string u = unhex(a.substr(0, i)), r; size_t n = strtoul(a.c_str() + i + 1, nullptr, 10); r.reserve(u.size() * n); while (n--) r += u; return r; }
vector<string> doclines(const string &b) {
    vector<string> v; size_t i = 0, lit = 0; auto flush = [&](size_t e) { for (; lit < e; lit += 64) v.push_back(hex(b.substr(lit, std::min<size_t>(64, e - lit)))); lit = e; };
    while (i < b.size()) { size_t best = 0, bp = 0;
        if (b.size() - i > 256) for (size_t per = 1; per <= 16; ++per) { size_t k = i + per; while (k < b.size() && b[k] == b[k - per]) ++k; size_t n = (k - i) / per * per; if (n > 256 && n > best) { best = n; bp = per; break; } }
        if (best) { flush(i); v.push_back(hex(b.substr(i, bp)) + sfmt("*%zu", best / bp)); i += best; lit = i; } else ++i; }
    flush(b.size()); return v; }
string Plan::doc(const string &n) const { string r; for (auto &a : all(n)) if (!a.empty()) r += undoc(a[0]); return r; }
void Plan::setdoc(const string &b, const string &n) { for (auto &l : doclines(b)) add(n + " " + l); }
string Plan::text() const { string r; for (auto &l : lines) r += l + "\n"; return r; }
Plan Plan::parse(const string &t) { Plan p; for (auto &l : split(t, '\n')) if (l[0] != '#') p.add(l); return p; }
Plan Plan::sub(const string &task) const { Plan r; string pre = "task " + task + " ";
    for (auto &l : lines) if (l.compare(0, pre.size(), pre) == 0) r.add(l.substr(pre.size())); return r; }

// --------------------------------------------------------------- outcomes
void fail(const string &cls, const char *f, ...) {
    if (g_viol.set) return;
    va_list ap; va_start(ap, f); string d = vfmt(f, ap); va_end(ap);
    g_viol.set = true; g_viol.cls = cls; g_viol.detail = d;
    ev("VIOLATED %s", cls.c_str());
}
void fatal(const char *cls, const string &detail) {
    if (g_shm) {
        if (!g_shm->fatal) {
            snprintf(g_shm->cls, sizeof g_shm->cls, "%s", cls);
            snprintf(g_shm->detail, sizeof g_shm->detail, "%s", detail.c_str());
            g_shm->evhash = g_evhash;
            g_shm->fatal = 1;
        }
    }
    fprintf(stderr, "FATAL %s: %s\n", cls, detail.c_str());
    _exit(66);
}
void ev(const char *f, ...) {
    va_list ap; va_start(ap, f); string s = vfmt(f, ap); va_end(ap);
    g_evhash = fnv(s, g_evhash); g_stats.ev++;
    if (g_verbose) { printf("  | %s\n", s.c_str()); fflush(stdout); }
}
void evh(const string &what, const string &payload) {
    ev("%s #%016llx (%zu bytes)", what.c_str(), (unsigned long long)fnv(payload), payload.size());
}
void probe(const char *name, uint64_t n) { g_stats.probes[name] += n; }
static uint64_t t_runkey;
void nontrivial(uint64_t key) { g_stats.nontriv.insert(key); }

// ------------------------------------------------------- steps and coverage
uint64_t g_steps = 0, g_steplimit = 0;
static uint32_t g_nguards = 0, g_lastguard = 0;
vector<uint8_t> *g_edges = nullptr;
bool g_conc = false;                       // the concurrency scheduler is live
thread_local int t_harness = 0;
thread_local bool t_live = false;
extern "C" void sim_preempt_point(int kind);

extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
    if (start == stop || *start) return;
    for (uint32_t *x = start; x < stop; ++x) *x = ++g_nguards;
    if (!g_edges) g_edges = new vector<uint8_t>();
    g_edges->resize(g_nguards + 1);
}
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
    if (t_harness) return;
    uint32_t g = *guard; if (!g) return;
    (*g_edges)[g] = 1; g_lastguard = g;
    if (++g_steps > g_steplimit && g_steplimit) {
        uint64_t lim = g_steplimit; g_steplimit = 0;
        fatal("hang", sfmt("no progress within %llu simulated steps", (unsigned long long)lim));
    }
    if (g_conc) sim_preempt_point(0);
}
void fault_fired(const char *kind) {
    g_stats.faults[kind]++;
    g_stats.faultsites.insert(((uint64_t)g_lastguard << 16) | (fnv(kind, strlen(kind)) & 0xffff));
}

// ----------------------------------------------------------------- allocator
struct Block { size_t size; uint64_t seq; };
static std::unordered_map<void *, Block> *g_live;
static size_t g_livebytes = 0; static uint64_t g_seq = 0;
TaskMem g_mainmem;
thread_local TaskMem *t_mem = &g_mainmem;
static std::unordered_map<void *, Block> &live() { if (!g_live) g_live = new std::unordered_map<void *, Block>(); return *g_live; }
size_t live_blocks() { return live().size(); }
size_t live_bytes() { return g_livebytes; }
static uint64_t g_lastmark = 0; static long g_trace_alloc = getenv("SIM_TRACE_ALLOC") ? atol(getenv("SIM_TRACE_ALLOC")) : -1;   // debugging aid
uint64_t alloc_mark() { return g_lastmark = g_seq; }
string oldest_block_since(uint64_t mark) {
    uint64_t best = ~0ull; size_t sz = 0, n = 0;
    for (auto &b : live()) if (b.second.seq > mark) { ++n; if (b.second.seq < best) { best = b.second.seq; sz = b.second.size; } }
    return n ? sfmt("%zu block(s) left, the oldest of %zu bytes (allocation %llu of the run)", n, sz, (unsigned long long)(best - mark)) : "none";
}
void blocks_since(uint64_t mark, vector<std::pair<uintptr_t, size_t>> &v) { for (auto &b : live()) if (b.second.seq > mark) v.push_back({(uintptr_t)b.first, b.second.size}); }
vector<uint64_t> *g_allocsites;   // when set: where each allocation of a window comes from (call stack; compared within one process only)
static bool should_fail(size_t n, const char *what) {
    if (t_harness) return false;
    if (g_conc) sim_preempt_point(1);
    TaskMem *m = t_mem;
    if (!m->armed) return false;
    uint64_t i = m->n++; if (g_allocsites && !g_conc) { uint64_t h = fnv(what); void **fp = (void **)__builtin_frame_address(0); for (int k = 0; k < 5 && fp; ++k) { uintptr_t a = (uintptr_t)fp[1]; h = (h ^ a) * 0x100000001b3ull; void **up = (void **)fp[0]; if (up <= fp || (char *)up - (char *)fp > 1 << 16) break; fp = up; } g_allocsites->push_back(h); }
    bool f = m->f.at.count(i) || (m->f.from >= 0 && (int64_t)i >= m->f.from && (m->f.from_to < 0 || (int64_t)i < m->f.from_to))
        || (m->f.bigger >= 0 && (int64_t)n > m->f.bigger);
    if (f) { m->fired++; fault_fired(what); ev("fault %s #%llu (%zu bytes)", what, (unsigned long long)i, n); errno = ENOMEM; }
    return f;
}
static void *track(void *p, size_t n) {
    if (!p) return p;
    live()[p] = Block{n, ++g_seq}; g_livebytes += n;
    if (g_trace_alloc >= 0 && g_seq - g_lastmark == (uint64_t)g_trace_alloc) { fprintf(stderr, "allocation %ld of %zu bytes:\n", g_trace_alloc, n); __sanitizer_print_stack_trace(); }
    if (g_livebytes > (1ull << 30)) fatal("runaway-memory", "more than 1 GiB of live allocations");
    return p;
}
static bool untrack(void *p, Block *out = nullptr) {
    auto it = live().find(p); if (it == live().end()) return false;
    if (out) *out = it->second; g_livebytes -= it->second.size; live().erase(it); return true;
}
static void *fresh(size_t n) { if (n > (1ull << 30)) { errno = ENOMEM; return nullptr; }
    void *p = malloc(n); if (p) memset(p, 0xA5, n); return track(p, n); }
extern "C" {
void *sim_malloc(size_t n) { if (should_fail(n, "alloc:malloc")) return nullptr; return fresh(n); }
void *sim_calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    if (should_fail(n, "alloc:calloc")) return nullptr; void *p = fresh(n); if (p) memset(p, 0, n); return p; }
void sim_free(void *p) { int e = errno; if (!p) return; if (g_conc && !t_harness) sim_preempt_point(2);
    Block b; if (untrack(p, &b)) { memset(p, 0xDD, b.size); } free(p); errno = e; }
void *sim_realloc(void *p, size_t n) {
    if (should_fail(n, "alloc:realloc")) return nullptr;
    if (!p) return fresh(n);
    if (n == 0) { untrack(p); free(p); return nullptr; }
    auto it = live().find(p); if (it == live().end()) { void *q = realloc(p, n); return q ? track(q, n) : q; }
    size_t old = it->second.size; void *q = fresh(n); if (!q) return nullptr;
    memcpy(q, p, old < n ? old : n); untrack(p); memset(p, 0xDD, old); free(p); return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return sim_realloc(p, n); }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); if (should_fail(n + 1, "alloc:strndup")) return nullptr;
    char *p = (char *)fresh(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
char *sim_strdup(const char *s) { size_t n = strlen(s); if (should_fail(n + 1, "alloc:strdup")) return nullptr;
    char *p = (char *)fresh(n + 1); if (p) memcpy(p, s, n + 1); return p; }
int sim_vasprintf(char **o, const char *f, va_list ap) { va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, f, a2); va_end(a2);
    if (n < 0 || should_fail(n + 1, "alloc:asprintf")) return -1; char *p = (char *)fresh(n + 1); if (!p) return -1;
    vsnprintf(p, n + 1, f, ap); *o = p; return n; }
int sim_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vasprintf(o, f, ap); va_end(ap); return r; }
int sim_posix_memalign(void **o, size_t al, size_t n) { if (should_fail(n, "alloc:memalign")) return ENOMEM; void *p = nullptr;
    int r = posix_memalign(&p, al, n); if (!r) *o = track(p, n); return r; }
void *sim_aligned_alloc(size_t al, size_t n) { if (should_fail(n, "alloc:memalign")) return nullptr; return track(aligned_alloc(al, n), n); }
void sim_assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
    const char *b = strrchr(file, '/'); fatal("assert", sfmt("assertion failed in %s (%s:%u): %s", fn, b ? b + 1 : file, line, e)); }
void sim_abort(void) { fatal("abort", "abort() called"); }
}

static const char *kAsanDefault = "detect_leaks=0:handle_abort=1:abort_on_error=0:exitcode=66:symbolize=0:quarantine_size_mb=16:"
    "thread_local_quarantine_size_kb=64:malloc_context_size=1:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=0:detect_odr_violation=0";
extern "C" const char *__asan_default_options() { return kAsanDefault; }
extern "C" void sim_asan_report(const char *r) {
    string s = r; string kind = "error"; size_t i = s.find("AddressSanitizer: ");
    if (i != string::npos) { size_t j = i + 18, k = j; while (k < s.size() && (isalnum(s[k]) || s[k] == '-')) ++k; kind = s.substr(j, k - j); }
    if (g_shm && !g_shm->fatal) {
        snprintf(g_shm->cls, sizeof g_shm->cls, "memory:%s", kind.c_str());
        string d; // the first frames
        size_t n = 0; for (auto &l : split(s, '\n')) { if (l.find("ERROR:") != string::npos || l.find("    #") == 0) { d += l + "\n"; if (++n > 10) break; } }
        snprintf(g_shm->detail, sizeof g_shm->detail, "%s", d.c_str());
        g_shm->evhash = g_evhash; g_shm->fatal = 1;
    }
}
static void on_death() { }
void core_init() { __asan_set_error_report_callback(sim_asan_report); __sanitizer_set_death_callback(on_death); }

Window::Window(const AllocFaults *f, uint64_t limit) {
    m = t_mem; saved = *m; m->armed = true; m->n = 0; m->fired = 0; m->f = f ? *f : AllocFaults();
    steps0 = g_steps; limit0 = g_steplimit; if (!g_conc) g_steplimit = limit ? g_steps + limit : 0;
}
Window::~Window() { *m = saved; if (!g_conc) g_steplimit = limit0 ? limit0 + (g_steps - steps0) : 0; if (!saved.armed) g_stats.steps += g_steps - steps0; }
uint64_t parse_budget(size_t len) { return 100000000ull + 100000ull * len + 40ull * len * len; }
bool LeakCheck::check(const char *what) {
    if (live_blocks() != b0) { fail("leak", "%s: %s", what, oldest_block_since(mark).c_str()); return false; } return true; }

// ------------------------------------------------------------------- streams
static const char *errname(int e) { switch (e) { case 0: return "unset"; case EIO: return "EIO"; case EINTR: return "EINTR"; case EAGAIN: return "EAGAIN";
    case ESTALE: return "ESTALE"; case ENOSPC: return "ENOSPC"; case ENOMEM: return "ENOMEM"; case EPIPE: return "EPIPE"; case EBADF: return "EBADF"; case ENOENT: return "ENOENT"; case EACCES: return "EACCES"; case EMFILE: return "EMFILE"; case EISDIR: return "EISDIR"; default: return "E?"; } }
const char *sim_errname(int e) { return errname(e); }
static ssize_t in_read(void *c, char *buf, size_t n) {
    SimIn *s = (SimIn *)c; s->nreads++;
    if (g_conc && !t_harness) sim_preempt_point(3);
    if (s->on_request) s->on_request(s->pos);
    size_t avail = s->data.size();
    if (s->d.eof_at >= 0 && (size_t)s->d.eof_at < avail) avail = s->d.eof_at;
    bool will_err = s->d.err_at >= 0 && (s->d.err_sticky || !s->erred);
    if (will_err && s->pos >= (size_t)s->d.err_at) {
        s->erred = true; s->errs++; string k = string("read:") + errname(s->d.err_no); fault_fired(k.c_str());
        ev("fault %s at byte %zu", k.c_str(), s->pos); errno = s->d.err_no; return -1;
    }
    if (will_err && (size_t)s->d.err_at < avail) avail = s->d.err_at;
    size_t m = n;
    if (!s->d.chunks.empty()) { size_t ch = s->d.chunks[s->ci++ % s->d.chunks.size()]; if (ch < 1) ch = 1; if (ch < m) m = ch; }
    if (m > avail - s->pos) m = avail - s->pos;
    if (m < n && s->pos + m < s->data.size()) { g_stats.faults["read:short"]++; }
    if (m == 0) { if (s->d.eof_at >= 0 && s->pos < s->data.size() && !s->saw_eof) fault_fired("read:truncated"); s->saw_eof = true; return 0; }
    memcpy(buf, s->data.data() + s->pos, m); s->pos += m; g_stats.bytes += m;
    return m;
}
SimIn::SimIn(const string &dat, const Delivery &dl) : data(dat), d(dl) {
    cookie_io_functions_t io = {in_read, nullptr, nullptr, [](void *c) { ((SimIn *)c)->f = nullptr; return 0; }};
    f = fopencookie(this, "r", io);
    if (d.bufmode == 'n') setvbuf(f, nullptr, _IONBF, 0);
    else { buf.resize(d.bufsize > 0 ? d.bufsize : 4096); setvbuf(f, buf.data(), d.bufmode == 'l' ? _IOLBF : _IOFBF, buf.size()); }
}
SimIn::~SimIn() { if (f) fclose(f); }
static ssize_t out_write(void *c, const char *buf, size_t n) {
    SimOut *s = (SimOut *)c; size_t m = n;
    if (g_conc && !t_harness) sim_preempt_point(3);
    bool will_err = s->err_at >= 0 && (s->err_sticky || !s->erred);
    if (will_err && s->data.size() + n > (size_t)s->err_at) {
        m = s->data.size() < (size_t)s->err_at ? (size_t)s->err_at - s->data.size() : 0;
        s->erred = true; s->errs++; string k = string("write:") + errname(s->err_no); fault_fired(k.c_str());
        ev("fault %s at byte %ld", k.c_str(), s->err_at); s->data.append(buf, m); errno = s->err_no; return m;
    }
    s->data.append(buf, m); return m;
}
SimOut::SimOut(char bm, int bs) : bufmode(bm), bufsize(bs) {
    cookie_io_functions_t io = {nullptr, out_write, nullptr, [](void *c) { ((SimOut *)c)->f = nullptr; return 0; }};
    f = fopencookie(this, "w", io);
    if (bm == 'n') setvbuf(f, nullptr, _IONBF, 0);
    else { buf.resize(bs > 0 ? bs : 4096); setvbuf(f, buf.data(), bm == 'l' ? _IOLBF : _IOFBF, buf.size()); }
}
SimOut::~SimOut() { if (f) { Harness h; err_at = -1; fclose(f); } }

string Delivery::text() const { string r = "chunks"; for (int c : chunks) r += sfmt(" %d", c); return r; }
Delivery delivery_of(const Plan &p) { Delivery d;
    for (auto &x : p.get("chunks")) d.chunks.push_back(std::max(1, atoi(x.c_str())));
    Args b = p.get("buf"); if (b.size() >= 1) d.bufmode = b[0][0]; if (b.size() >= 2) d.bufsize = atoi(b[1].c_str());
    Args e = p.get("rerr"); if (e.size() >= 3) { d.err_at = atol(e[0].c_str()); d.err_no = atoi(e[1].c_str()); d.err_sticky = e[2] == "sticky"; }
    Args t = p.get("trunc"); if (t.size() >= 1) d.eof_at = atol(t[0].c_str());
    return d; }
void delivery_to(Plan &p, const Delivery &d) {
    if (!d.chunks.empty()) p.add(d.text());
    if (d.bufmode != 'n') p.addf("buf %c %d", d.bufmode, d.bufsize);
    if (d.err_at >= 0) p.addf("rerr %ld %d %s", d.err_at, d.err_no, d.err_sticky ? "sticky" : "once");
    if (d.eof_at >= 0) p.addf("trunc %ld", d.eof_at); }
AllocFaults faults_of(const Plan &p) { AllocFaults f;
    for (auto &a : p.all("fail")) for (auto &x : a) f.at.insert(atoll(x.c_str()));
    Args b = p.get("failfrom"); if (b.size() >= 1) f.from = atoll(b[0].c_str()); if (b.size() >= 2) f.from_to = atoll(b[1].c_str());
    Args g = p.get("failbig"); if (g.size() >= 1) f.bigger = atoll(g[0].c_str());
    return f; }
Delivery random_delivery(Rng &r, size_t len) { Delivery d;
    switch (r.below(6)) {
    case 0: break;
    case 1: d.chunks = {1}; break;
    case 2: { int n = r.range(1, 6); for (int i = 0; i < n; ++i) d.chunks.push_back(r.range(1, 7)); break; }
    case 3: { int n = r.range(1, 4); for (int i = 0; i < n; ++i) d.chunks.push_back(r.range(1, 600)); break; }
    case 4: { static const int odd[] = {511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097}; d.chunks = {odd[r.below(11)]}; break; }
    default: { if (len) { d.chunks = {(int)r.range(1, (int)std::min<size_t>(len, 100000)), (int)r.range(1, 3)}; } }
    }
    switch (r.below(4)) { case 0: case 1: d.bufmode = 'n'; break; case 2: d.bufmode = 'f'; break; default: d.bufmode = 'l'; }
    if (d.bufmode != 'n') { static const int bs[] = {1, 2, 3, 7, 16, 64, 128, 512, 1000, 1024, 4096}; d.bufsize = bs[r.below(11)]; }
    return d; }
