// Command line of the simulator: explore / replay / minimise.
#include "sim.h"
#include "shm.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <time.h>
#include <signal.h>

void core_init();
extern vector<uint8_t> *g_edges;
#define X(f) void f(vector<Prop> &) __attribute__((weak));
X(props_parse) X(props_tree) X(props_lint) X(props_conc)
#undef X
const Prop *find_prop(const string &id) {
    static vector<Prop> v; if (v.empty()) { if (props_parse) props_parse(v); if (props_tree) props_tree(v); if (props_lint) props_lint(v); if (props_conc) props_conc(v); }
    for (auto &p : v) if (id == p.id) return &p; return nullptr; }
static void map_shm(const char *file) {
    if (!file) { g_shm = (Shm *)mmap(nullptr, SHM_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return; }
    int fd = open(file, O_RDWR | O_CREAT, 0600); if (fd < 0 || ftruncate(fd, SHM_SIZE)) { perror(file); exit(3); }
    g_shm = (Shm *)mmap(nullptr, SHM_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
    if (g_shm == MAP_FAILED) { perror("mmap"); exit(3); }
    memset(g_shm, 0, offsetof(Shm, plan) + 1); g_shm->magic = 0x53494d31;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void shm_plan(const Plan &p) {
    string t = p.text(); size_t max = SHM_SIZE - offsetof(Shm, plan) - 1; if (t.size() > max) t.resize(max);
    memcpy(g_shm->plan, t.data(), t.size()); g_shm->plan[t.size()] = 0; g_shm->planlen = t.size();
}
bool execute(const string &prop, const Plan &p) {
    const Prop *pr = find_prop(prop); g_viol = Violation(); g_evhash = 1469598103934665603ull;
    pr->exec(p);
    return !g_viol.set;
}
static const Prop *g_cur; static uint64_t g_casehash, g_caseno;
bool Ctx::run(const Plan &p) {
    if (failed()) return false;
    shm_plan(p); g_shm->runs++; g_stats.runs++;
    size_t nt = g_stats.nontriv.size();
    bool ok = execute(g_cur->id, p);
    if (g_stats.nontriv.size() > nt && g_stats.samples.size() < 3 && p.text().size() < 900) g_stats.samples.push_back(p.text());
    g_casehash = g_casehash * 1099511628211ull ^ g_evhash;
    return ok;
}
static string jstr(const string &s) { string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += sfmt("\\u%04x", c); else o += c; } return o + "\""; }
static void write_stats(const char *file, uint64_t dethash, double wall) {
    FILE *f = fopen(file, "w"); if (!f) { perror(file); exit(3); }
    fprintf(f, "{\"runs\":%llu,\"cases\":%llu,\"steps\":%llu,\"bytes\":%llu,\"events\":%llu,\"dethash\":%llu,\"wall\":%.3f", (unsigned long long)g_stats.runs, (unsigned long long)g_stats.cases,
        (unsigned long long)g_stats.steps, (unsigned long long)g_stats.bytes, (unsigned long long)g_stats.ev, (unsigned long long)dethash, wall);
    auto mp = [&](const char *n, map<string, uint64_t> &m) { fprintf(f, ",\"%s\":{", n); bool first = true; for (auto &x : m) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(x.first).c_str(), (unsigned long long)x.second); first = false; } fprintf(f, "}"); };
    mp("faults", g_stats.faults); mp("probes", g_stats.probes);
    auto st = [&](const char *n, const set<uint64_t> &m) { fprintf(f, ",\"%s\":[", n); bool first = true; for (auto x : m) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)x); first = false; } fprintf(f, "]"); };
    st("nontrivial", g_stats.nontriv); st("faultsites", g_stats.faultsites);
    set<uint64_t> e; if (g_edges) for (size_t i = 0; i < g_edges->size(); ++i) if ((*g_edges)[i]) e.insert(i);
    st("edges", e); fprintf(f, ",\"edges_total\":%zu", g_edges ? g_edges->size() : 0);
    fprintf(f, ",\"samples\":["); for (size_t i = 0; i < g_stats.samples.size(); ++i) fprintf(f, "%s%s", i ? "," : "", jstr(g_stats.samples[i]).c_str()); fprintf(f, "]}\n");
    fclose(f);
}
static string slurp(const char *file) { FILE *f = fopen(file, "rb"); if (!f) { perror(file); exit(3); } string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }

// ------------------------------------------------------------- minimisation
struct Outcome { bool bad = false; string cls; };
static Shm *t_childshm;
static Outcome try_plan(const string &prop, const Plan &p, double limit) {
    memset(g_shm, 0, offsetof(Shm, plan)); fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); alarm((unsigned)limit + 1);
        bool ok = execute(prop, p);
        if (!ok) { snprintf(g_shm->cls, sizeof g_shm->cls, "%s", g_viol.cls.c_str()); g_shm->fatal = 1; }
        _exit(ok ? 0 : 1);
    }
    int st = 0; waitpid(pid, &st, 0);
    Outcome o; if (g_shm->fatal) { o.bad = true; o.cls = g_shm->cls; }
    else if (WIFSIGNALED(st) && WTERMSIG(st) != SIGALRM) { o.bad = true; o.cls = "crash"; }
    return o;
}
static bool same_cls(const string &a, const string &b) {    // any memory error is one class
    auto k = [](const string &s) { size_t i = s.find(':'); return i == string::npos ? s : s.substr(0, i); }; return k(a) == k(b); }
static Plan minimise(const string &prop, Plan p, const string &cls, double secs, long &tried) {
    double t0 = now(); tried = 0;
    auto left = [&] { return now() - t0 < secs; };
    auto bad = [&](const Plan &q) { ++tried; Outcome o = try_plan(prop, q, 20); return o.bad && same_cls(o.cls, cls); };
    bool progress = true;
    while (progress && left()) {
        progress = false;
        // 1. drop lines, in halving chunks
        for (size_t chunk = std::max<size_t>(1, p.lines.size() / 2); chunk >= 1 && left(); chunk /= 2) {
            for (size_t i = 0; i < p.lines.size() && left();) {
                if (p.lines[i].compare(0, 4, "prop") == 0 && chunk == 1) { ++i; continue; }
                Plan q; for (size_t k = 0; k < p.lines.size(); ++k) if (k < i || k >= i + chunk || p.lines[k].compare(0, 4, "prop") == 0) q.lines.push_back(p.lines[k]);
                if (q.lines.size() < p.lines.size() && bad(q)) { p = q; progress = true; } else i += chunk;
            }
            if (chunk == 1) break;
        }
        // 2. shorten documents (every "…doc…" key), trying the faults as they are, shifted, or re-swept
        set<string> keys; for (auto &l : p.lines) { auto a = split(l); size_t k = 0; if (a.size() >= 3 && a[0] == "task") k = 2; if (a.size() > k && a[k].compare(0, 3, "doc") == 0) keys.insert(k ? a[0] + " " + a[1] + " " + a[2] : a[0]); }
        for (auto &key : keys) {
            string d; size_t at = p.lines.size(); { vector<string> keep; string pre = key + " "; for (size_t i = 0; i < p.lines.size(); ++i) if (p.lines[i].compare(0, pre.size(), pre) == 0) { d += undoc(p.lines[i].substr(pre.size())); at = std::min(at, keep.size()); } else keep.push_back(p.lines[i]); p.lines = keep; }
            auto with = [&](const string &nd, const Plan &base) { Plan q = base; vector<string> ins; for (auto &l : doclines(nd)) ins.push_back(key + " " + l); q.lines.insert(q.lines.begin() + std::min(at, q.lines.size()), ins.begin(), ins.end()); return q; };
            for (size_t chunk = std::max<size_t>(1, d.size() / 2); chunk >= 1 && left(); chunk /= 2) {
                for (size_t i = 0; i + chunk <= d.size() && left();) {
                    string nd = d.substr(0, i) + d.substr(i + chunk); bool ok = false; Plan base = p;
                    if (bad(with(nd, p))) ok = true;
                    else { // offsets after the removed bytes move with them
                        Plan s = p; bool changed = false;
                        for (auto &l : s.lines) { auto a = split(l); for (const char *n : {"rerr", "trunc", "at", "dmg"}) if (a.size() > 1 && a[0] == n && atol(a[1].c_str()) > (long)i) { a[1] = std::to_string(std::max<long>(i, atol(a[1].c_str()) - (long)chunk)); string r; for (auto &x : a) r += (r.empty() ? "" : " ") + x; l = r; changed = true; } }
                        if (changed && bad(with(nd, s))) { base = s; ok = true; }
                    }
                    if (ok) { d = nd; p = base; progress = true; } else i += chunk;
                }
                if (chunk == 1) break;
            }
            p = with(d, p);
        }
        // 3. lower single numbers (fault indices, switch points, sizes)
        for (size_t i = 0; i < p.lines.size() && left(); ++i) {
            auto a = split(p.lines[i]); if (a.empty() || a[0].find("doc") == 0 || a[0] == "prop" || (a.size() > 2 && a[2].find("doc") == 0)) continue;
            for (size_t k = 1; k < a.size() && left(); ++k) {
                char *e; long v = strtol(a[k].c_str(), &e, 10); if (*e || v <= 0) continue;
                auto set = [&](long nv) { auto b = a; b[k] = std::to_string(nv); string r; for (auto &x : b) r += (r.empty() ? "" : " ") + x; Plan q = p; q.lines[i] = r; return q; };
                long lo = 0; bool done = false; int budget = a[0] == "fail" ? 40 : 12;
                for (long nv = 0; nv < v && budget-- > 0 && left() && !done; nv = nv < 8 ? nv + 1 : nv + std::max<long>(1, (v - nv) / 4)) { (void)lo; Plan q = set(nv); if (bad(q)) { p = q; a = split(p.lines[i]); progress = true; done = true; } }
            }
        }
    }
    return p;
}

int main(int argc, char **argv) {
    core_init();
    setvbuf(stdout, nullptr, _IOLBF, 0);
    auto opt = [&](const char *n) -> const char * { for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], n)) return argv[i + 1]; return nullptr; };
    auto flag = [&](const char *n) { for (int i = 2; i < argc; ++i) if (!strcmp(argv[i], n)) return true; return false; };
    string cmd = argc > 1 ? argv[1] : "";
    map_shm(opt("--shm"));
    if (cmd == "explore") {
        const Prop *pr = find_prop(argv[2]); if (!pr) { fprintf(stderr, "no such property\n"); return 3; }
        g_cur = pr; snprintf(g_shm->prop, sizeof g_shm->prop, "%s", pr->id);
        auto num = [&](const char *n, long d) { const char *v = opt(n); return v ? atol(v) : d; };
        uint64_t seed = strtoull(opt("--seed") ? opt("--seed") : "1", nullptr, 10); long from = num("--from", 0), count = num("--count", 10), stride = num("--stride", 1), start = num("--start", from);
        double deadline = opt("--deadline") ? atof(opt("--deadline")) : 1e9, t0 = now(); string tier = opt("--tier") ? opt("--tier") : "quick";
        uint64_t det = 0; int rc = 0; double slowest = 0; long slowcase = -1;
        for (long i = start; i < count; i += stride) {
            if (now() - t0 > deadline) break;
            uint64_t cs = fnv(pr->id, strlen(pr->id), fnv(&i, sizeof i, fnv(&seed, sizeof seed)));
            Ctx c(cs); c.tier = tier; c.thorough = tier == "thorough"; c.index = i; g_shm->caseno = i; g_casehash = cs; g_caseno = i;
            g_viol = Violation(); g_steplimit = 0;
            double ct = now(); pr->explore(c); ct = now() - ct; if (ct > slowest) { slowest = ct; slowcase = i; } g_stats.cases++; det += fnv(&g_casehash, sizeof g_casehash);
            if (flag("--casehash")) printf("case %ld %016llx\n", i, (unsigned long long)g_casehash);
            if (failed()) {
                snprintf(g_shm->cls, sizeof g_shm->cls, "%s", g_viol.cls.c_str()); snprintf(g_shm->detail, sizeof g_shm->detail, "%s", g_viol.detail.c_str());
                g_shm->evhash = g_evhash; g_shm->fatal = 1; rc = 1;
                fprintf(stderr, "violation in case %ld: %s: %s\n", i, g_viol.cls.c_str(), g_viol.detail.c_str()); break;
            }
        }
        if (opt("--stats")) write_stats(opt("--stats"), det, now() - t0);
        else fprintf(stderr, "cases %llu runs %llu steps %llu nontrivial %zu in %.1fs\n", (unsigned long long)g_stats.cases, (unsigned long long)g_stats.runs, (unsigned long long)g_stats.steps, g_stats.nontriv.size(), now() - t0);
        fprintf(stderr, "slowest case %ld: %.2f s\n", slowcase, slowest);
        if (flag("--probes")) { for (auto &x : g_stats.probes) fprintf(stderr, "  probe %s %llu\n", x.first.c_str(), (unsigned long long)x.second); for (auto &x : g_stats.faults) fprintf(stderr, "  fault %s %llu\n", x.first.c_str(), (unsigned long long)x.second); }
        return rc;
    }
    if (cmd == "replay") {
        Plan p = Plan::parse(slurp(argv[2])); string prop = p.str("prop"); const Prop *pr = find_prop(prop); if (!pr) { fprintf(stderr, "no such property: %s\n", prop.c_str()); return 3; }
        g_verbose = flag("-v"); g_cur = pr; shm_plan(p);
        signal(SIGALRM, [](int) { if (t_harness) { const char m[] = "SLOW: in the harness\n"; (void)!write(1, m, sizeof m - 1); _exit(9); } signal(SIGALRM, SIG_DFL); raise(SIGALRM); });
        alarm(opt("--alarm") ? atoi(opt("--alarm")) : 300);
        bool ok = execute(prop, p);
        printf("%s hash=%016llx", ok ? "HELD" : "VIOLATED", (unsigned long long)g_evhash);
        if (!ok) printf(" class=%s\n%s\n", g_viol.cls.c_str(), g_viol.detail.c_str()); else printf("\n");
        if (!ok) { snprintf(g_shm->cls, sizeof g_shm->cls, "%s", g_viol.cls.c_str()); snprintf(g_shm->detail, sizeof g_shm->detail, "%s", g_viol.detail.c_str()); g_shm->evhash = g_evhash; g_shm->fatal = 1; }
        return ok ? 0 : 1;
    }
    if (cmd == "minimise") {
        Plan p = Plan::parse(slurp(argv[2])); string prop = p.str("prop"); double secs = opt("--secs") ? atof(opt("--secs")) : 60;
        Outcome o = try_plan(prop, p, 60); if (!o.bad) { printf("does not fail\n"); return 2; }
        long tried; size_t l0 = p.text().size(); Plan q = minimise(prop, p, o.cls, secs, tried);
        FILE *f = fopen(argv[3], "w"); fputs(q.text().c_str(), f); fclose(f);
        printf("minimised %zu -> %zu bytes of plan in %ld candidate runs, class %s\n", l0, q.text().size(), tried, o.cls.c_str()); return 0;
    }
    fprintf(stderr, "usage: sim explore PROP [--seed S --from A --count N --stride K --deadline SECS --tier T --stats F --shm F] | replay FILE [-v] | minimise FILE OUT [--secs S]\n");
    return 3;
}
