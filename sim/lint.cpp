// The lint tool under simulated files, standard streams, terminals and exits.
#include "sim.h"
#include <setjmp.h>
#include <getopt.h>
const char *sim_errname(int);
extern "C" int lint_main(int argc, char **argv);
// ------------------------------------------------------------------- the seam
struct LFile { string name, data; Delivery d; int open_err = 0; bool isstdin = false; };
struct LintRun {
    vector<string> args; vector<LFile> files; bool tty_out = false, tty_err = false; SimOut *out = nullptr, *err = nullptr; AllocFaults af;
    vector<std::unique_ptr<SimIn>> opened; vector<int> which; int failed_opens = 0;
    int status = -1, errs_in = 0; size_t stdin_pos = 0; bool stdin_eof = false; bool out_failed = false, err_failed = false; uint64_t nalloc = 0, fired = 0; string outs, errs;
};
static LintRun *g_lint; static jmp_buf g_lintjmp; static int g_lintstatus; static vector<void (*)()> g_atexit;
extern "C" {
void sim_exit(int st) { g_lintstatus = st & 0xff; longjmp(g_lintjmp, 1); }
void sim__exit(int st) { g_lintstatus = st & 0xff; longjmp(g_lintjmp, 2); }
void sim__Exit(int st) { sim__exit(st); }
int sim_isatty(int fd) { bool t = fd == 1 ? g_lint->tty_out : fd == 2 && g_lint->tty_err; if (!t) errno = ENOTTY; return t; }
FILE *sim_fopen(const char *name, const char *mode) {
    for (size_t i = 0; i < g_lint->files.size(); ++i) { LFile &f = g_lint->files[i]; if (f.isstdin || f.name != name) continue;
        if (f.open_err) { string k = string("open:") + sim_errname(f.open_err); fault_fired(k.c_str()); ev("fault %s %s", k.c_str(), name); g_lint->failed_opens++; errno = f.open_err; return nullptr; }
        Harness h; ev("open %s", name); g_lint->opened.emplace_back(new SimIn(f.data, f.d)); g_lint->which.push_back((int)i); return g_lint->opened.back()->f; }
    g_lint->failed_opens++; errno = ENOENT; return nullptr;
}
int sim_fileno(FILE *f) { return f == stdout ? 1 : f == stderr ? 2 : f == stdin ? 0 : 9; }
int sim_atexit(void (*f)(void)) { g_atexit.push_back(f); return 0; }
FILE *sim_fopen64(const char *n, const char *m) { return sim_fopen(n, m); }
}
static void lint_run(LintRun &L) {
    FILE *so = stdout, *se = stderr, *si = stdin; fflush(so); fflush(se); std::unique_ptr<SimIn> in; LFile none; none.isstdin = true; LFile *sf = &none; for (auto &f : L.files) if (f.isstdin) sf = &f;
    in.reset(new SimIn(sf->data, sf->d)); g_lint = &L; g_atexit.clear(); g_lintstatus = -1;
    static vector<char *> argv; argv.clear(); static vector<string> keep; keep = L.args; keep.insert(keep.begin(), "/usr/bin/cypher-lint"); for (auto &a : keep) argv.push_back(&a[0]); argv.push_back(nullptr);
    optind = 0; opterr = 1; size_t total = 0; for (auto &f : L.files) total += f.data.size();
    { Window w(&L.af, parse_budget(total)); stdin = in->f; stdout = L.out->f; stderr = L.err->f; errno = 0; int j;
      if ((j = setjmp(g_lintjmp)) == 0) { int st = lint_main((int)argv.size() - 1, argv.data()); g_lintstatus = st & 0xff; j = 1; }
      if (j == 1 && !g_atexit.empty()) { auto h = g_atexit; g_atexit.clear(); if (setjmp(g_lintjmp) == 0) while (!h.empty()) { auto f = h.back(); h.pop_back(); f(); } }
      L.nalloc = w.n(); L.fired = w.fired();
      if (j == 1) { ++t_harness; if (L.out->f) fflush(L.out->f); if (L.err->f) fflush(L.err->f); --t_harness; } }     // what exit() does
    stdin = si; stdout = so; stderr = se; L.status = g_lintstatus; L.out_failed = L.out->errs > 0; L.err_failed = L.err->errs > 0; L.errs_in = in->errs; L.stdin_pos = in->pos; L.stdin_eof = in->saw_eof; for (auto &o : L.opened) L.errs_in += o->errs;
    L.outs = L.out->data; L.errs = L.err->data;
    ev("lint status=%d out=%zu err=%zu", L.status, L.outs.size(), L.errs.size()); evh("lint-out", L.outs); evh("lint-err", L.errs);
}

// ------------------------------------------------------------- an invocation
struct Opts { bool ast = false, stream = false, colo = false, cole = false, help = false, bad = false; unsigned flags = 0, width = 0; };
struct Input { string name; bool isstdin; };
struct Invocation { LintRun L; Opts o; vector<int> order; vector<string> shown; };
static void inv_of(const Plan &p, Invocation &v) {
    LintRun &L = v.L; v.o.colo = L.tty_out = p.num("tty", 0, 0); v.o.cole = L.tty_err = p.num("tty", 0, 1);
    for (auto &a : p.all("opt")) { string s = unhex(a[0]); L.args.push_back(s); Opts &o = v.o;
        if (o.help || o.bad) continue;
        if (s == "-1") o.flags |= CYPHER_PARSE_SINGLE; else if (s == "-a" || s == "--ast") o.ast = true; else if (s == "--stream") o.stream = true;
        else if (s == "--only-statements") o.flags |= CYPHER_PARSE_ONLY_STATEMENTS; else if (s == "--colorize") o.colo = o.cole = true; else if (s == "--no-colorize") o.colo = o.cole = false;
        else if (s.compare(0, 15, "--output-width=") == 0) o.width = atoi(s.c_str() + 15); else if (s == "--help" || s == "-h" || s == "--version") o.help = true; else if (s != "--") o.bad = true; }
    for (auto &a : p.all("in")) { // in <k> file|dash|none <open errno>
        if (a.size() < 3) continue; Plan t = p.sub("f" + a[0]); LFile f; f.data = t.doc(); f.d = delivery_of(t); f.open_err = atoi(a[2].c_str()); f.isstdin = a[1] != "file"; if (f.isstdin) f.open_err = 0;
        f.name = a.size() > 3 ? a[3] : "q" + a[0] + ".cyp"; if (a[1] == "file") L.args.push_back(f.name); else if (a[1] == "dash") L.args.push_back("-");
        v.shown.push_back(f.isstdin ? "<stdin>" : f.name); L.files.push_back(f); }
    L.af = faults_of(p);
    auto out = [&](const char *n) { Args a = p.get(n); auto *o = new SimOut(a.size() > 0 ? a[0][0] : n[0] == 'o' ? 'f' : 'n', a.size() > 1 ? atoi(a[1].c_str()) : 0);
        if (a.size() > 4) { o->err_at = atol(a[2].c_str()); o->err_no = atoi(a[3].c_str()); o->err_sticky = a[4] == "sticky"; } return o; };
    L.out = out("out"); L.err = out("err");
}
static void inv_free(Invocation &v) { delete v.L.out; delete v.L.err; }
static bool has_errors(const string &doc, unsigned flags) { ParseObs o = ref_parse(doc, flags, Cfg(), true); for (auto &s : o.segs) if (!s.errs.empty()) return true; return false; }
static int ast_seg(void *ud, cypher_parse_segment_t *s) { auto *d = (std::pair<FILE *, Opts *> *)ud; cypher_parse_segment_fprint_ast(s, d->first, d->second->width, d->second->colo ? cypher_parser_ansi_colorization : nullptr, 0); return 0; }
static string ast_text(const string &doc, Opts &o) {
    Harness h; char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n);
    if (o.stream) { std::pair<FILE *, Opts *> d(f, &o); cypher_uparse_each(doc.data(), doc.size(), ast_seg, &d, nullptr, nullptr, o.flags); }
    else { cypher_parse_result_t *r = cypher_uparse(doc.data(), doc.size(), nullptr, nullptr, o.flags); cypher_parse_result_fprint_ast(r, f, o.width, o.colo ? cypher_parser_ansi_colorization : nullptr, 0); cypher_parse_result_free(r); }
    fclose(f); string s(b, n); free(b); return s;
}
static string esc2(const string &s) { return esc(s, 160); }

// ---------------------------------------------------------------------- C17
static struct { uint64_t nalloc; size_t outs, errs; int status; } g_last;
static void c17_exec(const Plan &p) {
    Invocation v; inv_of(p, v); LintRun &L = v.L; Opts &o = v.o; lint_run(L);
    g_last = {L.nalloc, L.outs.size(), L.errs.size(), L.status};
    bool fault = L.failed_opens || L.errs_in || L.out_failed || L.err_failed || L.fired, dirty = false; string why;
    if (L.failed_opens) why = "an input could not be opened"; else if (L.errs_in) why = "reading failed"; else if (L.out_failed) why = "standard output could not be written"; else if (L.err_failed) why = "standard error could not be written"; else if (L.fired) why = "an allocation failed";
    if (o.bad) { why = "the options are invalid"; fault = true; }
    if (!o.help && !o.bad) for (size_t i = 0; i < L.files.size() && !dirty; ++i) if (has_errors(L.files[i].data, o.flags)) { dirty = true; why = "input " + v.shown[i] + " has errors"; }
    if ((fault || dirty) && L.status == 0) fail("false-success", "exit status 0 although %s", why.c_str());
    else if (!fault && !dirty && L.status != 0) fail("false-failure", "exit status %d although nothing failed and no input has errors: %s", L.status, esc2(L.errs).c_str());
    else if (L.status == 0 && !o.help) {
        size_t at = 0;
        for (size_t i = 0; i < L.files.size() && !failed(); ++i) { LFile &f = L.files[i]; size_t pos = f.isstdin ? L.stdin_pos : 0; bool eof = f.isstdin ? L.stdin_eof : false, seen = f.isstdin;
            if (!f.isstdin) for (size_t k = 0; k < L.opened.size(); ++k) if (L.which[k] == (int)i) { seen = true; pos = L.opened[k]->pos; eof = L.opened[k]->saw_eof; }
            if (!seen) fail("not-checked", "exit status 0, but input %s was never opened", v.shown[i].c_str());
            else if (o.flags & CYPHER_PARSE_SINGLE) { ParseObs r = ref_parse(f.data, o.flags, Cfg(), true); if (!r.segs.empty() && pos < r.segs[0].range.end.offset) fail("not-checked", "exit status 0, but only %zu bytes of %s were read and its first segment ends at %zu", pos, v.shown[i].c_str(), r.segs[0].range.end.offset); }
            else if (!eof || pos < f.data.size()) fail("not-checked", "exit status 0, but only %zu of %zu bytes of %s were read%s", pos, f.data.size(), v.shown[i].c_str(), eof ? "" : ", and not its end");
            if (o.ast && !failed()) { string a = ast_text(f.data, o); size_t k = L.outs.find(a, at); if (k == string::npos) fail("output-missing", "exit status 0, but the AST of %s was not written: %s instead of %s", v.shown[i].c_str(), esc2(L.outs.substr(std::min(at, L.outs.size()))).c_str(), esc2(a).c_str()); else at = k + a.size(); } }
    }
    if (L.status == 0) probe("status-zero"); if (dirty) probe("input-with-errors"); if (fault) { nontrivial(fnv(p.text())); probe("fault-reached"); } inv_free(v);
}
static string clean_doc(Rng &r, unsigned flags) { static vector<string> kinds = all_kinds_docs();
    for (int i = 0; i < 20; ++i) { string d; if (r.p(.2)) d = r.pick(kinds); else if (r.p(.01)) { d = gen_giant(r, random_opts(r), 9000, true); probe("giant-document"); } else { GenOpts o = random_opts(r); o.damage = 0; o.bytes = 0; if (r.p(.1)) o.big = r.range(400, 3000); else o.max_stmts = r.range(1, 3); d = gen_doc(r, o); } if (!has_errors(d, flags & ~CYPHER_PARSE_SINGLE)) return d; }
    return r.p(.5) ? "RETURN 1;\n" : ""; }
static string any_doc(Rng &r) { static vector<string> kinds = all_kinds_docs(); if (r.p(.15)) return r.pick(kinds);
    if (r.p(.03)) { static const int ns[] = {127, 128, 254, 255, 256, 257, 511, 512, 513, 768, 1024, 2560}; string d, u = r.oneof({"!;", "bad;", "?\n;", "RETURN ;\n", "MATCH;"}); if (r.p(.3)) d = "RETURN 1;\n"; int n = ns[r.below(12)]; while (n--) d += u; probe("many-errors"); return d; }
    if (r.p(.02)) { size_t n = (r.p(.5) ? 65536 : 32768) - 40 + r.below(80); string pad; if (r.p(.5)) pad = string(n, r.p(.7) ? ' ' : '\t'); else if (r.p(.5)) pad = string(n, '\n'); else pad = "/*" + string(n, 'x') + "*/"; probe("far-error"); GenOpts o = random_opts(r); o.max_stmts = 2; string d = gen_doc(r, o); return (r.p(.3) ? d + ";" : "") + pad + r.oneof({"foo;", "RETURN ;", "MATCH (n) RETRN n;"}) + (r.p(.5) ? "\n" + d : ""); }
    if (r.p(.01)) { probe("giant-document"); return gen_giant(r, random_opts(r), 9000); } GenOpts o = random_opts(r); if (r.p(.12)) o.big = r.range(400, 3000); return gen_doc(r, o); }
static void add_opts(Plan &p, Rng &r, bool ast) {
    auto opt = [&](const string &s) { p.add("opt " + hex(s)); };
    if (r.p(.15)) p.addf("tty %d %d", r.p(.5), r.p(.5));
    if (r.p(.15)) opt("-1"); if (r.p(.2)) opt("--only-statements"); if (r.p(.15)) opt("--colorize"); if (r.p(.05)) opt("--no-colorize");
    if (ast) { opt(r.p(.5) ? "-a" : "--ast"); if (r.p(.4)) opt("--stream"); if (r.p(.3)) opt(sfmt("--output-width=%d", r.range(0, 120))); }
}
static void add_out(Plan &p, Rng &r, const char *name, long at, int no, bool sticky) { static const int bs[] = {1, 16, 100, 1024, 4096, 65536}; char m = "nffl"[r.below(4)]; if (at >= 0) p.addf("%s %c %d %ld %d %s", name, m, bs[r.below(6)], at, no, sticky ? "sticky" : "once"); else p.addf("%s %c %d", name, m, bs[r.below(6)]); }
static const int kOpen[] = {ENOENT, EACCES, EMFILE, EIO}, kRead[] = {EIO, EISDIR, ESTALE, EAGAIN, 0}, kWrite[] = {ENOSPC, EIO, EPIPE};
static void task_delivery(Plan &p, int k, const Delivery &d) { Plan t; delivery_to(t, d); for (auto &l : t.lines) p.add(sfmt("task f%d ", k) + l); }
static void c17_explore(Ctx &c) {
    Rng &r = c.rng; Plan o; o.add("prop C17"); bool ast = r.p(.55); add_opts(o, r, ast); Opts po; { Invocation v; inv_of(o, v); po = v.o; inv_free(v); }
    if (c.index % 50 == 7) { o.add("opt " + hex(r.oneof({"--help", "--version", "-h", "--nonsense", "-x", "--output-width=", "--ast=3"}))); }
    int n = r.below(4) == 0 ? 1 : r.range(1, 4), dash = r.p(.35) ? (int)r.below(n) : -1; bool none = n == 1 && dash == 0 && r.p(.6); int dirtyat = r.p(.3) ? (int)r.below(n) : -1;
    vector<string> docs; for (int i = 0; i < n; ++i) { docs.push_back(i == dirtyat ? any_doc(r) : clean_doc(r, po.flags)); o.setdoc(docs[i], sfmt("task f%d doc", i)); }
    auto make = [&](int openbad, int readbad, long at, bool sticky, bool vary) { Plan p = o;
        for (int i = 0; i < n; ++i) { p.addf("in %d %s %d", i, i == dash ? none ? "none" : "dash" : "file", i == openbad ? kOpen[r.below(4)] : 0); Delivery d = vary || i == readbad ? random_delivery(r, docs[i].size()) : Delivery(); if (i == readbad) { d.err_at = at; d.err_no = kRead[r.below(5)]; d.err_sticky = sticky; } task_delivery(p, i, d); }
        return p; };
    Plan base = make(-1, -1, 0, true, true); add_out(base, r, "out", -1, 0, true); if (!c.run(base)) return; auto b = g_last; int k = c.thorough ? 3 : 1;
    for (int rep = 0; rep < k; ++rep) {
        if (!c.run(make((int)r.below(n), -1, 0, true, true))) return;
        for (int j = 0; j < 3; ++j) { int i = (int)r.below(n); long at = j == 0 ? (long)docs[i].size() : (long)r.below(docs[i].size() + 1); Plan p = make(-1, i, at, r.p(.7), true); if (!c.run(p)) return; }
        for (int j = 0; j < 3 && b.outs; ++j) { Plan p = make(-1, -1, 0, true, r.p(.5)); long at = j == 0 ? (long)b.outs - 1 : (long)r.below(b.outs); add_out(p, r, "out", at, kWrite[r.below(3)], r.p(.6)); if (!c.run(p)) return; }
        if (b.errs) { Plan p = make(-1, -1, 0, true, false); add_out(p, r, "err", (long)r.below(b.errs), kWrite[r.below(3)], true); if (!c.run(p)) return; }
        for (int j = 0; j < 5 && b.nalloc; ++j) { Plan p = make(-1, -1, 0, true, r.p(.5)); if (j < 4) p.addf("fail %ld", (long)(j == 0 ? r.below(std::min<uint64_t>(b.nalloc, 12)) : r.below(b.nalloc))); else p.addf("failfrom %ld", (long)r.below(b.nalloc)); if (!c.run(p)) return; }
        // two kinds at once
        { Plan p = make(r.p(.3) ? (int)r.below(n) : -1, r.p(.5) ? (int)r.below(n) : -1, (long)r.below(docs[0].size() + 1), r.p(.5), true); if (b.nalloc && r.p(.5)) p.addf("fail %ld", (long)r.below(b.nalloc)); if (b.outs && r.p(.5)) add_out(p, r, "out", (long)r.below(b.outs), ENOSPC, r.p(.5)); if (!c.run(p)) return; }
    }
}

// ---------------------------------------------------------------------- C18
static void c18_exec(const Plan &p) {
    Invocation v; inv_of(p, v); LintRun &L = v.L; Opts &o = v.o; lint_run(L); string want, all; bool bad = false, errs = false; int nerr = 0; vector<string> must;
    for (size_t i = 0; i < L.files.size() && !failed(); ++i) {   // the reference: each input on its own, a file, read in one go, checked statement by statement
        Invocation w; w.L.out = new SimOut('f', 65536); w.L.err = new SimOut('f', 65536); LFile f; f.name = v.shown[i]; f.data = L.files[i].data; w.L.files.push_back(f);
        if (o.flags & CYPHER_PARSE_SINGLE) w.L.args.push_back("-1"); if (o.flags & CYPHER_PARSE_ONLY_STATEMENTS) w.L.args.push_back("--only-statements"); w.L.args.push_back(o.cole ? "--colorize" : "--no-colorize"); w.L.args.push_back(f.name);
        lint_run(w.L); want += w.L.errs; if (w.L.status) bad = true;
        Cfg c; c.color = o.cole; c.null = !o.cole; ParseObs r = ref_parse(f.data, o.flags, c, true); size_t at = 0; bool any = false;
        for (auto &s : r.segs) for (auto &e : s.errs) { ++nerr; any = true; string l = sfmt("%s:%u:%u: %s\n", f.name.c_str(), e.pos.line, e.pos.column, e.msg.c_str()); size_t k = w.L.errs.find(l, at); if (k == string::npos || (k && w.L.errs[k - 1] != '\n')) { fail("report-missing", "the error of the library <%s> is not reported: %s", esc2(l).c_str(), esc2(w.L.errs).c_str()); break; } at = k + l.size(); }
        if (!any && !w.L.errs.empty()) fail("report-invented", "the library finds no error, but the tool reports %s", esc2(w.L.errs).c_str());
        if (!failed() && any != (w.L.status != 0)) fail("status", "status %d with %s reported for a readable input", w.L.status, any ? "errors" : "no error");
        inv_free(w);
    }
    if (!failed() && L.errs != want) fail("reports-differ", "%s", diff2(L.errs, want).c_str());
    if (!failed() && bad != (L.status != 0)) fail("status-differs", "status %d, but the single inputs %s", L.status, bad ? "do not all pass" : "all pass");
    if (nerr) nontrivial(fnv(p.text())); probe("reports", nerr); if (L.files.size() > 1) probe("several-inputs"); if (o.ast && !o.stream) probe("whole-mode"); inv_free(v);
}
static void c18_explore(Ctx &c) {
    Rng &r = c.rng; int n = r.p(.5) ? 1 : r.range(2, 4); vector<string> docs; Plan o; o.add("prop C18");
    auto opt = [&](const string &s) { o.add("opt " + hex(s)); };
    if (r.p(.15)) opt("-1"); if (r.p(.2)) opt("--only-statements"); if (r.p(.2)) opt("--colorize"); if (r.p(.1)) o.addf("tty %d %d", r.p(.5), r.p(.5));
    for (int i = 0; i < n; ++i) { docs.push_back(r.p(.35) ? clean_doc(r, 0) : any_doc(r)); o.setdoc(docs[i], sfmt("task f%d doc", i)); }
    int reps = c.thorough ? 8 : 5;
    for (int k = 0; k < reps; ++k) { Plan p = o; int mode = r.below(4); if (mode >= 1) p.add("opt " + hex("--ast")); if (mode == 2) p.add("opt " + hex("--stream")); if (mode >= 1 && r.p(.3)) p.add("opt " + hex(sfmt("--output-width=%d", r.range(0, 100))));
        int dash = r.p(.4) ? (int)r.below(n) : -1; vector<int> ord; for (int i = 0; i < n; ++i) ord.push_back(i); for (int i = n - 1; i > 0; --i) std::swap(ord[i], ord[r.below(i + 1)]);
        for (int i : ord) { p.addf("in %d %s 0", i, i == dash ? n == 1 && r.p(.6) ? "none" : "dash" : "file"); task_delivery(p, i, random_delivery(r, docs[i].size())); }
        add_out(p, r, "out", -1, 0, true); if (r.p(.5)) add_out(p, r, "err", -1, 0, true); if (!c.run(p)) return; }
}
void props_lint(vector<Prop> &v) { v.push_back({"C17", c17_explore, c17_exec, "base"}); v.push_back({"C18", c18_explore, c18_exec, "base"}); }
