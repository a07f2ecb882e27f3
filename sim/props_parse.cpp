// C01-C09, C15, C16, C19: parsing under deliveries, faults, stops and restarts.
#include "sim.h"

unsigned flags_of(const Plan &p) { return (unsigned)p.num("flags", 0); }
void flags_to(Plan &p, unsigned f) { if (f) p.addf("flags %u", f); }
static uint64_t plankey(const Plan &p) { return fnv(p.text()); }
static const unsigned ONLY = CYPHER_PARSE_ONLY_STATEMENTS, SINGLE = CYPHER_PARSE_SINGLE;
static Plan newplan(const char *id) { Plan p; p.addf("prop %s", id); return p; }
static size_t abs_end(const SegObs &s, const Cfg &c) { return s.range.end.offset - c.off; }
static ParseSpec spec_of(const Plan &p) {
    ParseSpec s; s.doc = p.doc(); s.flags = flags_of(p); s.cfg = cfg_of(p); s.stream = p.has("stream"); s.d = delivery_of(p); s.af = faults_of(p); return s;
}
static string segs_text(const vector<SegObs> &v, bool ctx) { string r; for (auto &s : v) r += s.text(ctx); return r; }
static vector<SegObs> head(const vector<SegObs> &v, size_t n) { return vector<SegObs>(v.begin(), v.begin() + std::min(n, v.size())); }
static unsigned random_flags(Rng &r) { return (r.p(.2) ? ONLY : 0); }
static int g_giants = 1;   // in 300
// documents used by most explorers: mostly short, sometimes crossing the parser's refill sizes
static string some_doc(Rng &r, int bigp = 12) {
    static vector<string> kinds = all_kinds_docs();
    if (r.below(300) < (uint64_t)g_giants) { probe("giant-document"); return gen_giant(r, random_opts(r), 9000); }
    if (r.p(.02)) return oddify(r, r.pick(kinds));
    if (r.p(.04)) return decorate(r, r.pick(kinds), r.p(.5) ? .1 : .8);
    if (r.p(.10)) return r.pick(kinds) + (r.p(.5) ? "\n" + r.pick(kinds) : "");
    if (r.below(100) < (uint64_t)bigp) { GenOpts o = random_opts(r); static const int sz[] = {400, 600, 1100, 1600, 2600, 5000}; o.big = sz[r.below(6)]; return gen_doc(r, o); }
    return gen_doc(r, random_opts(r));
}
// one case in `per` uses a document that exceeds the usual limits in one dimension
static bool giant_case(Ctx &c, string &doc, int per) { if (c.index % per != per / 2) return false; static const size_t m[] = {1100, 9000, 40000, 70000, 70000}; size_t max = m[c.rng.below(c.thorough ? 5 : 5)]; doc = gen_giant(c.rng, random_opts(c.rng), max); if (max > 60000) probe("document-beyond-64k"); probe("giant-document"); if (getenv("SIM_DUMP")) { FILE *f = fopen(getenv("SIM_DUMP"), "w"); fwrite(doc.data(), 1, doc.size(), f); fclose(f); } return true; }
static vector<size_t> line_starts(const string &d) { vector<size_t> v{0}; for (size_t i = 0; i < d.size(); ++i) if (d[i] == '\n') v.push_back(i + 1); return v; }
static void quick_vs(const QuickObs &got, const QuickObs &want, const char *cls, const char *what) {
    if (got.text() != want.text()) fail(cls, "%s: %s", what, diff2(got.text(), want.text()).c_str());
}

// ---------------------------------------------------------------------- C01
static void c01_exec(const Plan &p) {
    ParseSpec s = spec_of(p); s.stream = true; string doc = s.doc;
    ParseObs mem = ref_parse(doc, s.flags, s.cfg, false), st = ref_parse(doc, s.flags, s.cfg, true);
    SimIn in(doc, s.d); s.in = &in; ParseObs got = run_parse(s);
    if (mem.rc || got.rc) { fail("parse-failed", "fault-free parse returned %d from memory, %d from the stream (errno %d)", mem.rc, got.rc, got.err); return; }
    if (got.text(false) != mem.text(false)) { fail("stream-differs-from-memory", "%s", diff2(got.text(false), mem.text(false)).c_str()); return; }
    if (got.text(true) != st.text(true)) { fail("deliveries-differ", "%s", diff2(got.text(true), st.text(true)).c_str()); return; }
    // the whole-input call sees the same input
    if (p.has("whole")) {
        LeakCheck lc; ParseSpec m = s; m.stream = false; m.in = nullptr; ParseObs o1, o2; SimIn in2(doc, s.d); ParseSpec s2 = s; s2.in = &in2;
        cypher_parse_result_t *a = run_parse_result(m, o1), *b = run_parse_result(s2, o2);
        if (!a || !b) fail("parse-failed", "fault-free whole parse failed (memory %s, stream %s)", a ? "ok" : "failed", b ? "ok" : "failed");
        else { ResultObs x = snap_result(a), y = snap_result(b);
            if (x.trees + x.print != y.trees + y.print || x.nnodes != y.nnodes || x.eof != y.eof || x.dirs != y.dirs || x.nerrs != y.nerrs) fail("stream-differs-from-memory", "whole result: %s", diff2(y.trees + y.print, x.trees + x.print).c_str());
            else if (!poseq(o1.last, o2.last) || o1.lastset != o2.lastset) fail("stream-differs-from-memory", "whole result: last position %s instead of %s", posstr(o2.last).c_str(), posstr(o1.last).c_str()); }
        cypher_parse_result_free(a); cypher_parse_result_free(b);
    }
    if (in.nreads > 1 && got.segs.size() > 0) nontrivial(plankey(p));
    if (doc.size() > 1024) probe("input-beyond-first-buffer"); if (doc.size() > 4096) probe("input-beyond-4096");
    if (got.segs.size() > 1) probe("multi-segment");
    for (auto &g : got.segs) if (!g.errs.empty()) { probe("segment-with-errors"); break; }
}
static void c01_explore(Ctx &c) {
    Rng &r = c.rng; string doc = some_doc(r, 30); bool giant = giant_case(c, doc, 60);
    if (c.index % 97 == 0) { GenOpts o = random_opts(r); o.big = c.thorough ? 60000 : 12000; doc = gen_doc(r, o); }
    unsigned fl = random_flags(r) | (r.p(.08) ? SINGLE : 0); Cfg cfg = random_cfg(r); int n = giant ? 1 : doc.size() > 5000 ? 2 : c.thorough ? 10 : 5;
    for (int i = 0; i < n; ++i) { Plan p = newplan("C01"); p.setdoc(doc); flags_to(p, fl); cfg_to(p, cfg); delivery_to(p, random_delivery(r, doc.size())); if (i == 0 && r.p(.5)) p.add("whole"); if (!c.run(p)) return; }
}

// ---------------------------------------------------------------------- C02
static bool segment_determined(const string &t, unsigned flags) {
    static map<string, bool> memo; if (memo.size() > 20000) memo.clear(); string k = sfmt("%u|", flags & ONLY) + t; auto m = memo.find(k); if (m != memo.end()) return m->second;
    uint64_t h = g_evhash; bool v = g_verbose, ok = true; g_verbose = false; Harness hs;
    string first; for (const char *x : {"", "'", "\"", "`", "*/", "';", "\n", "\\x", "\nMATCH (n)", "*/MATCH (n)"}) { ParseSpec q; q.doc = t + x; q.flags = flags & ONLY; q.cb = {1}; ParseObs o = run_parse(q); string s = o.segs.size() == 1 && o.segs[0].range.end.offset == t.size() && !o.segs[0].eof ? o.segs[0].text(false) : "?"; if (!*x) first = s; if (s == "?" || s != first) { ok = false; break; } }
    g_evhash = h; g_verbose = v; return memo[k] = ok;
}
// Which segments of a parse are fully determined by the bytes up to their own end: no continuation of the input
// could make them different (an unclosed quote, quoted name or comment leaves a segment open although it contains
// a terminator: the parser has to look for the closing one first).
static const vector<bool> &determined(const string &doc, unsigned flags, const Cfg &cfg, const ParseObs &ref) {
    static map<string, vector<bool>> memo; string key = sfmt("%u|%u|%u|%zu|%u|%d|%d|", flags, cfg.line, cfg.col, cfg.off, cfg.ord, cfg.color, cfg.null) + doc; auto it = memo.find(key); if (it != memo.end()) return it->second;
    if (memo.size() > 200) memo.clear(); uint64_t h = g_evhash; bool v = g_verbose; g_verbose = false; vector<bool> r; size_t a = 0;
    for (auto &g : ref.segs) { size_t e = abs_end(g, cfg); string t = doc.substr(a, e - a); a = e; bool ok = !g.eof;
        if (ok) ok = segment_determined(t, flags);
        r.push_back(ok); }
    g_evhash = h; g_verbose = v; return memo[key] = r;
}
static size_t leading(const vector<bool> &det, const ParseObs &ref, const Cfg &cfg, size_t upto) { size_t n = 0; while (n < det.size() && det[n] && abs_end(ref.segs[n], cfg) <= upto) ++n; return n; }
static const vector<bool> &qdetermined(const string &doc, unsigned flags, const QuickObs &ref) {
    static map<string, vector<bool>> memo; string key = sfmt("%u|", flags) + doc; auto it = memo.find(key); if (it != memo.end()) return it->second; if (memo.size() > 200) memo.clear(); uint64_t h = g_evhash; bool v = g_verbose; g_verbose = false; vector<bool> r; size_t a = 0;
    for (auto &g : ref.segs) { size_t e = g.next.offset; string t = doc.substr(a, e - a); a = e; bool ok = !g.eof; string first;
        if (ok) for (const char *x : {"", "'", "\"", "`", "*/", "';", "\n", "\\x"}) { QuickSpec q; q.doc = t + x; q.flags = flags & ~SINGLE; q.cb = {1}; QuickObs o = run_quick(q); string s = o.segs.size() == 1 && o.segs[0].next.offset == t.size() && !o.segs[0].eof ? o.segs[0].str() : "?"; if (!*x) first = s; if (s == "?" || s != first) { ok = false; break; } }
        r.push_back(ok); }
    g_evhash = h; g_verbose = v; return memo[key] = r;
}
static size_t qleading(const vector<bool> &det, const QuickObs &ref, size_t upto) { size_t n = 0; while (n < det.size() && det[n] && ref.segs[n].next.offset <= upto) ++n; return n; }
// where the first statement or command of plain text (nothing quoted, escaped or commented) from `a` on ends: past its
// terminator, known from the bytes alone; npos if the text is not plain up to there, or holds no terminator
static size_t plain_end(const string &d, size_t a, unsigned flags) {
    while (a < d.size() && d[a] && strchr(" \t\r\n", d[a])) ++a;
    if (a < d.size() && d[a] == ':' && !(flags & ONLY)) {
        size_t i = a + 1; if (i >= d.size() || !isalnum((unsigned char)d[i])) return string::npos;
        for (; i < d.size(); ++i) { if (d[i] == ';' || d[i] == '\n') return i + 1; if (d[i] == '\r' && i + 1 < d.size() && d[i + 1] == '\n') return i + 2; if (!isalnum((unsigned char)d[i]) && d[i] != ' ' && d[i] != '\t') return string::npos; }
        return string::npos; }
    for (size_t i = a; i < d.size(); ++i) { if (d[i] == ';') return i + 1; if (!d[i] || strchr("'\"`/\\", d[i]) || !strncasecmp(d.c_str() + i, "cypher", 6)) return string::npos; }
    return string::npos;
}
static void c02_exec(const Plan &p) {
    ParseSpec s = spec_of(p); s.stream = true; string mode = p.str("mode", "each");
    if (mode == "each") {
        ParseObs ref = ref_parse(s.doc, s.flags, s.cfg, false); size_t stalls = 0, held = 0; const vector<bool> &det = determined(s.doc, s.flags, s.cfg, ref); for (bool d : det) probe(d ? "segments-determined" : "segments-open");
        s.on_request = [&](size_t pos, const ParseObs &o) {
            ++stalls; size_t due = leading(det, ref, s.cfg, pos);
            if (due) ++held;
            if (due > o.segs.size()) fail("withheld", "%zu segment(s) were complete after %zu bytes, but %zu had been delivered when more input was requested", due, pos, o.segs.size());
            size_t at = o.segs.empty() ? 0 : abs_end(o.segs.back(), s.cfg), e = plain_end(s.doc.substr(0, pos), at, s.flags);
            if (e != string::npos) fail("withheld", "the statement or command that ends at byte %zu had not been delivered when more input was requested after byte %zu", e, pos);
        };
        SimIn in(s.doc, s.d); s.in = &in; ParseObs got = run_parse(s);
        if (failed()) return;
        if (got.text(false) != ref.text(false)) { fail("stream-differs-from-memory", "%s", diff2(got.text(false), ref.text(false)).c_str()); return; }
        if (held > 0) nontrivial(plankey(p)); probe("read-requests", stalls); if (held) probe("requests-after-a-complete-segment", held);
    } else if (mode == "single") {
        ParseObs ref = ref_parse(s.doc, s.flags & ~SINGLE, s.cfg, true);
        const vector<bool> &det = determined(s.doc, s.flags & ~SINGLE, s.cfg, ref); bool open = false;
        Delivery d = s.d; d.bufmode = 'n'; SimIn in(s.doc, d); vector<SegObs> all; Cfg c = s.cfg; c.null = false; int calls = 0; cypher_input_position last{}; bool lastset = false;
        for (;;) {
            ParseSpec q = s; q.in = &in; q.flags |= SINGLE; q.cfg = c; size_t before = in.pos; ParseObs o = run_parse(q); ++calls;
            if (o.rc) { fail("parse-failed", "single parse %d returned %d", calls, o.rc); return; }
            if (o.segs.size() > 1) { fail("single-many", "a single-segment parse delivered %zu segments", o.segs.size()); return; }
            if (o.segs.empty()) break;
            if (!o.lastset || !poseq(o.last, o.segs[0].range.end)) { fail("last-position", "single parse reported %s, its segment ended at %s", posstr(o.last).c_str(), posstr(o.segs[0].range.end).c_str()); return; }
            last = o.last; lastset = true; all.push_back(o.segs[0]); SegObs &g = all.back(); size_t used = in.pos - before, len = g.range.end.offset - g.range.start.offset;
            { size_t e = plain_end(s.doc, before, s.flags); if (e < in.pos) { fail("over-read", "single-segment parse %d left the stream at byte %zu, the statement or command ends at %zu", calls, in.pos, e); return; } }
            if (g.eof) break;
            if (det.size() < all.size() || !det[all.size() - 1]) { probe("single-parse-of-open-segment"); open = true; break; }
            if (used != len) { fail("over-read", "single-segment parse %d consumed %zu bytes of the stream for a segment of %zu bytes", calls, used, len); return; }
            c.line = o.last.line; c.col = o.last.column; c.off = o.last.offset; c.ord += g.nnodes;
            if (calls > 4000) { fail("no-progress", "more than 4000 single-segment parses"); return; }
        }
        ParseObs sum; sum.segs = all; sum.last = last; sum.lastset = lastset;
        if (open) { if (segs_text(all, false) != segs_text(head(ref.segs, all.size()), false)) fail("singles-differ-from-whole", "%s", diff2(segs_text(all, false), segs_text(head(ref.segs, all.size()), false)).c_str()); }
        else if (sum.text(false) != ref.text(false)) { fail("singles-differ-from-whole", "%s", diff2(sum.text(false), ref.text(false)).c_str()); return; }
        if (calls > 1) nontrivial(plankey(p)); probe("single-parses", calls);
    } else if (mode == "quick") {
        QuickObs ref = ref_quick(s.doc, s.flags & ~SINGLE); QuickSpec q; q.doc = s.doc; q.flags = s.flags & ~SINGLE; q.stream = true; q.d = s.d; size_t held = 0; const vector<bool> &det = qdetermined(s.doc, s.flags, ref);
        q.on_request = [&](size_t pos, const QuickObs &o) { size_t due = qleading(det, ref, pos); if (due) ++held;
            if (due > o.segs.size()) fail("withheld", "%zu quick segment(s) were complete after %zu bytes, but %zu had been delivered when more input was requested", due, pos, o.segs.size());
            size_t e = plain_end(s.doc.substr(0, pos), o.segs.empty() ? 0 : o.segs.back().next.offset, q.flags); if (e != string::npos) fail("withheld", "the quick parser had not delivered the statement or command that ends at byte %zu when more input was requested after byte %zu", e, pos); };
        SimIn in(s.doc, s.d); q.in = &in; QuickObs got = run_quick(q); if (failed()) return; quick_vs(got, ref, "stream-differs-from-memory", "quick parse");
        if (held > 0) nontrivial(plankey(p)); if (held) probe("requests-after-a-complete-segment", held);
    } else { // quicksingle
        QuickObs ref = ref_quick(s.doc, s.flags & ~SINGLE); Delivery d = s.d; d.bufmode = 'n'; SimIn in(s.doc, d); size_t k = 0;
        for (int calls = 0; calls < 4000; ++calls) {
            QuickSpec q; q.doc = s.doc; q.flags = s.flags | SINGLE; q.stream = true; q.in = &in; size_t before = in.pos; QuickObs o = run_quick(q);
            if (o.rc) { fail("parse-failed", "single quick parse returned %d", o.rc); return; }
            if (o.segs.size() > 1) { fail("single-many", "a single quick parse delivered %zu segments", o.segs.size()); return; }
            if (o.segs.empty()) break;
            if (k >= ref.segs.size()) { fail("singles-differ-from-whole", "single quick parses deliver more than the %zu segments of the whole", ref.segs.size()); return; }
            QSeg &g = o.segs[0]; const QSeg &w = ref.segs[k];
            if (g.text != w.text || g.stmt != w.stmt || g.eof != w.eof || before + g.range.start.offset != w.range.start.offset) { fail("singles-differ-from-whole", "quick segment %zu: <%s> instead of <%s>", k, esc(g.str()).c_str(), esc(w.str()).c_str()); return; }
            if (in.pos != w.next.offset) { fail("over-read", "single quick parse of segment %zu left the stream at byte %zu, the segment ends at %zu", k, in.pos, w.next.offset); return; }
            { size_t e = plain_end(s.doc, before, s.flags); if (e < in.pos) { fail("over-read", "single quick parse %zu left the stream at byte %zu, the statement or command ends at %zu", k, in.pos, e); return; } }
            ++k; if (g.eof) break;
        }
        if (k < ref.segs.size()) { fail("singles-differ-from-whole", "single quick parses deliver %zu of %zu segments", k, ref.segs.size()); return; }
        if (k > 1) nontrivial(plankey(p));
    }
}
static void c02_explore(Ctx &c) {
    Rng &r = c.rng; string doc = some_doc(r, 15); unsigned fl = random_flags(r); Cfg cfg = random_cfg(r);
    for (const char *m : {"each", "single", "quick", "quicksingle"}) for (int i = 0; i < (c.thorough ? 3 : 1); ++i) {
        Plan p = newplan("C02"); p.addf("mode %s", m); p.setdoc(doc); flags_to(p, fl); cfg_to(p, cfg); Delivery d = random_delivery(r, doc.size()); if (r.p(.6)) { d = Delivery(); if (r.p(.5)) d.chunks = {1}; } delivery_to(p, d); if (!c.run(p)) return; }
}

// ---------------------------------------------------------------------- C03
static void check_failed_prefix(const ParseObs &o, const ParseObs &ref, bool ctx, const char *what) {
    if (o.segs.size() > ref.segs.size() || segs_text(o.segs, ctx) != segs_text(head(ref.segs, o.segs.size()), ctx))
        fail("not-a-prefix", "%s: the segments delivered before the failure are not a prefix of a failure-free run: %s", what, diff2(segs_text(o.segs, ctx), segs_text(head(ref.segs, o.segs.size()), ctx)).c_str());
}
static void c03_exec(const Plan &p) {
    ParseSpec s = spec_of(p); string mode = p.str("mode", "each");
    if (mode == "quick") {
        QuickObs ref = ref_quick(s.doc, s.flags); LeakCheck lc; QuickSpec q; q.doc = s.doc; q.flags = s.flags; q.stream = s.stream; q.d = s.d; q.af = s.af; QuickObs o = run_quick(q);
        if (o.rc == 0) { if (o.text() != ref.text()) { fail("success-but-wrong", "quick parse with a failed allocation returned 0: %s", diff2(o.text(), ref.text()).c_str()); return; } }
        else if (!o.fired) { fail("failed-without-fault", "quick parse returned %d", o.rc); return; }
        else if (o.rc != -1 || o.err != ENOMEM) { fail("wrong-error", "quick parse with a failed allocation returned %d, errno %d", o.rc, o.err); return; }
        else { for (size_t i = 0; i < o.segs.size(); ++i) if (i >= ref.segs.size() || o.segs[i].str() != ref.segs[i].str()) { fail("not-a-prefix", "quick segment %zu differs from the failure-free run", i); return; } }
        if (!lc.check("quick parse")) return; if (o.fired) nontrivial(plankey(p));
        q.af = AllocFaults(); QuickObs again = run_quick(q); quick_vs(again, ref, "no-recovery", "quick parse after a failed one"); lc.check("quick parse"); return;
    }
    ParseObs ref = ref_parse(s.doc, s.flags, s.cfg, s.stream);
    if (mode == "each") {
        LeakCheck lc; ParseObs o = run_parse(s);
        if (o.rc == 0) { if (o.text(true) != ref.text(true)) { fail("success-but-wrong", "parse with a failed allocation returned 0: %s", diff2(o.text(true), ref.text(true)).c_str()); return; } }
        else if (!o.fired) { fail("failed-without-fault", "parse returned %d, errno %d", o.rc, o.err); return; }
        else if (o.rc != -1 || o.err != ENOMEM) { fail("wrong-error", "parse with a failed allocation returned %d, errno %d", o.rc, o.err); return; }
        else { check_failed_prefix(o, ref, true, "each"); if (failed()) return; }
        if (!lc.check("parse")) return; if (o.fired) { nontrivial(plankey(p)); if (!o.segs.empty()) probe("failed-after-delivering"); if (o.rc == 0) probe("fault-tolerated"); }
        s.af = AllocFaults(); ParseObs again = run_parse(s); if (again.text(true) != ref.text(true)) fail("no-recovery", "parse after a failed one: %s", diff2(again.text(true), ref.text(true)).c_str());
        lc.check("parse");
    } else {
        ResultObs want; { static map<string, ResultObs> memo; string k = s.doc + sfmt("|%u|%d|%u|%u|%zu|%u|%d|%d", s.flags, s.stream, s.cfg.line, s.cfg.col, s.cfg.off, s.cfg.ord, s.cfg.color, s.cfg.null); auto it = memo.find(k);
            if (it == memo.end()) { if (memo.size() > 50) memo.clear(); uint64_t h = g_evhash; bool v = g_verbose; g_verbose = false; ParseSpec q = s; q.af = AllocFaults(); q.d = Delivery(); ParseObs o; auto *r = run_parse_result(q, o); if (!r) { fail("failed-without-fault", "whole parse failed"); return; } it = memo.emplace(k, snap_result(r)).first; cypher_parse_result_free(r); g_evhash = h; g_verbose = v; } want = it->second; }
        LeakCheck lc; ParseObs o; cypher_parse_result_t *r = run_parse_result(s, o);
        if (r) { ResultObs x = snap_result(r); if (x.trees + x.print != want.trees + want.print || x.nnodes != want.nnodes || x.nerrs != want.nerrs || x.dirs != want.dirs || x.eof != want.eof) fail("success-but-wrong", "whole parse with a failed allocation succeeded: %s", diff2(x.trees + x.print, want.trees + want.print).c_str()); { Harness h; cypher_parse_result_free(r); } }
        else if (!o.fired) fail("failed-without-fault", "whole parse failed, errno %d", o.err);
        else if (o.err != ENOMEM) fail("wrong-error", "whole parse with a failed allocation set errno %d", o.err);
        if (failed() || !lc.check("whole parse")) return; if (o.fired) nontrivial(plankey(p));
        s.af = AllocFaults(); ParseObs o2; r = run_parse_result(s, o2); if (!r) { fail("no-recovery", "whole parse after a failed one failed"); return; } ResultObs y = snap_result(r); if (y.trees + y.print != want.trees + want.print) fail("no-recovery", "whole parse after a failed one differs"); { Harness h; cypher_parse_result_free(r); } lc.check("whole parse");
    }
}
// runs `make(plan)` over a sweep of single allocation failures, and a few multi-failure schedules
// (`sites`: which allocations come from the same place; every place gets its turn before any is repeated)
static bool sweep_allocs(Ctx &c, uint64_t n, size_t maxpoints, const std::function<Plan()> &base, const vector<uint64_t> &sites = {}) {
    Rng &r = c.rng; vector<uint64_t> pts;
    if (n > maxpoints && sites.size() == n) { map<uint64_t, size_t> id; vector<vector<uint64_t>> at; for (uint64_t i = 0; i < n; ++i) { auto x = id.emplace(sites[i], at.size()); if (x.second) at.push_back({}); at[x.first->second].push_back(i); }
        for (size_t i = at.size(); i > 1; --i) std::swap(at[i - 1], at[r.below(i)]); std::set<uint64_t> s; for (size_t k = 0; k < at.size() && s.size() < maxpoints * 3 / 4; ++k) s.insert(r.p(.5) ? at[k][0] : r.p(.3) ? at[k].back() : r.pick(at[k])); for (size_t k = 0; s.size() < maxpoints && k < maxpoints * 3; ++k) s.insert(r.below(n)); pts.assign(s.begin(), s.end()); probe("allocation-sites", at.size()); }
    else if (n <= maxpoints) for (uint64_t i = 0; i < n; ++i) pts.push_back(i);
    else { std::set<uint64_t> s; uint64_t off = r.below(n); for (size_t k = 0; s.size() < maxpoints && k < maxpoints * 3; ++k) s.insert(k < maxpoints * 3 / 4 ? (off + k * (n / maxpoints + 1) + r.below(n / maxpoints + 1)) % n : r.below(n)); pts.assign(s.begin(), s.end()); }
    for (uint64_t i : pts) { Plan p = base(); p.addf("fail %llu", (unsigned long long)i); if (!c.run(p)) return false; }
    for (int k = 0; k < 3 && n; ++k) { Plan p = base(); uint64_t i = r.below(n); switch (k) { case 0: p.addf("failfrom %llu", (unsigned long long)i); break; case 1: p.addf("fail %llu %llu", (unsigned long long)i, (unsigned long long)(i + 1 + r.below(6))); break; default: p.addf("failbig %d", (int)(1 << r.range(4, 12))); } if (!c.run(p)) return false; }
    return true;
}
// documents that make each of the parsers' buffers grow, more than once
static vector<string> growth_docs() {
    auto rep = [](const string &s, int n) { string o; for (int i = 0; i < n; ++i) o += s; return o; };
    return {"return" + rep("\n", 40) + "1;\nreturn 2 as b;", "return '" + rep("line\n", 20) + "', 2 as a;\nreturn \"" + rep("\n", 20) + "\";", "/* " + rep("c\n", 20) + "*/ return 1; // x\nreturn 3;",
        rep("// c\r\n", 20) + "return 1\n" + rep("// d\n", 20) + ", 2;", "return '" + string(2500, 'x') + "', `" + string(1200, 'y') + "`;", "return [1" + rep(", 1", 150) + "];", rep("return 1;\n", 40), rep("match (;", 20), rep("foo 1\n;", 10) + "return 1;",
        ":play" + rep(" a", 40) + "\n:help \\\n" + rep("b \\\n", 12) + "c\nreturn 1;", "match (n) where n.a" + rep(" and n.a", 40) + " return n;", "create (a)" + rep("-[:R]->(b {c: 'd'})", 12) + ";", "return 'a" + rep("\\n", 40) + "';", rep("profile match (a) return a; ", 12),
        "match (a" + rep(":L", 40) + ") return a;", "return {a: 1" + rep(", a: 1", 30) + "};", "return 1" + rep(" union return 1", 20) + ";", "cypher" + rep(" a=b", 20) + " return 1;",
        // operators of every precedence, pending at once
        "return a or b xor c and not d = e < f + g * h ^ -i =~ j;", "return a or b xor c and not d = e < f + g * h ^ i =~ j ^ k * l + m < n = o and p xor q or r;", "return a or b xor c and not d = e < f + g * h ^ i =~ [a or b xor c and not d = e < f + g * h ^ i =~ j];"};
}
static void c03_explore(Ctx &c) {
    Rng &r = c.rng; static vector<string> kinds = [] { vector<string> v = all_kinds_docs(), g = growth_docs(); v.insert(v.begin(), g.begin(), g.end()); return v; }(); string doc = c.index < (long)kinds.size() ? kinds[c.index] : some_doc(r, 10);
    unsigned fl = random_flags(r); Cfg cfg = random_cfg(r); bool stream = r.p(.4); Delivery d; if (stream) d = random_delivery(r, doc.size());
    size_t maxp = c.thorough ? 5000 : c.index < (long)kinds.size() ? 150 : 45;
    for (const char *m : {"each", "result", "quick"}) {
        auto base = [&] { Plan p = newplan("C03"); p.addf("mode %s", m); p.setdoc(doc); flags_to(p, fl); cfg_to(p, cfg); if (stream) { p.add("stream"); delivery_to(p, d); } return p; };
        ParseSpec s = spec_of(base()); uint64_t n; vector<uint64_t> sites; { uint64_t h = g_evhash; g_allocsites = &sites; if (!strcmp(m, "quick")) { QuickSpec q; q.doc = s.doc; q.flags = s.flags; q.stream = s.stream; q.d = s.d; n = run_quick(q).nalloc; } else if (!strcmp(m, "each")) n = run_parse(s).nalloc; else { ParseObs o; auto *res = run_parse_result(s, o); n = o.nalloc; cypher_parse_result_free(res); } g_allocsites = nullptr; g_evhash = h; }
        sites.resize(std::min<size_t>(sites.size(), n)); if (!sweep_allocs(c, n, !strcmp(m, "each") ? maxp : maxp / 3 + 10, base, sites)) return;
    }
}

// ---------------------------------------------------------------------- C04
static void c04_exec(const Plan &p) {
    ParseSpec s = spec_of(p); s.stream = true; string mode = p.str("mode", "each"); LeakCheck lc0;
    if (mode == "quick") {
        QuickObs ref = ref_quick(s.doc, s.flags); LeakCheck lc; QuickSpec q; q.doc = s.doc; q.flags = s.flags; q.stream = true; SimIn in(s.doc, s.d); q.in = &in; QuickObs o = run_quick(q);
        if (!in.errs) { quick_vs(o, ref, "wrong-without-error", "quick parse whose error was never reached"); return; }
        size_t want = qleading(qdetermined(s.doc, s.flags, ref), ref, s.d.err_at), most = 0; for (auto &g : ref.segs) if (!g.eof && (long)g.next.offset <= s.d.err_at) ++most;
        if (o.rc == 0) { fail("error-as-eof", "the stream failed at byte %ld but the quick parse returned 0 (%zu segments)", s.d.err_at, o.segs.size()); return; }
        if (o.rc != -1 || o.err != (s.d.err_no ? s.d.err_no : EIO)) { fail("wrong-error", "the stream failed with errno %d; the quick parse returned %d, errno %d", s.d.err_no, o.rc, o.err); return; }
        if (o.segs.size() < want || o.segs.size() > most) { fail(o.segs.size() > most ? "delivered-incomplete" : "lost-complete", "%zu quick segments were complete before the error, %zu were delivered", want, o.segs.size()); return; }
        for (size_t i = 0; i < o.segs.size(); ++i) if (o.segs[i].str() != ref.segs[i].str()) { fail("changed", "quick segment %zu differs from the error-free run", i); return; }
        lc.check("quick parse"); nontrivial(plankey(p)); return;
    }
    ParseObs ref = ref_parse(s.doc, s.flags, s.cfg, true); LeakCheck lc; SimIn in(s.doc, s.d); s.in = &in; ParseObs o;
    if (mode == "each") o = run_parse(s);
    else { cypher_parse_result_t *r = run_parse_result(s, o); if (r) { Harness h; cypher_parse_result_free(r); } }
    if (!in.errs) { if (o.rc || (mode == "each" && o.text(true) != ref.text(true))) fail("wrong-without-error", "the error was never reached, yet: rc %d %s", o.rc, diff2(o.text(true), ref.text(true)).c_str()); lc.check("parse"); return; }
    size_t want = leading(determined(s.doc, s.flags, s.cfg, ref), ref, s.cfg, s.d.err_at), most = 0; for (auto &g : ref.segs) if (!g.eof && (long)abs_end(g, s.cfg) <= s.d.err_at) ++most;
    if (o.rc == 0) { fail("error-as-eof", "the stream failed at byte %ld (errno %d) but the parse reported success", s.d.err_at, s.d.err_no); return; }
    if (o.rc != -1 || o.err != (s.d.err_no ? s.d.err_no : EIO)) { fail("wrong-error", "the stream failed with errno %d; the parse returned %d, errno %d", s.d.err_no, o.rc, o.err); return; }
    if (mode == "each") {
        if (o.segs.size() < want || o.segs.size() > most) { fail(o.segs.size() > most ? "delivered-incomplete" : "lost-complete", "%zu segments were complete before the error at byte %ld, %zu were delivered", want, s.d.err_at, o.segs.size()); return; }
        size_t n = o.segs.size(); if (segs_text(o.segs, true) != segs_text(head(ref.segs, n), true)) { fail("changed", "segments before the error differ from the error-free run: %s", diff2(segs_text(o.segs, true), segs_text(head(ref.segs, n), true)).c_str()); return; }
    }
    if (!lc.check("parse")) return; nontrivial(plankey(p)); if (want) probe("error-after-complete-segments"); if (s.d.err_at == (long)s.doc.size()) probe("error-instead-of-eof");
    if (!s.d.err_sticky) probe("transient-error");
}
static void c04_explore(Ctx &c) {
    Rng &r = c.rng; string doc = some_doc(r, 8); unsigned fl = random_flags(r) | (r.p(.1) ? SINGLE : 0); Cfg cfg = random_cfg(r); static const int errs[] = {EIO, EINTR, EAGAIN, ESTALE, 0};   // 0: the stream fails without saying why
    size_t maxp = c.thorough ? 400 : 40; vector<long> pts; if (doc.size() + 1 <= maxp) for (size_t i = 0; i <= doc.size(); ++i) pts.push_back(i); else { for (size_t i = 0; i < maxp; ++i) pts.push_back(r.below(doc.size() + 1)); pts.push_back(0); pts.push_back(doc.size()); for (auto &g : ref_parse(doc, fl, cfg, false).segs) if (pts.size() < 2 * maxp) { pts.push_back(abs_end(g, cfg)); pts.push_back(abs_end(g, cfg) ? abs_end(g, cfg) - 1 : 0); } }
    for (long k : pts) { Plan p = newplan("C04"); p.addf("mode %s", r.p(.5) ? "each" : r.p(.5) ? "result" : "quick"); p.setdoc(doc); flags_to(p, fl); cfg_to(p, cfg);
        Delivery d = r.p(.4) ? random_delivery(r, doc.size()) : Delivery(); d.err_at = k; d.err_no = errs[r.below(5)]; d.err_sticky = r.p(.5); delivery_to(p, d); if (!c.run(p)) return; }
}

// ---------------------------------------------------------------------- C05
static void c05_exec(const Plan &p) {
    ParseSpec s = spec_of(p); string mode = p.str("mode", "each"); size_t k = p.num("trunc", 0); k = std::min(k, s.doc.size()); string whole = s.doc;
    if (mode == "quick") {
        QuickObs ref = ref_quick(whole, s.flags); QuickSpec q; q.flags = s.flags; q.stream = s.stream; q.d = s.d; q.doc = s.stream ? whole : whole.substr(0, k); if (!s.stream) q.d.eof_at = -1; QuickObs o = run_quick(q);
        if (o.rc) { fail("parse-failed", "quick parse of the truncated input returned %d", o.rc); return; }
        size_t want = qleading(qdetermined(whole, s.flags, ref), ref, k);
        for (size_t i = 0; i < want; ++i) if (i >= o.segs.size() || o.segs[i].str() != ref.segs[i].str()) { fail("completed-changed", "quick segment %zu, complete before the cut at %zu: %s", i, k, diff2(i < o.segs.size() ? o.segs[i].str() : "", ref.segs[i].str()).c_str()); return; }
        for (size_t i = 0; i + 1 < o.segs.size(); ++i) if (o.segs[i].eof) { fail("eof-not-last", "quick segment %zu of %zu is marked as ended by the end of input", i, o.segs.size()); return; }
        if (want && k < whole.size()) nontrivial(plankey(p)); return;
    }
    ParseObs ref = ref_parse(whole, s.flags, s.cfg, s.stream); if (!s.stream) { s.doc = whole.substr(0, k); s.d.eof_at = -1; } LeakCheck lc; ParseObs o = run_parse(s);
    if (o.rc) { fail("parse-failed", "parse of the truncated input returned %d (errno %d)", o.rc, o.err); return; }
    size_t want = leading(determined(whole, s.flags, s.cfg, ref), ref, s.cfg, k);
    if (segs_text(head(o.segs, want), s.stream) != segs_text(head(ref.segs, want), s.stream)) { fail("completed-changed", "cut at byte %zu: %s", k, diff2(segs_text(head(o.segs, want), s.stream), segs_text(head(ref.segs, want), s.stream)).c_str()); return; }
    for (size_t i = 0; i + 1 < o.segs.size(); ++i) if (o.segs[i].eof) { fail("eof-not-last", "segment %zu of %zu is marked as ended by the end of input", i, o.segs.size()); return; }
    if (!(s.flags & SINGLE)) { size_t end = o.segs.empty() ? 0 : abs_end(o.segs.back(), s.cfg); if (end != k) { fail("tail-lost", "the input was cut at byte %zu, the segments end at %zu", k, end); return; }
        size_t from = want ? abs_end(ref.segs[want - 1], s.cfg) : 0; bool plain = false; for (size_t z = from; z < k; ++z) { if (strchr(";:\n\r", whole[z]) && whole[z]) { plain = false; break; } if (whole[z] != ' ' && whole[z] != '\t') plain = true; }
        if (plain && (o.segs.size() <= want || !o.segs.back().eof)) { fail("tail-not-eof", "the unterminated tail after the cut at byte %zu is not marked as ended by the end of input", k); return; } }
    if (!lc.check("parse")) return; if (want && k < whole.size()) nontrivial(plankey(p)); if (o.segs.size() > want) probe("cut-inside-a-segment"); else probe("cut-at-a-boundary");
}
static void c05_explore(Ctx &c) {
    Rng &r = c.rng; string doc = some_doc(r, 8); bool giant = giant_case(c, doc, 200); unsigned fl = random_flags(r); Cfg cfg = random_cfg(r); size_t maxp = giant ? 2 : c.thorough ? 400 : 40; vector<long> pts;
    if (doc.size() + 1 <= maxp) for (size_t i = 0; i <= doc.size(); ++i) pts.push_back(i); else { for (size_t i = 0; i < maxp; ++i) pts.push_back(r.below(doc.size() + 1)); for (auto &g : ref_parse(doc, fl, cfg, false).segs) if (pts.size() < 2 * maxp) { long e = abs_end(g, cfg); for (long x = e - 2; x <= e + 2; ++x) if (x >= 0 && x <= (long)doc.size()) pts.push_back(x); } }
    for (long k : pts) { Plan p = newplan("C05"); p.addf("mode %s", r.p(.7) ? "each" : "quick"); p.setdoc(doc); flags_to(p, fl); cfg_to(p, cfg); Delivery d; if (r.p(.5)) { p.add("stream"); if (r.p(.5)) d = random_delivery(r, doc.size()); } d.eof_at = k; delivery_to(p, d); if (!c.run(p)) return; }
}

// ---------------------------------------------------------------------- C06
// piece <n> <m|s|c>: parse n segments (then the callback stops it), from memory, a new stream, or continuing the same stream
static void c06_exec(const Plan &p) {
    ParseSpec s = spec_of(p); ParseObs ref = ref_parse(s.doc, s.flags, s.cfg, true), refm = ref_parse(s.doc, s.flags, s.cfg, false);
    Cfg c = s.cfg; vector<SegObs> all; size_t consumed = 0; bool done = false, allstream = true; int pieces = 0; cypher_input_position last{}; bool lastset = false; std::unique_ptr<SimIn> cont; auto pl = p.all("piece"); size_t pi = 0; LeakCheck lc;
    while (!done) {
        long n = -1; char kind = 'm'; if (pi < pl.size()) { n = atol(pl[pi][0].c_str()); if (pl[pi].size() > 1) kind = pl[pi][1][0]; ++pi; if (n < 1) n = 1; }
        ParseSpec q = s; q.cfg = c; q.af = AllocFaults(); q.flags = s.flags;
        if (n > 0) { q.cb.assign(n, 0); q.cb[n - 1] = 1; }
        if (kind == 'c' && !cont && pieces == 0) { Delivery d = s.d; d.bufmode = 'n'; cont.reset(new SimIn(s.doc, d)); }
        // a segment with an unclosed quote, name or comment makes the parser read on: the old stream cannot be continued
        if (kind == 'c' && cont && cont->pos > consumed) { bool open = false; for (auto &g : all) if (!segment_determined(s.doc.substr(g.range.start.offset - s.cfg.off, g.range.end.offset - g.range.start.offset), s.flags)) open = true; if (open) { probe("stream-of-open-segment"); cont.reset(); kind = 's'; } }
        if (kind == 'c' && cont) { q.stream = true; q.in = cont.get(); if (cont->pos != consumed) { fail("over-read", "after a stop at byte %zu the stream was at byte %zu", consumed, cont->pos); return; } }
        else { cont.reset(); q.doc = s.doc.substr(consumed); q.stream = kind != 'm'; if (kind == 'm') allstream = false; }
        ParseObs o = run_parse(q); ++pieces;
        if (o.rc) { fail("parse-failed", "continued parse %d returned %d", pieces, o.rc); return; }
        for (auto &g : o.segs) { all.push_back(g); c.ord += g.nnodes; }
        if (!o.segs.empty()) { if (!o.lastset || !poseq(o.last, o.segs.back().range.end)) { fail("last-position", "piece %d reported %s, its last segment ends at %s", pieces, posstr(o.last).c_str(), posstr(o.segs.back().range.end).c_str()); return; }
            c.null = false; c.line = o.last.line; c.col = o.last.column; c.off = o.last.offset; consumed = c.off - s.cfg.off; last = o.last; lastset = true; }
        if (o.segs.empty() || o.segs.back().eof || n < 0 || (long)o.segs.size() < n || consumed >= s.doc.size()) done = true;
        if (consumed > s.doc.size()) { fail("beyond-input", "reported position %zu beyond the input", consumed); return; }
    }
    ParseObs sum; sum.segs = all; sum.last = last; sum.lastset = lastset;
    if (sum.text(false) != refm.text(false)) { fail("resumed-differs", "%d pieces against one parse: %s", pieces, diff2(sum.text(false), refm.text(false)).c_str()); return; }
    if (pieces == 1 && allstream && sum.text(true) != ref.text(true)) { fail("resumed-differs", "%d pieces against one parse of a stream: %s", pieces, diff2(sum.text(true), ref.text(true)).c_str()); return; }
    lc.check("parses"); if (pieces > 1) nontrivial(plankey(p)); probe("resumptions", pieces - 1);
}
static void c06_explore(Ctx &c) {
    Rng &r = c.rng; string doc = some_doc(r, 12); if (r.p(.5)) doc += "\n" + some_doc(r, 0); bool giant = giant_case(c, doc, 120); unsigned fl = random_flags(r); Cfg cfg = random_cfg(r); ParseObs ref = ref_parse(doc, fl, cfg, false); size_t n = ref.segs.size();
    int reps = giant ? 1 : c.thorough ? 12 : 5;
    for (int i = 0; i < reps; ++i) { Plan p = newplan("C06"); p.setdoc(doc); flags_to(p, fl); cfg_to(p, cfg); Delivery d = r.p(.5) ? Delivery() : random_delivery(r, doc.size()); delivery_to(p, d); char mode = "mscx"[r.below(4)];
        for (size_t k = 0; k < n;) { size_t step = i == 0 && n < 60 ? 1 : giant ? 1 + r.below(n < 8 ? n : n / 4) : r.range(1, (int)std::max<size_t>(1, n)); k += step; if (k > n) break; p.addf("piece %zu %c", step, mode == 'x' ? "msc"[r.below(3)] : mode); } if (!c.run(p)) return; }
}

// ---------------------------------------------------------------------- C07
static void c07_exec(const Plan &p) {
    ParseSpec s = spec_of(p); for (auto &x : p.get("cb")) s.cb.push_back(atoi(x.c_str())); ParseObs ref = ref_parse(s.doc, s.flags, s.cfg, s.stream); size_t want = ref.segs.size(); int rc = 0;
    for (size_t i = 0; i < s.cb.size() && i < want; ++i) if (s.cb[i]) { want = i + 1; rc = s.cb[i] > 0 ? 0 : s.cb[i]; break; }
    if (s.flags & SINGLE && want > 1) { fail("single-many", "a single-segment parse makes %zu callbacks", want); return; }
    if (p.str("mode", "each") == "quick") {
        QuickObs qr = ref_quick(s.doc, s.flags); size_t w = qr.segs.size(); rc = 0; for (size_t i = 0; i < s.cb.size() && i < w; ++i) if (s.cb[i]) { w = i + 1; rc = s.cb[i] > 0 ? 0 : s.cb[i]; break; }
        if (s.flags & SINGLE && w > 1) { fail("single-many", "a single quick parse makes %zu callbacks", w); return; }
        LeakCheck lc; QuickSpec q; q.doc = s.doc; q.flags = s.flags; q.stream = s.stream; q.cb = s.cb; SimIn in(s.doc, s.d); if (s.stream) q.in = &in; size_t atstop = 0; int calls = 0; q.on_segment = [&](int) { ++calls; atstop = in.nreads; }; QuickObs o = run_quick(q);
        if (o.segs.size() != w) { fail("callbacks", "%zu quick callbacks instead of %zu", o.segs.size(), w); return; }
        if (o.rc != rc) { fail("return-value", "quick parse returned %d instead of %d", o.rc, rc); return; }
        for (size_t i = 0; i < w; ++i) if (o.segs[i].str() != qr.segs[i].str()) { fail("segments", "quick segment %zu differs", i); return; }
        if (s.stream && w && w < qr.segs.size() && in.nreads != atstop) { fail("read-after-stop", "the stream was read after the callback stopped the quick parse"); return; }
        lc.check("quick parse"); if (w < qr.segs.size()) nontrivial(plankey(p)); return;
    }
    LeakCheck lc; SimIn in(s.doc, s.d); if (s.stream) s.in = &in; size_t atcb = 0; s.on_segment = [&](int, cypher_parse_segment_t *) { atcb = in.nreads; }; ParseObs o = run_parse(s);
    if (o.segs.size() != want) { fail("callbacks", "%zu callbacks instead of %zu", o.segs.size(), want); return; }
    if (o.rc != rc) { fail("return-value", "the parse returned %d instead of %d", o.rc, rc); return; }
    if (segs_text(o.segs, true) != segs_text(head(ref.segs, want), true)) { fail("segments", "%s", diff2(segs_text(o.segs, true), segs_text(head(ref.segs, want), true)).c_str()); return; }
    if (o.lastset != (want > 0) || (want && !poseq(o.last, o.segs.back().range.end))) { fail("last-position", "reported %s, the last segment handed over ends at %s", o.lastset ? posstr(o.last).c_str() : "nothing", want ? posstr(o.segs.back().range.end).c_str() : "-"); return; }
    if (s.stream && want && want < ref.segs.size() && in.nreads != atcb) { fail("read-after-stop", "the stream was read after the callback stopped the parse"); return; }
    lc.check("parse"); if (want < ref.segs.size()) { nontrivial(plankey(p)); probe(rc ? "stopped-negative" : "stopped-positive"); } if (s.flags & SINGLE) probe("single");
    // a null last pointer and the whole-input call are accepted as well
    if (p.has("nolast")) { s.in = nullptr; s.want_last = false; s.on_segment = nullptr; ParseObs o2 = run_parse(s); if (o2.rc != rc || segs_text(o2.segs, true) != segs_text(o.segs, true)) fail("segments", "differs without a last-position argument"); }
}
static void c07_explore(Ctx &c) {
    Rng &r = c.rng; string doc = some_doc(r, 8); if (r.p(.6)) doc += "\n" + some_doc(r, 0); unsigned fl = random_flags(r) | (r.p(.2) ? SINGLE : 0); Cfg cfg = random_cfg(r); size_t n = ref_parse(doc, fl, cfg, false).segs.size(), nq = ref_quick(doc, fl).segs.size();
    static const int rets[] = {1, 2, 7, 0x7fffffff, -1, -2, -42, (int)0x80000000, EIO, -ENOMEM, 256, -256};
    for (int i = 0; i < (c.thorough ? 20 : 8); ++i) { Plan p = newplan("C07"); bool q = r.p(.3); if (q) p.add("mode quick"); p.setdoc(doc); flags_to(p, fl); cfg_to(p, cfg); if (r.p(.5)) { p.add("stream"); delivery_to(p, r.p(.5) ? Delivery() : random_delivery(r, doc.size())); }
        string cb = "cb"; size_t stop = r.below((q ? nq : n) + 1); for (size_t k = 0; k < stop; ++k) cb += " 0"; cb += sfmt(" %d", rets[r.below(12)]); if (r.p(.4)) cb += sfmt(" %d", rets[r.below(12)]); p.add(cb); if (r.p(.1)) p.add("nolast"); if (!c.run(p)) return; }
}

// ---------------------------------------------------------------------- C09
bool segment_root_defined();
const cypher_astnode_t *segment_root(const cypher_parse_segment_t *, unsigned);
static void c09_exec(const Plan &p) {
    ParseSpec s = spec_of(p); LeakCheck lc;
    if (!segment_root_defined()) { fail("missing-accessor", "cypher_parse_segment_get_root, declared in the public header, is not defined by the library"); return; }
    // expectation: from retained segments of a segment-by-segment parse from memory
    vector<cypher_parse_segment_t *> segs; ParseSpec q = s; q.stream = false; q.af = AllocFaults(); q.d = Delivery(); q.on_segment = [&](int, cypher_parse_segment_t *g) { cypher_parse_segment_retain(g); segs.push_back(g); };
    ParseObs ref = run_parse(q); auto drop = [&] { Harness h; for (auto *g : segs) cypher_parse_segment_release(g); segs.clear(); };
    if (ref.rc) { fail("parse-failed", "rc %d", ref.rc); drop(); return; }
    string trees; vector<const cypher_astnode_t *> order; vector<string> dirtexts; int ndirs = 0, nroots = 0; unsigned nnodes = 0; bool eof = false; vector<ErrObs> errs; vector<int> dirs;
    { Harness h; for (size_t i = 0; i < segs.size(); ++i) { auto *g = segs[i]; int nr = cypher_parse_segment_nroots(g); for (int k = 0; k < nr; ++k, ++nroots) { auto *n = segment_root(g, k); trees += n ? dump_tree(n, &order, (int)order.size()) : "MISSING ROOT\n"; }
        auto *dir = cypher_parse_segment_get_directive(g); if (dir) { ++ndirs; int at = -2; for (size_t k = 0; k < order.size(); ++k) if (order[k] == dir) at = (int)k; dirs.push_back(at); }
        nnodes += ref.segs[i].nnodes; errs.insert(errs.end(), ref.segs[i].errs.begin(), ref.segs[i].errs.end());
        if (dir || !ref.segs[i].errs.empty()) eof = ref.segs[i].eof; } }
    drop(); if (!lc.check("segment-by-segment parse")) return;
    SimIn in(s.doc, s.d); if (s.stream) s.in = &in; ParseObs o; cypher_parse_result_t *r = run_parse_result(s, o);
    if (!r) { if (!o.fired) fail("parse-failed", "the whole-input parse failed without a fault, errno %d", o.err); else if (o.err != ENOMEM) fail("wrong-error", "the whole-input parse failed with errno %d after a failed allocation", o.err); lc.check("failed whole-input parse"); if (o.fired) { nontrivial(plankey(p)); probe("failed-while-collecting"); } return; }
    ResultObs x = snap_result(r);
    if (x.nroots != nroots || x.trees != trees) fail("trees-differ", "%d roots instead of %d: %s", x.nroots, nroots, diff2(x.trees, trees).c_str());
    else if (x.ndirs != ndirs || x.dirs != dirs) fail("directives-differ", "%d directives instead of %d, or in another order", x.ndirs, ndirs);
    else if (x.nnodes != nnodes) fail("nnodes", "%u nodes instead of %u", x.nnodes, nnodes);
    else if (x.eof != eof) fail("eof", "end-of-input flag %d instead of %d", x.eof, eof);
    else { bool same = x.errs.size() == errs.size(); for (size_t i = 0; same && i < errs.size(); ++i) same = poseq(x.errs[i].pos, errs[i].pos) && x.errs[i].msg == errs[i].msg && (s.stream || (x.errs[i].ctx == errs[i].ctx && x.errs[i].ctxoff == errs[i].ctxoff)); if (!same) fail("errors-differ", "%zu errors against %zu of the segments", x.errs.size(), errs.size()); }
    // rendering lists every node once, ordinals ascending from the configured start
    if (!failed()) { unsigned k = s.cfg.ord; size_t i = 0; int lines = 0; while (i < x.print.size()) { size_t e = x.print.find('\n', i); if (e == string::npos) e = x.print.size(); size_t a = i; while (a < e && x.print[a] == ' ') ++a; if (a >= e || x.print[a] != '@' || strtoul(x.print.c_str() + a + 1, nullptr, 10) != k) { fail("ordinals", "line %d of the rendered result should start with @%u", lines + 1, k); break; } ++k; ++lines; i = e + 1; }
        if (!failed() && (unsigned)lines != nnodes) fail("nnodes", "%d rendered nodes, %u reported", lines, nnodes); }
    if (!failed()) { Harness h; if (cypher_parse_result_get_root(r, nroots) || cypher_parse_result_get_directive(r, ndirs) || cypher_parse_result_get_error(r, errs.size())) fail("beyond-end", "an accessor returns something beyond the last index"); }
    if (!failed() && o.lastset != ref.lastset) fail("last-position", "last position set %d instead of %d", o.lastset, ref.lastset);
    if (!failed() && ref.lastset && !poseq(o.last, ref.last)) fail("last-position", "%s instead of %s", posstr(o.last).c_str(), posstr(ref.last).c_str());
    cypher_parse_result_free(r); if (failed()) return; lc.check("whole-input parse"); if (ref.segs.size() > 1) nontrivial(plankey(p)); if (ref.segs.size() > 16) probe("many-segments"); if (o.fired) probe("fault-tolerated");
}
static void c09_explore(Ctx &c) {
    Rng &r = c.rng; string doc = some_doc(r, 15); int more = r.p(.3) ? r.range(1, 12) : 0; while (more--) doc += "\n" + some_doc(r, 0);
    if (r.p(.1)) { int k = r.range(1, 40); for (int i = 0; i < k; ++i) doc += r.oneof({";", "RETURN 1;", ":x\n", "//c\n;", "bad stuff;"}); } bool giant = giant_case(c, doc, 150);
    unsigned fl = random_flags(r) | (r.p(.05) ? SINGLE : 0); Cfg cfg = random_cfg(r);
    auto mk = [&](bool stream) { Plan p = newplan("C09"); p.setdoc(doc); flags_to(p, fl); cfg_to(p, cfg); if (stream) { p.add("stream"); delivery_to(p, random_delivery(r, doc.size())); } return p; };
    Plan p = mk(false); if (!c.run(p)) return; if (!giant && !c.run(mk(true))) return;
    ParseSpec s = spec_of(p); uint64_t h = g_evhash; ParseObs o; vector<uint64_t> sites; g_allocsites = &sites; auto *res = run_parse_result(s, o); g_allocsites = nullptr; cypher_parse_result_free(res); g_evhash = h; sites.resize(std::min<size_t>(sites.size(), o.nalloc));
    // the allocations made while collecting are those a segment-wise parse does not make: aim at the tail of each segment too
    sweep_allocs(c, o.nalloc, giant ? 3 : c.thorough ? 600 : 12, [&] { return mk(false); }, sites);
}

// ---------------------------------------------------------------------- C15
// what a quick parse delivers accounts for the input: text, ranges, lines and columns, every byte once
static void quick_account(const QuickObs &got, const string &doc, unsigned flags) {
    size_t pos = 0; size_t i = 0; vector<size_t> ls = line_starts(doc);
    // what lies between the texts is white space, comments and (behind a text) one terminator
    auto gap = [&](size_t a, size_t b, int terms) { while (a < b && !failed()) { char ch = doc[a];
        if (strchr(" \t\r\n", ch) && ch) ++a;
        else if (ch == ';' && terms-- > 0) ++a;
        else if (ch == '/' && a + 1 < b && doc[a + 1] == '/') { while (a < b && doc[a] != '\n') ++a; }
        else if (ch == '/' && a + 1 < b && doc[a + 1] == '*') { size_t k = doc.find("*/", a + 2); a = k == string::npos || k + 2 > b ? b : k + 2; }
        else { fail("not-accounted", "byte %zu <%s> belongs to no segment's text", a, esc(doc.substr(a, 1)).c_str()); return; } } };
    auto good = [&](cypher_input_position q, const char *what) { if (failed() || q.offset > doc.size()) return; size_t k = std::upper_bound(ls.begin(), ls.end(), q.offset) - ls.begin() - 1; if (q.line != k + 1 || q.column != q.offset - ls[k] + 1) fail("line-column", "%s of segment %zu reported at %s, the line breaks of the input make it %zu:%zu", what, i, posstr(q).c_str(), k + 1, q.offset - ls[k] + 1); };
    for (auto &g : got.segs) { good(g.range.start, "start"); good(g.range.end, "end"); good(g.next, "next position"); if (failed()) return; size_t a = g.range.start.offset, b = g.range.end.offset, n = g.next.offset;
        if (a < pos || b < a || n < b || n > doc.size()) { fail("ranges", "segment %zu: range %s next %s after position %zu", i, rngstr(g.range).c_str(), posstr(g.next).c_str(), pos); return; }
        if (doc.compare(a, b - a, g.text) != 0 || g.text.size() != b - a) { fail("text", "segment %zu: text <%s> is not the input at its range <%s>", i, esc(g.text).c_str(), esc(doc.substr(a, b - a)).c_str()); return; }
        if (g.eof && i + 1 < got.segs.size()) { fail("eof-not-last", "quick segment %zu of %zu", i, got.segs.size()); return; }
        if (g.stmt == g.cmd) { fail("kind", "segment %zu is %s", i, g.stmt ? "statement and command" : "neither"); return; }
        gap(pos, a, 0); gap(b, n, 1); if (failed()) return;
        pos = n; ++i; }
    if (!(flags & SINGLE) && pos != doc.size()) fail("not-accounted", "the segments end at byte %zu of %zu", pos, doc.size());
}
// what the full parser accepts, the quick parser divides in the same way: one segment per statement or command, starting and ending with it
// (not so where a terminator, quote or comment mark stands in the value of a CYPHER option: the quick parser does not know these)
static void quick_vs_full(const QuickObs &got, const string &doc, unsigned flags) {
    
    ParseObs o = ref_parse(doc, flags, Cfg(), false); struct D { size_t a, b, e; bool cmd; }; vector<D> d; for (auto &g : o.segs) { if (!g.errs.empty()) return; for (auto &x : g.nodes) if (x.type == "cypher parameter" && doc.substr(x.range.start.offset, x.range.end.offset - x.range.start.offset).find_first_of(";'\"/") != string::npos) return; if (g.directive < 0) continue; auto &n = g.nodes[g.directive]; d.push_back({n.range.start.offset, n.range.end.offset, g.range.end.offset, n.type == "command"}); }
    size_t i = 0; for (auto &q : got.segs) { if (q.text.empty()) continue; if (i >= d.size()) { fail("quick-full", "quick segment <%s> holds no statement or command of the full parse (it has %zu)", esc(q.text, 100).c_str(), d.size()); return; }
        if (q.range.start.offset != d[i].a || q.range.end.offset < d[i].a || q.next.offset < d[i].b || q.cmd != d[i].cmd || q.next.offset > std::max(d[i].e, i + 1 < d.size() ? d[i + 1].a : doc.size())) { fail("quick-full", "quick %s %s next %s, full %s %zu-%zu of a segment to %zu", q.cmd ? "command" : "statement", rngstr(q.range).c_str(), posstr(q.next).c_str(), d[i].cmd ? "command" : "statement", d[i].a, d[i].b, d[i].e); return; } ++i; }
    if (i < d.size()) { fail("quick-full", "%zu quick segments for %zu statements and commands", i, d.size()); return; }
    if (i) probe("quick-agrees-with-full", i);
}
static void c15_exec(const Plan &p) {
    ParseSpec s = spec_of(p); QuickObs mem = ref_quick(s.doc, s.flags); QuickSpec q; q.doc = s.doc; q.flags = s.flags; q.stream = true; SimIn in(s.doc, s.d); q.in = &in; QuickObs got = run_quick(q);
    if (mem.rc || got.rc) { fail("parse-failed", "fault-free quick parse returned %d from memory, %d from the stream", mem.rc, got.rc); return; }
    quick_vs(got, mem, "stream-differs-from-memory", "quick parse"); if (failed()) return;
    quick_account(got, s.doc, s.flags); if (failed()) return; quick_vs_full(got, s.doc, s.flags); if (failed()) return;
    if (in.nreads > 1 && got.segs.size()) nontrivial(plankey(p)); if (s.doc.size() > 1024) probe("input-beyond-first-buffer");
}
static void c15_explore(Ctx &c) {
    Rng &r = c.rng; string doc = some_doc(r, 30); unsigned fl = random_flags(r) | (r.p(.08) ? SINGLE : 0); if (c.index % 97 == 0) { GenOpts o = random_opts(r); o.big = 20000; doc = gen_doc(r, o); } bool giant = giant_case(c, doc, 60);
    for (int i = 0; i < (giant ? 2 : c.thorough ? 12 : 6); ++i) { Plan p = newplan("C15"); p.setdoc(doc); flags_to(p, fl); delivery_to(p, random_delivery(r, doc.size())); if (!c.run(p)) return; }
}

// ---------------------------------------------------------------------- C16
// doc0 = text before, doc1 = the statement, doc2 = its damaged form, doc3 = text after.
// The statement has no terminator, command marker, comment marker or escape besides its final terminator and its
// comments, and the damage keeps every quote, comment and command marker where it was.
static bool c16_suitable(const string &a, const string &b) {
    auto special = [](const string &t) { string o; for (size_t i = 0; i < t.size(); ++i) { char ch = t[i]; if (strchr(";'\"/*\\:`\n\r{}", ch) && ch) { o += ch; if (i + 1 < t.size() && (ch == '/' || ch == '*') && (t[i + 1] == '/' || t[i + 1] == '*')) o += '+'; } } return o; };
    if (a.empty() || b.empty() || a == b || a.back() != ';' || a.find(';') != a.size() - 1 || special(a) != special(b)) return false;
    // the value of a CYPHER option extends to the next white space, over any terminator
    for (const string *t : {&a, &b}) if (strcasestr(t->c_str(), "cypher")) for (size_t i = t->find('='); i != string::npos; i = t->find('=', i + 1)) { size_t k = i + 1; while (k < t->size() && strchr(" \t\r\n", (*t)[k])) ++k; while (k < t->size() && !strchr(" \t\r\n", (*t)[k])) ++k; if (k == t->size()) return false; }
    for (const string *t : {&a, &b}) { bool quote = false, slash = false; for (size_t i = 0; i < t->size(); ++i) { char ch = (*t)[i]; if (ch == '\\') return false; if (ch == '\'' || ch == '"' || ch == '`') quote = true; if (ch == '/') slash = true; if (ch == ':' && (i == 0 || strchr(" \t\n\r/", (*t)[i - 1]))) return false; } if (quote && slash) return false; }
    return true;
}
static void c16_exec(const Plan &p) {
    ParseSpec s = spec_of(p); string pre = p.doc("doc0"), a = p.doc("doc1"), b = p.doc("doc2"), post = p.doc("doc3");
    string d1 = pre + a + post, d2 = pre + b + post; ParseObs A = ref_parse(d1, s.flags, s.cfg, s.stream); s.doc = d2; SimIn in(d2, s.d); if (s.stream) s.in = &in; ParseObs B = run_parse(s);
    if (B.rc) { fail("parse-failed", "the damaged input makes the parse return %d (errno %d)", B.rc, B.err); return; }
    // not the situation the property speaks of (possible only while minimising)
    if (!c16_suitable(a, b)) return;
    { bool starts = pre.empty(), ends = false; for (auto &g : A.segs) { if (abs_end(g, s.cfg) == pre.size()) starts = true; if (abs_end(g, s.cfg) == pre.size() + a.size() && !g.eof) ends = true; } if (!starts || !ends) return;
      // a segment before it that leaves a quote, name or comment open makes the parser look for its end in the damaged bytes
      size_t z = 0; for (auto &g : A.segs) { size_t e = abs_end(g, s.cfg); if (e > pre.size()) break; if (!segment_determined(d1.substr(z, e - z), s.flags)) { probe("skipped-open-before"); return; } z = e; } }
    // the segment that holds the statement, in either parse
    auto find = [&](const ParseObs &o, size_t from, size_t to) { for (size_t i = 0; i < o.segs.size(); ++i) { size_t x = o.segs[i].range.start.offset - s.cfg.off, y = abs_end(o.segs[i], s.cfg); if (x <= from && y >= to) return (long)i; } return -1l; };
    long i = find(A, pre.size(), pre.size() + a.size()), j = find(B, pre.size(), pre.size() + b.size());
    if (i < 0) return;     // not one statement to begin with (possible only while minimising)
    if (j < 0) { fail("spread", "the damaged statement is no longer within one segment"); return; }
    if (i != j || A.segs.size() != B.segs.size()) { fail("spread", "%zu segments (the damaged one is number %ld), instead of %zu (number %ld)", B.segs.size(), j, A.segs.size(), i); return; }
    string sa = segs_text(head(A.segs, i), s.stream), sb = segs_text(head(B.segs, i), s.stream); if (sa != sb) { fail("before-changed", "segments before the damage differ: %s", diff2(sb, sa).c_str()); return; }
    // after: same trees and errors, positions shifted uniformly
    long doff = (long)b.size() - (long)a.size(); long dl = (long)B.segs[j].range.end.line - (long)A.segs[i].range.end.line; unsigned la = A.segs[i].range.end.line, lb = B.segs[j].range.end.line; long dc = (long)B.segs[j].range.end.column - (long)A.segs[i].range.end.column;
    long dord = (long)B.segs[j].nnodes - (long)A.segs[i].nnodes;
    auto shift = [&](cypher_input_position q) { cypher_input_position r = q; r.offset += doff; r.line += dl; if (q.line == la) r.column += dc; return r; }; (void)lb;
    for (size_t k = i + 1; k < A.segs.size(); ++k) {
        const SegObs &x = A.segs[k], &y = B.segs[k];
        auto pe = [&](cypher_input_position u, cypher_input_position v) { return poseq(shift(u), v); };
        if (!pe(x.range.start, y.range.start) || !pe(x.range.end, y.range.end)) { fail("after-changed", "segment %zu: range %s, expected a uniform shift of %s", k, rngstr(y.range).c_str(), rngstr(x.range).c_str()); return; }
        if (x.eof != y.eof || x.nnodes != y.nnodes || x.nroots != y.nroots || x.directive != y.directive || x.errs.size() != y.errs.size() || x.nodes.size() != y.nodes.size()) { fail("after-changed", "segment %zu: nodes %u/%u, roots %d/%d, errors %zu/%zu, eof %d/%d", k, y.nnodes, x.nnodes, y.nroots, x.nroots, y.errs.size(), x.errs.size(), y.eof, x.eof); return; }
        for (size_t e = 0; e < x.errs.size(); ++e) if (!pe(x.errs[e].pos, y.errs[e].pos) || x.errs[e].msg != y.errs[e].msg || (s.stream && (x.errs[e].ctx != y.errs[e].ctx || x.errs[e].ctxoff != y.errs[e].ctxoff))) { fail("after-changed", "segment %zu error %zu: <%s %s>, expected <%s %s>", k, e, posstr(y.errs[e].pos).c_str(), esc(y.errs[e].msg).c_str(), posstr(shift(x.errs[e].pos)).c_str(), esc(x.errs[e].msg).c_str()); return; }
        for (size_t n = 0; n < x.nodes.size(); ++n) if (x.nodes[n].type != y.nodes[n].type || x.nodes[n].depth != y.nodes[n].depth || (long)y.nodes[n].ordinal - (long)x.nodes[n].ordinal != dord || !pe(x.nodes[n].range.start, y.nodes[n].range.start) || !pe(x.nodes[n].range.end, y.nodes[n].range.end)) { fail("after-changed", "segment %zu node %zu: %s %s ordinal %u, expected %s shifted from %s, ordinal %ld", k, n, y.nodes[n].type.c_str(), rngstr(y.nodes[n].range).c_str(), y.nodes[n].ordinal, x.nodes[n].type.c_str(), rngstr(x.nodes[n].range).c_str(), (long)x.nodes[n].ordinal + dord); return; }
        // attributes and child roles: the dumps agree once ranges are taken out
        auto strip = [](const string &t) { string o; for (auto &l : split(t, '\n')) { bool gone = false; for (auto &w : split(l)) { unsigned a, b2, d2, e2; size_t f, g2; int used = 0;
            if (!gone && sscanf(w.c_str(), "%u:%u@%zu-%u:%u@%zu%n", &a, &b2, &f, &d2, &e2, &g2, &used) == 6 && used == (int)w.size()) gone = true; else o += w + " "; } o += "\n"; } return o; };
        if (strip(x.tree) != strip(y.tree)) { fail("after-changed", "segment %zu: %s", k, diff2(strip(y.tree), strip(x.tree)).c_str()); return; }
    }
    for (auto &e : B.segs[j].errs) { size_t o = e.pos.offset; if (o < B.segs[j].range.start.offset || o > B.segs[j].range.end.offset) { fail("error-outside", "an error of the damaged statement is reported at %s, outside its segment %s", posstr(e.pos).c_str(), rngstr(B.segs[j].range).c_str()); return; } }
    if (A.segs.size() > 1) nontrivial(plankey(p)); if (!B.segs[j].errs.empty()) probe("damage-caused-errors"); else probe("damage-still-valid");
}
static bool plainch(char c) { return !strchr(";'\"/*\\:`\n\r\0{}", c) && c; }
static void c16_explore(Ctx &c) {
    Rng &r = c.rng; GenOpts o = random_opts(r); o.damage = r.p(.6) ? 0 : .3; o.bytes = 0; auto many = [&](int lo, int hi) { string s; int n = r.range(lo, hi); for (int i = 0; i < n; ++i) s += gen_segment(r, o, false) + "\n"; return s; };
    string pre = many(0, 3), post = many(0, 3), body; static const char *tail[] = {";", " ;", "\n;"};
    for (int t = 0; t < 20; ++t) { body = gen_statement(r, r.range(0, 2)); if (body.size() > 4) break; }
    string a = body + tail[r.below(3)]; if (!c16_suitable(a, "x" + a)) { probe("skipped-unsuitable"); return; } unsigned fl = random_flags(r); Cfg cfg = random_cfg(r);
    // text before must end exactly at a segment boundary, and the statement be one segment
    { ParseObs q = ref_parse(pre, fl, cfg, false); if (!q.segs.empty() && q.segs.back().eof && !q.segs.back().errs.empty()) return; ParseObs w = ref_parse(pre + a + post, fl, cfg, false); bool ok = false; for (auto &g : w.segs) if (abs_end(g, cfg) == pre.size() + a.size() && g.range.start.offset - cfg.off <= pre.size()) ok = true; if (!ok) { probe("skipped-not-one-segment"); return; } }
    int n = c.thorough ? 40 : 14;
    for (int i = 0; i < n; ++i) {
        string b = body; int k = r.range(1, 3); bool changed = false;
        for (int t = 0; t < k * 6 && k > 0; ++t) { size_t at = r.below(b.size() + 1);
            switch (r.below(4)) {
            case 0: if (at < b.size() && plainch(b[at])) { b.erase(at, 1); --k; changed = true; } break;                                   // lost
            case 1: { char ch = "abzXQ01 ()[],.=<>-+!?@#$%^&|~_\t\x01\x7f\xc3\xff"[r.below(36)]; if (plainch(ch)) { b.insert(at, 1, ch); --k; changed = true; } break; } // inserted
            case 2: if (at < b.size() && plainch(b[at])) { char ch = (char)(b[at] ^ (1 << r.below(8))); if (plainch(ch)) { b[at] = ch; --k; changed = true; } } break;    // flipped
            default: if (at < b.size() && plainch(b[at])) { b.insert(at, 1, b[at]); --k; changed = true; } }                                // duplicated
        }
        if (!changed || b == body || !c16_suitable(a, b + a.substr(body.size()))) continue;
        Plan p = newplan("C16"); if (!pre.empty()) p.setdoc(pre, "doc0"); p.setdoc(a, "doc1"); p.setdoc(b + a.substr(body.size()), "doc2"); if (!post.empty()) p.setdoc(post, "doc3"); flags_to(p, fl); cfg_to(p, cfg);
        if (r.p(.4)) { p.add("stream"); delivery_to(p, random_delivery(r, 100)); } if (!c.run(p)) return;
    }
}

// ---------------------------------------------------------------------- C19
static bool closed(const string &t) { return segment_determined(t, 0) && segment_determined(t, ONLY); }
void check_invariants(const ParseObs &o, const string &doc, const Cfg &c, bool complete, const char *what) {
    if (failed()) return;
    vector<size_t> ls = line_starts(doc); size_t pos = 0; unsigned ord = c.ord; cypher_input_position prev{c.line, c.col, c.off};
    auto expect = [&](size_t off) { size_t k = std::upper_bound(ls.begin(), ls.end(), off) - ls.begin() - 1; cypher_input_position e; e.line = c.line + (unsigned)k; e.column = (unsigned)(off - ls[k]) + (k == 0 ? c.col : 1); e.offset = off + c.off; return e; };
    auto good = [&](cypher_input_position q, const char *of, size_t i) { if (q.offset < c.off || q.offset - c.off > doc.size()) { fail("position-outside", "%s: %s of segment %zu at %s lies outside the input", what, of, i, posstr(q).c_str()); return false; }
        cypher_input_position e = expect(q.offset - c.off); if (!poseq(e, q)) { fail("line-column", "%s: %s of segment %zu reported at %s, the line breaks of the input make it %s", what, of, i, posstr(q).c_str(), posstr(e).c_str()); return false; } return true; };
    for (size_t i = 0; i < o.segs.size(); ++i) { const SegObs &g = o.segs[i];
        if (!poseq(g.range.start, prev)) { fail("gap", "%s: segment %zu starts at %s, the previous one ended at %s", what, i, posstr(g.range.start).c_str(), posstr(prev).c_str()); return; }
        if (g.range.end.offset <= g.range.start.offset) { fail("empty-segment", "%s: segment %zu covers %s", what, i, rngstr(g.range).c_str()); return; }
        if (!good(g.range.end, "end", i)) return;
        if (g.eof && i + 1 < o.segs.size()) { fail("eof-not-last", "%s: segment %zu of %zu is marked as ended by the end of input", what, i, o.segs.size()); return; }
        if (g.eof && abs_end(g, c) != doc.size()) { fail("eof-not-last", "%s: segment %zu, marked as ended by the end of input, ends at byte %zu of %zu", what, i, abs_end(g, c), doc.size()); return; }
        if (g.nodes.size() != g.nnodes) { fail("nnodes", "%s: segment %zu reports %u nodes and has %zu", what, i, g.nnodes, g.nodes.size()); return; }
        if (g.directive == -2) { fail("directive", "%s: the directive of segment %zu is not among its trees", what, i); return; }
        for (auto &n : g.nodes) { if (n.ordinal != ord) { fail("ordinals", "%s: node %s of segment %zu has ordinal %u, expected %u", what, n.type.c_str(), i, n.ordinal, ord); return; } ++ord;
            if (!good(n.range.start, "node start", i) || !good(n.range.end, "node end", i)) return;
            const cypher_input_range &par = n.parent < 0 ? g.range : g.nodes[n.parent].range;
            if (n.range.end.offset < n.range.start.offset || (n.range.start.offset < g.range.start.offset || n.range.end.offset > g.range.end.offset)) { fail("node-outside-segment", "%s: %s at %s, segment %zu covers %s", what, n.type.c_str(), rngstr(n.range).c_str(), i, rngstr(g.range).c_str()); return; }
            if (!n.comment && (n.range.start.offset < par.start.offset || n.range.end.offset > par.end.offset)) { fail("node-outside-parent", "%s: %s at %s, its parent %s covers %s", what, n.type.c_str(), rngstr(n.range).c_str(), n.parent < 0 ? "segment" : g.nodes[n.parent].type.c_str(), rngstr(par).c_str()); return; } }
        size_t e0 = 0; for (auto &e : g.errs) { if (!good(e.pos, "error", i)) return; if (e.pos.offset < g.range.start.offset || (e.pos.offset > g.range.end.offset && closed(doc.substr(g.range.start.offset - c.off, g.range.end.offset - g.range.start.offset)))) { fail("error-outside", "%s: error at %s, segment %zu covers %s", what, posstr(e.pos).c_str(), i, rngstr(g.range).c_str()); return; } ++e0; }
        prev = g.range.end; pos = abs_end(g, c); }
    if (complete && pos != doc.size()) fail("not-covered", "%s: the segments cover %zu of %zu bytes", what, pos, doc.size());
    if (o.lastset && !o.segs.empty() && o.rc == 0 && !poseq(o.last, o.segs.back().range.end)) fail("last-position", "%s: reported %s, the last segment ends at %s", what, posstr(o.last).c_str(), posstr(o.segs.back().range.end).c_str());
}
static void c19_exec(const Plan &p) {
    ParseSpec s = spec_of(p); for (auto &x : p.get("cb")) s.cb.push_back(atoi(x.c_str())); bool stopped = false; size_t seen = 0;
    // while the run proceeds: everything delivered so far satisfies the invariants
    s.on_request = [&](size_t, const ParseObs &o) { if (o.segs.size() != seen) { seen = o.segs.size(); check_invariants(o, s.doc, s.cfg, false, "during the parse"); } };
    string doc = s.doc; if (s.d.eof_at >= 0) { doc = doc.substr(0, s.d.eof_at); if (!s.stream) { s.doc = doc; s.d.eof_at = -1; } }
    ParseObs o = run_parse(s); for (size_t i = 0; i < o.segs.size() && i < s.cb.size(); ++i) if (s.cb[i]) stopped = true; if (s.flags & SINGLE) stopped = true;
    check_invariants(o, doc, s.cfg, o.rc == 0 && !stopped, "after the parse");
    if (o.segs.size() > 1) nontrivial(plankey(p)); if (o.rc) probe("failed-parse"); if (stopped) probe("stopped-parse"); if (!s.cfg.null) probe("configured-start");
}
static void c19_explore(Ctx &c) {
    Rng &r = c.rng; string doc = some_doc(r, 12); if (r.p(.4)) doc += "\n" + some_doc(r, 0); unsigned fl = random_flags(r) | (r.p(.05) ? SINGLE : 0); Cfg cfg = random_cfg(r); bool giant = giant_case(c, doc, 80); ParseObs ref = ref_parse(doc, fl, cfg, false);
    for (int i = giant ? 3 - (int)r.below(4) : 0; i < (giant ? 4 : c.thorough ? 20 : 8); i += giant ? 4 : 1) { Plan p = newplan("C19"); p.setdoc(doc); flags_to(p, fl); cfg_to(p, cfg); bool st = r.p(.5); Delivery d; if (st) { p.add("stream"); d = r.p(.4) ? random_delivery(r, doc.size()) : Delivery(); }
        switch (i % 4) { case 0: break; case 1: if (st) { d.err_at = r.below(doc.size() + 1); d.err_no = EIO; d.err_sticky = r.p(.5); } else d.eof_at = r.below(doc.size() + 1); break; case 2: p.addf("fail %llu", (unsigned long long)r.below(ref.nalloc + 1)); break; default: { string cb = "cb"; size_t k = r.below(ref.segs.size() + 1); for (size_t z = 0; z < k; ++z) cb += " 0"; p.add(cb + (r.p(.5) ? " 1" : " -5")); } }
        delivery_to(p, d); if (!c.run(p)) return; }
}

// ---------------------------------------------------------------------- C20
// any bytes at all: the parse succeeds, covers them, and everything delivered can be used
static void check_context(const ErrObs &e, const string &doc, const Cfg &c, size_t seg, const char *what) {
    if (failed()) return;
    size_t at = e.pos.offset - c.off, L = e.ctx.size();
    if (e.msg.empty()) { fail("empty-message", "%s: an error of segment %zu has no message", what, seg); return; }
    if (L > 80) { fail("context-too-long", "%s: context of %zu bytes", what, L); return; }
    if (e.ctxoff > at) { fail("context-outside", "%s: the context of the error at byte %zu starts before the input (offset %zu)", what, at, e.ctxoff); return; }
    size_t s = at - e.ctxoff; bool nul = doc.substr(s, std::max(e.ctxoff, L)).find('\0') != string::npos;
    // an error at the end of a line, or on empty lines after it, is shown with that line and an offset beyond its text
    if (e.ctxoff > L && !nul && doc.find_first_not_of("\r\n", s + L) < at) { fail("context-offset", "%s: the error at byte %zu of the input has context '%s' and offset %zu in it", what, at, esc(e.ctx).c_str(), e.ctxoff); return; }
    if (nul) probe("context-with-nul");
    size_t a = e.ctx.compare(0, 3, "...") ? 0 : 3, b = L >= 3 && !e.ctx.compare(L - 3, 3, "...") ? L - 3 : L;
    for (size_t i = a; i < b; ++i) if (s + i >= doc.size() || doc[s + i] != e.ctx[i]) { fail("context-text", "%s: the error at byte %zu has context '%s' (offset %zu), the input there is '%s'", what, at, esc(e.ctx).c_str(), e.ctxoff, esc(doc.substr(std::min(s, doc.size()), 80)).c_str()); return; }
    for (size_t i = a; i < b; ++i) if (e.ctx[i] == '\n' || e.ctx[i] == '\r') { fail("context-text", "%s: the context of the error at byte %zu holds a line break", what, at); return; }
    probe("error-contexts-checked");
}
// the configured colours mark up the plain report and change nothing else; the report names the character at its position
static void check_colors(const string &doc, unsigned flags, Cfg c) {
    c.null = false; c.color = 0; ParseObs plain = ref_parse(doc, flags, c, false); c.color = 1; ParseObs ansi = ref_parse(doc, flags, c, false); c.color = 2; ParseObs mark = ref_parse(doc, flags, c, false);
    vector<const ErrObs *> e[3]; int k = 0; for (auto *o : {&plain, &ansi, &mark}) { for (auto &s : o->segs) for (auto &x : s.errs) e[k].push_back(&x); ++k; }
    if (e[0].size() != e[1].size() || e[0].size() != e[2].size()) { fail("colours-change-errors", "%zu errors without colours, %zu with ANSI colours, %zu with marks", e[0].size(), e[1].size(), e[2].size()); return; }
    const cypher_parser_colorization *A = cypher_parser_ansi_colorization; const char *const *af[] = {A->normal, A->error, A->error_token, A->error_message};
    for (size_t i = 0; i < e[0].size(); ++i) { const string &m = e[2][i]->msg; string bare, col, token; vector<int> open; unsigned seen = 0; bool intoken = false;
        for (size_t j = 0; j < m.size(); ++j) { if (m[j] != '\v' || j + 1 >= m.size() || !isdigit((unsigned char)m[j + 1])) { bare += m[j]; col += m[j]; if (intoken) token += m[j]; continue; }
            int d = m[j + 1] - '0'; j = m.find('\a', j); if (j == string::npos || d > 7) { fail("colours-torn", "error %zu: %s", i, esc(m).c_str()); return; } col += af[d / 2][d % 2]; if (d / 2 == 2) intoken = !(d % 2);
            if (d % 2 == 0) { open.push_back(d / 2); seen |= 1u << d / 2; } else if (open.empty() || open.back() != d / 2) { fail("colours-unpaired", "error %zu: %s", i, esc(m).c_str()); return; } else open.pop_back(); }
        if (!open.empty() || (seen & 14) != 14) { fail("colours-unpaired", "error %zu: %s", i, esc(m).c_str()); return; }
        if (bare != e[0][i]->msg || col != e[1][i]->msg) { fail("colours-change-text", "error %zu: %s without colours, %s with ANSI colours, %s with marks", i, esc(e[0][i]->msg).c_str(), esc(e[1][i]->msg).c_str(), esc(m).c_str()); return; }
        for (int q = 1; q < 3; ++q) if (e[q][i]->pos.offset != e[0][i]->pos.offset || e[q][i]->ctx != e[0][i]->ctx || e[q][i]->ctxoff != e[0][i]->ctxoff) { fail("colours-change-errors", "error %zu is elsewhere with colours", i); return; }
        size_t at = e[0][i]->pos.offset - c.off; if (at < doc.size() && (unsigned char)doc[at] >= 32 && token.find(doc[at]) == string::npos) { fail("wrong-character", "error %zu at byte %zu says %s, the byte there is %s", i, at, esc(bare).c_str(), esc(doc.substr(at, 1)).c_str()); return; } probe("error-colours-checked"); }
}
static void c20_exec(const Plan &p) {
    static const char later[] = "MATCH (n:L {a: 1})-[r*1..2]->() WHERE n.x =~ 'y' /* c */ RETURN n, [1, 2][0]; foo bar;\n:cmd arg 'q'\nRETURN 1";
    static string before; if (before.empty()) { uint64_t h = g_evhash, n = g_stats.ev; bool v = g_verbose; g_verbose = false; ParseSpec l; l.doc = later; before = run_parse(l).text(true); g_evhash = h; g_stats.ev = n; g_verbose = v; }
    ParseSpec s = spec_of(p); LeakCheck lc; int bad = -1; bool differs = false;
    s.on_segment = [&](int k, cypher_parse_segment_t *g) {
        unsigned n = cypher_parse_segment_nroots(g);
        for (unsigned i = 0; i < n && bad < 0; ++i) { const cypher_astnode_t *t = cypher_parse_segment_get_root(g, i); string want; { Harness h; want = dump_tree(t); }
            cypher_astnode_t *cl = cypher_ast_clone(t); if (!cl) { bad = k; break; } { Harness h; if (dump_tree(cl) != want && bad < 0) { bad = k; differs = true; } } cypher_ast_free(cl); } };
    ParseObs o = run_parse(s);
    if (o.rc) { fail("parse-failed", "the parse returned %d (errno %d)", o.rc, o.err); return; }
    if (bad >= 0) { fail("clone-failed", differs ? "the clone of a tree of segment %d differs from it" : "a tree of segment %d cannot be cloned", bad); return; }
    check_invariants(o, s.doc, s.cfg, !(s.flags & SINGLE), "after the parse");
    for (size_t i = 0; i < o.segs.size(); ++i) for (auto &e : o.segs[i].errs) check_context(e, s.doc, s.cfg, i, "after the parse");
    if (failed()) return;
    { QuickSpec q; q.doc = s.doc; q.stream = s.stream; q.d = s.d; q.flags = s.flags; QuickObs r = run_quick(q);
      if (r.rc) { fail("parse-failed", "the quick parse returned %d (errno %d)", r.rc, r.err); return; } quick_account(r, s.doc, s.flags); if (failed()) return; }
    if (s.cfg.color || plankey(p) % 8 == 1) { check_colors(s.doc, s.flags, s.cfg); if (failed()) return; }
    { ParseObs w; cypher_parse_result_t *r = run_parse_result(s, w); if (!r) { fail("parse-failed", "the whole parse failed (errno %d)", w.err); return; }
      ResultObs x = snap_result(r); size_t ne = 0; for (auto &g : o.segs) ne += g.errs.size();
      if ((size_t)x.nerrs != ne) fail("errors-differ", "the whole parse reports %d errors, the segments have %zu", x.nerrs, ne);
      for (auto &e : x.errs) check_context(e, s.doc, s.cfg, 0, "whole parse"); cypher_parse_result_free(r); }
    lc.check("after the parses"); if (failed()) return;
    if (plankey(p) % 4 == 0) { ParseSpec l; l.doc = later; string after = run_parse(l).text(true); if (after != before) fail("later-parse", "a later parse of the same text differs: %s", diff2(after, before).c_str()); }
    nontrivial(plankey(p)); size_t ne = 0; for (auto &g : o.segs) ne += g.errs.size(); if (ne) probe("damaged-with-errors"); else probe("damage-without-errors"); if (s.doc.find('\0') != string::npos) probe("with-nul-bytes");
}
static const char specials[] = "'\"`/*\\;:(){}[]\n\r\t!$.,|<>=-+ aM1"; static_assert(sizeof specials == 32, "");
// nesting costs exponential time (see N03): keep it shallow
static string tame(string d) { int depth = 0, run = 0; for (char &ch : d) { if (ch == '+' || ch == '-') { if (++run > 5) ch = ' '; } else if (!strchr(" \t\r\n", ch)) run = 0; if (strchr("([{", ch) && ch) { if (depth >= 7) ch = ' '; else ++depth; } else if (strchr(")]}", ch) && ch) { if (depth) --depth; } else if (ch == ';') depth = 0; } return d; }
// what storage and transport do to data
static string storage_damage(Rng &r, string d) {
    int n = r.range(1, 4);
    for (int i = 0; i < n && d.size(); ++i) {
        size_t blk = (size_t)1 << r.below(8), at = r.below(d.size()); at -= r.p(.5) ? at % blk : 0; size_t len = std::min(blk, d.size() - at);
        switch (r.below(12)) {
        case 0: d[at] ^= 1 << r.below(8); fault_fired("bit-flip"); break;
        case 1: for (size_t k = 0; k < len; ++k) if (r.p(.2)) d[at + k] ^= 1 << r.below(8); fault_fired("bit-flips"); break;
        case 2: d.erase(at, len); fault_fired("block-lost"); break;
        case 3: d.insert(at, d.substr(at, len)); fault_fired("block-duplicated"); break;
        case 4: { size_t b2 = r.below(d.size()); string x = d.substr(at, len); d.erase(at, len); d.insert(std::min(b2, d.size()), x); fault_fired("block-moved"); break; }
        case 5: std::fill(d.begin() + at, d.begin() + at + len, 0); fault_fired("block-zeroed"); break;
        case 6: for (size_t k = 0; k < len; ++k) d[at + k] = (char)r.below(256); fault_fired("block-garbage"); break;
        case 7: { string o = some_doc(r, 0); d = d.substr(0, at) + o.substr(r.below(o.size() + 1)); fault_fired("spliced"); break; }
        case 8: d.resize(at); fault_fired("cut"); break;
        case 9: d.insert(at, string(r.range(1, 30), specials[r.below(27)])); fault_fired("stuck-byte"); break;
        case 10: { string t; for (char ch : d) { if (ch == '\n' && r.p(.7)) t += "\r\n"; else if (ch != '\r') t += ch; } d = t; fault_fired("line-ends-changed"); break; }
        default: { static const char *tok[] = {"MATCH ", "RETURN ", " WHERE ", "'", "`", "/*", "*/", "//", ";", ":", "(", ")", "[", "]", "{", "}", "-[", "]->", "..", "CASE ", " END", " IN ", " AS ", "|", "$", "\\", "\n", "CYPHER ", "UNION ", "LOAD CSV ", ","}; d.insert(at, tok[r.below(sizeof tok / sizeof *tok)]); fault_fired("token-inserted"); } }
    }
    return d;
}
static void c20_explore(Ctx &c) {
    Rng &r = c.rng; string base = some_doc(r, 20);
    for (int i = 0; i < (c.thorough ? 10 : 4); ++i) {
        string doc; if (r.p(.07)) { size_t n = r.below(r.p(.1) ? 3000 : 120); for (size_t k = 0; k < n; ++k) doc += r.p(.5) ? (char)r.below(256) : specials[r.below(31)]; } else doc = storage_damage(r, base); if (doc.size() > 12000) doc.resize(12000); doc = tame(doc);
        // nesting and runs of white space are bounded: what they cost is not decided here
        Plan p = newplan("C20"); flags_to(p, random_flags(r)); cfg_to(p, random_cfg(r)); p.setdoc(doc); if (r.p(.5)) { p.add("stream"); delivery_to(p, random_delivery(r, doc.size())); } if (!c.run(p)) return; }
}

void props_parse(vector<Prop> &v) {
    v.push_back({"C01", c01_explore, c01_exec, "base"}); v.push_back({"C02", c02_explore, c02_exec, "base"}); v.push_back({"C03", c03_explore, c03_exec, "base"});
    v.push_back({"C04", c04_explore, c04_exec, "base"}); v.push_back({"C05", c05_explore, c05_exec, "base"}); v.push_back({"C06", c06_explore, c06_exec, "base"});
    v.push_back({"C07", c07_explore, c07_exec, "base"}); v.push_back({"C09", c09_explore, c09_exec, "base"}); v.push_back({"C15", c15_explore, c15_exec, "base"});
    v.push_back({"C16", c16_explore, c16_exec, "base"}); v.push_back({"C19", c19_explore, c19_exec, "base"}); v.push_back({"C20", c20_explore, c20_exec, "base"});
}
