// C08, C11-C14: lifetime, annotation, cloning, construction and rendering of trees.
#include "sim.h"
typedef const cypher_astnode_t *N;
unsigned flags_of(const Plan &p);
void flags_to(Plan &p, unsigned f);
const cypher_astnode_t *segment_root(const cypher_parse_segment_t *, unsigned);
const char *sim_errname(int);
static uint64_t plankey(const Plan &p) { return fnv(p.text()); }
static Plan newplan(const char *id) { Plan p; p.addf("prop %s", id); return p; }
static ParseSpec spec_of(const Plan &p) {
    ParseSpec s; s.doc = p.doc(); s.flags = flags_of(p); s.cfg = cfg_of(p); s.stream = p.has("stream"); s.d = delivery_of(p); s.af = faults_of(p); return s; }
static string tree_doc(Rng &r, int kindsp = 35) {
    static vector<string> kinds = all_kinds_docs();
    if (r.below(400) == 0) { probe("giant-document"); return gen_giant(r, random_opts(r), 2100); }
    if (r.below(100) < (uint64_t)kindsp) { string d = r.pick(kinds); while (r.p(.3)) d += "\n" + r.pick(kinds); return r.p(.15) ? decorate(r, d, r.p(.5) ? .1 : .6) : d; }
    return gen_doc(r, random_opts(r)); }
static long argn(const Args &a, size_t i, long d = 0) { return i < a.size() ? atol(a[i].c_str()) : d; }

// ---------------------------------------------------------------------- C08
// plan: `at <k> <op> <j>`: ops performed in callback k (k beyond the last: after the parse):
//   R j retain segment j | L j release it | P run another parse | V just verify
struct C08Ref { vector<long> blocks; vector<string> text; };
static C08Ref c08_ref(const string &doc, unsigned flags, const Cfg &cfg, bool stream) {
    static map<string, C08Ref> memo; string k = sfmt("%u|%d|%u|%u|%zu|%u|%d|%d|", flags, stream, cfg.line, cfg.col, cfg.off, cfg.ord, cfg.color, cfg.null) + doc; auto it = memo.find(k); if (it != memo.end()) return it->second;
    if (memo.size() > 40) memo.clear();
    uint64_t h0 = g_evhash, n0 = g_stats.ev; bool v0 = g_verbose; g_verbose = false; C08Ref ref;
    vector<cypher_parse_segment_t *> held; ParseSpec s; s.doc = doc; s.flags = flags; s.cfg = cfg; s.stream = stream;
    s.on_segment = [&](int, cypher_parse_segment_t *g) { Harness h; cypher_parse_segment_retain(g); held.push_back(g); };
    ParseObs o = run_parse(s); { Harness h; for (auto &x : o.segs) ref.text.push_back(x.text(true)); for (auto *g : held) { long b = (long)live_blocks(); cypher_parse_segment_release(g); ref.blocks.push_back(b - (long)live_blocks()); } }
    g_evhash = h0; g_stats.ev = n0; g_verbose = v0; memo[k] = ref; return ref; }
static void c08_exec(const Plan &p) {
    ParseSpec s = spec_of(p); for (auto &a : p.all("cb")) for (auto &x : a) s.cb.push_back(atoi(x.c_str()));
    C08Ref ref = c08_ref(s.doc, s.flags, s.cfg, s.stream); LeakCheck lc; vector<cypher_parse_segment_t *> seg; vector<int> refs; vector<string> text; vector<Args> ats = p.all("at");
    bool multi = false; SimIn in(s.doc, s.d); if (s.stream) s.in = &in;
    auto verify = [&](const char *when) { Harness h; for (size_t j = 0; j < seg.size() && !failed(); ++j) if (refs[j] > 0 && !text[j].empty()) { string t = snap_segment(seg[j]).text(true); if (t != text[j]) fail("retained-segment-changed", "%s, retained segment %zu differs: %s", when, j, diff2(t, text[j]).c_str()); } };
    auto drop = [&](int j, bool in_callback_of_j) {   // one release; checks what it frees
        Harness h; long b = (long)live_blocks(); bool last = refs[j] == 1 && !in_callback_of_j; refs[j]--; cypher_parse_segment_release(seg[j]); long freed = b - (long)live_blocks();
        if (!last && freed) fail("released-too-early", "a release of segment %d that was not the last one freed %ld blocks", j, freed);
        if (last && j < (int)ref.blocks.size() && freed != ref.blocks[j]) fail("not-all-released", "the last release of segment %d freed %ld blocks, it holds %ld", j, freed, ref.blocks[j]); };
    int cur = -1;
    auto ops = [&](int k, bool after) {
        for (auto &a : ats) { if (failed()) return; if (a.size() < 2 || (after ? argn(a, 0) < (long)seg.size() && argn(a, 0) >= 0 : argn(a, 0) != k)) continue; int j = (int)argn(a, 2); char op = a[1][0]; if (after && j >= (int)seg.size() && (op == 'R' || op == 'L')) continue;
            if ((op == 'R' || op == 'L') && (j < 0 || j >= (int)seg.size())) continue;
            switch (op) {
            case 'R': if (refs[j] <= 0 && j != cur) continue; { Harness h; long b = (long)live_blocks(); cypher_parse_segment_retain(seg[j]); long k = std::max(1l, argn(a, 3, 1)); refs[j]++; while (--k > 0) { cypher_parse_segment_retain(seg[j]); refs[j]++; } if ((long)live_blocks() != b) fail("retain-allocates", "retaining changed the live allocations"); } break;
            case 'L': { if (refs[j] <= 0) continue; for (long k = std::max(1l, argn(a, 3, 1)); k > 0 && refs[j] > 0 && !failed(); --k) drop(j, j == cur); } if (j != cur || !after) multi = true; break;
            case 'P': { ParseSpec q; q.doc = a.size() > 3 ? unhex(a[3]) : "RETURN 1;"; q.flags = s.flags; q.af.at = {}; if (a.size() > 2 && j >= 0) q.af.at.insert(j); TaskMem m = *t_mem; run_parse(q); if (t_mem->armed) { /* nested window restored */ } (void)m; break; }
            default: break; }
            ev("at %d %c %d", k, op, j); verify("after an operation"); } };
    s.on_segment = [&](int k, cypher_parse_segment_t *g) { seg.push_back(g); refs.push_back(0); text.push_back(""); cur = k; { Harness h; text[k] = snap_segment(g).text(true); } if (k < (int)ref.text.size() && text[k] != ref.text[k]) fail("segment-differs", "segment %d differs from the reference parse: %s", k, diff2(text[k], ref.text[k]).c_str()); verify("while parsing"); ops(k, false); };
    s.on_return = [&](int k, cypher_parse_segment_t *g) { { Harness h; if (!failed()) { string t = snap_segment(g).text(true); if (t != text[k]) fail("segment-changed-in-callback", "segment %d changed during its own callback: %s", k, diff2(t, text[k]).c_str()); } } cur = -1; return failed() ? -77 : k < (int)s.cb.size() ? s.cb[k] : 0; };
    ParseObs o = run_parse(s); cur = -1;
    if (!failed()) { long want = (long)lc.b0; for (size_t j = 0; j < seg.size(); ++j) if (refs[j] > 0) want += j < ref.blocks.size() ? ref.blocks[j] : 0; if ((long)live_blocks() != want) fail("leak", "after the parse (rc %d) %ld blocks are live, the retained segments hold %ld", o.rc, (long)live_blocks() - (long)lc.b0, want - (long)lc.b0); }
    if (!failed()) verify("after the parse"); ops(-2, true);
    bool held = false; for (size_t j = 0; j < seg.size(); ++j) while (refs[j] > 0 && !failed()) { held = true; drop((int)j, false); if (refs[j] < 2 || refs[j] % 97 == 0) verify("while releasing"); }
    if (failed()) return; if (held || multi) nontrivial(plankey(p)); if (o.fired) probe("parse-failed-with-segments-retained", held); lc.check("at the end");
}
static void c08_explore(Ctx &c) {
    Rng &r = c.rng; string doc = tree_doc(r, 20); if (r.p(.5)) doc += "\n" + tree_doc(r, 20); unsigned fl = r.p(.2) ? CYPHER_PARSE_ONLY_STATEMENTS : 0; Cfg cfg = random_cfg(r); bool stream = r.p(.5);
    { ParseObs o = ref_parse(doc, fl, cfg, stream); size_t most = r.p(.1) ? 150 : 40; if (o.segs.size() > most) doc.resize(o.segs[most - 1].range.end.offset - cfg.off); }   // every step looks at every segment again
    C08Ref ref = c08_ref(doc, fl, cfg, stream); int n = (int)ref.text.size(); uint64_t na = ref_parse(doc, fl, cfg, stream).nalloc;
    for (int rep = 0; rep < (c.thorough ? 12 : 6); ++rep) {
        Plan p = newplan("C08"); p.setdoc(doc); flags_to(p, fl); cfg_to(p, cfg); Delivery d; if (stream) { p.add("stream"); d = random_delivery(r, doc.size()); if (r.p(.2)) { d.err_at = (long)r.below(doc.size() + 1); d.err_no = EIO; } delivery_to(p, d); }
        if (r.p(.4) && na) { if (r.p(.8)) p.addf("fail %llu", (unsigned long long)r.below(na)); else p.addf("failfrom %llu", (unsigned long long)r.below(na)); }
        if (r.p(.25) && n) { string l = "cb"; int k = r.range(0, n - 1); for (int i = 0; i < k; ++i) l += " 0"; l += r.p(.5) ? " 1" : " -5"; p.add(l); }
        bool many = r.p(.15); double keep = r.p(.5) ? .9 : .4; vector<int> rc(n + 1, 0);
        for (int k = 0; k <= n; ++k) {
            if (k < n && r.p(keep)) { if (many && r.p(.5)) { static const int ks[] = {2, 127, 128, 254, 255, 256, 257, 300, 511, 512, 32767, 32768, 65534, 65535, 65536, 65537, 70000}; int w = ks[r.below(r.p(.7) ? 10 : 17)]; p.addf("at %d R %d %d", k, k, w); if (r.p(.5)) p.addf("at %d L %d %d", k < n - 1 ? k + 1 : 100000, k, r.p(.5) ? w - 1 : r.range(1, w)); } else p.addf("at %d R %d", k, k); rc[k]++; }
            int m = r.range(0, 3); while (m--) { int j = n ? r.range(0, std::min(k, n - 1)) : 0; int at = k == n ? 100000 : k; switch (r.below(5)) {
                case 0: p.addf("at %d R %d", at, j); break; case 1: case 2: p.addf("at %d L %d", at, j); break;
                case 3: p.addf("at %d P %d %s", at, r.p(.4) ? (int)r.below(40) : -1, hex(gen_statement(r, 1) + ";").c_str()); break; default: p.addf("at %d V", at); } } }
        if (!c.run(p)) return;
    }
}

// ------------------------------------------------------- trees for C11-C14
struct Obj { N root; cypher_astnode_t *own; int seg; string dump; bool live; };   // own: a clone we must free; seg: owned by that segment
struct Forest {
    vector<cypher_parse_segment_t *> segs; vector<Obj> objs; bool ok = false;
    void parse(const Plan &p) { ParseSpec s = spec_of(p); s.af = AllocFaults(); s.on_segment = [&](int, cypher_parse_segment_t *g) { cypher_parse_segment_retain(g); segs.push_back(g); };
        Harness h; ParseObs o = run_parse(s); if (o.rc) { fail("parse-failed", "rc %d", o.rc); return; }
        for (size_t i = 0; i < segs.size(); ++i) for (unsigned k = 0; k < cypher_parse_segment_nroots(segs[i]); ++k) if (N n = segment_root(segs[i], k)) objs.push_back({n, nullptr, (int)i, dump_tree(n), true});
        ok = true; }
    int live_count() { int n = 0; for (auto &o : objs) n += o.live; return n; }
    int pick(long k) { int n = live_count(); if (!n) return -1; k = ((k % n) + n) % n; for (size_t i = 0; i < objs.size(); ++i) if (objs[i].live && k-- == 0) return (int)i; return -1; }
    void release_seg(int i) { if (!segs[i]) return; for (auto &o : objs) if (o.seg == i && !o.own) o.live = false; cypher_parse_segment_release(segs[i]); segs[i] = nullptr; }
    void free_obj(int i) { Obj &o = objs[i]; if (!o.live) return; if (o.own) { o.live = false; cypher_ast_free(o.own); } else release_seg(o.seg); }
    void free_all() { for (size_t i = 0; i < objs.size(); ++i) free_obj((int)i); for (size_t i = 0; i < segs.size(); ++i) release_seg((int)i); }
    ~Forest() { Harness h; free_all(); }
};
static N node_at(N root, long k) { vector<N> v; preorder(root, v); return v[((k % (long)v.size()) + (long)v.size()) % (long)v.size()]; }

// the rendering of a tree without the numbers of its nodes and the padding
static string shape(N n) { Harness h; char *b = nullptr; size_t l = 0; FILE *f = open_memstream(&b, &l); int rc = cypher_ast_fprint(n, f, 0, nullptr, 0); fclose(f); string t(b, l), o; free(b); if (rc) return "RENDERING FAILED";
    for (size_t i = 0; i < t.size(); ++i) { if (t[i] == ' ') continue; o += t[i]; if (t[i] == '@' && i + 2 < t.size() && t[i + 1] == '-' && isdigit((unsigned char)t[i + 2])) ++i; if (t[i] == '@' || (i && t[i] == '-' && t[i - 1] == '@')) while (i + 1 < t.size() && isdigit((unsigned char)t[i + 1])) ++i; } return o; }

// ---------------------------------------------------------------------- C12
// plan ops: `c <obj> <node> [fault idx]` clone | `f <obj>` free | `a <obj> <node>` annotate
static void count_handler(void *u, N, void *) { ++*(int *)u; }
static void c12_exec(const Plan &p) {
    LeakCheck lc; { Forest f; f.parse(p); if (!f.ok) return; bool nt = false;
    Harness *hh = new Harness; cypher_ast_annotation_context_t *ctx = cypher_ast_annotation_context(); int released = 0; cypher_ast_annotation_context_set_release_handler(ctx, count_handler, &released); delete hh;
    struct An { N node; int obj; void *val; }; vector<An> ans; int nval = 0; char vals[64];
    auto verify = [&](const char *when) { Harness h; for (size_t i = 0; i < f.objs.size() && !failed(); ++i) { Obj &o = f.objs[i]; if (!o.live) continue; string d = dump_tree(o.root); if (d != o.dump) fail(o.own ? "clone-changed" : "original-changed", "%s, tree %zu: %s", when, i, diff2(d, o.dump).c_str()); }
        for (auto &a : ans) if (!failed() && f.objs[a.obj].live && cypher_astnode_get_annotation(ctx, a.node) != a.val) fail("annotation-lost", "%s, an annotation of tree %d is gone", when, a.obj); };
    for (auto &l : p.lines) { if (failed()) break; Args a = split(l);
        if (a[0] == "c") { int oi = f.pick(argn(a, 1)); if (oi < 0) continue; N src = node_at(f.objs[oi].root, argn(a, 2)); if (!src) continue; string want; { Harness h; want = dump_tree(src); }
            AllocFaults af; if (a.size() > 3) { if (a[3][0] == '+') af.from = atol(a[3].c_str() + 1); else af.at.insert(argn(a, 3)); } long b = (long)live_blocks(); cypher_astnode_t *cl; uint64_t fired; int e;
            { Window w(&af, 20000000); errno = 0; cl = cypher_ast_clone(src); e = errno; fired = w.fired(); }
            ev("clone %d %s -> %s", oi, type_name(src), cl ? "tree" : "NULL");
            if (!cl) { if (!fired) { fail("clone-failed", "cloning a %s failed without a fault, errno %d", type_name(src), e); break; } if (e != ENOMEM) { fail("wrong-error", "a clone failed for lack of memory with errno %d", e); break; }
                if ((long)live_blocks() != b) { fail("leak", "a failed clone of a %s left %ld blocks", type_name(src), (long)live_blocks() - b); break; } probe("clone-failed-cleanly"); nt = true; verify("after a failed clone"); continue; }
            f.objs.push_back({cl, cl, -1, want, true}); string got; { Harness h; got = dump_tree(cl); }
            if (got != want) { fail("clone-differs", "the clone of a %s: %s", type_name(src), diff2(got, want).c_str()); break; }
            { string x = shape(cl), y = shape(src); if (x != y) { fail("clone-renders-differently", "the clone of a %s: %s", type_name(src), diff2(x, y).c_str()); break; } }
            { Harness h; vector<N> x, y; preorder(cl, x); preorder(src, y); set<N> ys(y.begin(), y.end()); for (auto n : x) { if (ys.count(n)) { fail("shared-node", "clone and original share a %s", type_name(n)); break; } if (cypher_astnode_get_annotation(ctx, n)) { fail("annotation-cloned", "a cloned %s carries an annotation", type_name(n)); break; } } }
            if (f.objs[oi].own) probe("clone-of-clone"); verify("after a clone"); }
        else if (a[0] == "f") { int oi = f.pick(argn(a, 1)); if (oi < 0) continue; int want = released; bool own = f.objs[oi].own; int sg = f.objs[oi].seg; for (auto &x : ans) if (f.objs[x.obj].live && (x.obj == oi || (!own && !f.objs[x.obj].own && f.objs[x.obj].seg == sg))) ++want;
            { Window w; f.free_obj(oi); } ev("free %d", oi); if (released != want) { fail("annotations-released", "freeing tree %d released %d annotations instead of %d", oi, released, want); break; } verify("after a release"); if (own || f.live_count()) nt = true; }
        else if (a[0] == "a") { int oi = f.pick(argn(a, 1)); if (oi < 0 || nval >= 60) continue; N n = node_at(f.objs[oi].root, argn(a, 2)); Harness h; void *prev; void *v = &vals[nval++]; if (cypher_astnode_attach_annotation(ctx, n, v, &prev)) { fail("attach-failed", "errno %d", errno); break; } for (size_t k = 0; k < ans.size(); ++k) if (ans[k].node == n && f.objs[ans[k].obj].live) { ans.erase(ans.begin() + k); break; } ans.push_back({n, oi, v}); ev("annotate %d", oi); }
    }
    if (!failed()) { for (size_t i = f.objs.size(); i-- > 0 && !failed();) { if (!f.objs[i].live) continue; { Harness h; f.free_obj((int)i); } verify("while releasing"); } }
    { Harness h; if (!failed()) f.free_all(); cypher_ast_annotation_context_free(ctx); cypher_ast_free(nullptr); cypher_astnode_free(nullptr); cypher_ast_annotation_context_free(nullptr); if (!failed() && cypher_ast_clone(nullptr)) fail("clone-differs", "of nothing"); } if (failed()) return; if (nt) nontrivial(plankey(p)); }
    lc.check("at the end");
}
static void c12_explore(Ctx &c) {
    Rng &r = c.rng; static vector<string> kinds = all_kinds_docs(); string doc = c.index < (long)kinds.size() ? kinds[c.index] : tree_doc(r); Cfg cfg = random_cfg(r);
    auto base = [&] { Plan p = newplan("C12"); p.setdoc(doc); cfg_to(p, cfg); return p; };
    for (int rep = 0; rep < 3; ++rep) { Plan p = base(); int n = r.range(2, 10); for (int i = 0; i < n; ++i) switch (r.below(6)) { case 0: p.addf("a %d %d", r.range(0, 9), r.range(0, 200)); break; case 1: p.addf("f %d", r.range(0, 9)); break; case 2: p.addf("c %d %d %d", r.range(0, 9), r.p(.6) ? 0 : r.range(0, 200), r.range(0, 60)); break; default: p.addf("c %d %d", r.range(0, 9), r.p(.6) ? 0 : r.range(0, 200)); } if (!c.run(p)) return; }
    // every allocation of one clone of one tree
    uint64_t n = 0; int o = 0, k = 0; { Forest f; f.parse(base()); if (!f.ok || f.objs.empty()) return; Harness h; o = r.range(0, (int)f.objs.size() - 1); k = r.p(.7) ? 0 : r.range(0, 100); N src = node_at(f.objs[f.pick(o)].root, k); --t_harness; { Window w(nullptr, parse_budget(20000)); cypher_ast_free(cypher_ast_clone(src)); n = w.n(); } ++t_harness; }
    uint64_t maxp = c.thorough ? 400 : 25, step = n > maxp ? n / maxp : 1, off = step > 1 ? r.below(step) : 0;
    // several faulty clones in one history, then a good one
    for (uint64_t i = off; i < n && !failed(); i += step * 5) { Plan p = base(); for (uint64_t j = 0; j < 5 && i + j * step < n; ++j) p.addf("c %d %d %llu", o, k, (unsigned long long)(i + j * step)); if (r.p(.2)) p.addf("c %d %d +%llu", o, k, (unsigned long long)r.below(n)); p.addf("c %d %d", o, k); if (!c.run(p)) return; }
}

// ---------------------------------------------------------------------- C11
// ops: new | hnd <c> <0|1> | att <c> <t> <n> [fault] | rem <c> <t> <n> | clone <t> | ft <t> | fn <t> (the root of a clone alone, its children are trees then) | fc <c>
struct RelCall { void *ud; N node; void *val; string type; };
static vector<RelCall> *g_rel;
static void c11_h1(void *u, N n, void *v) { Harness h; g_rel->push_back({u, n, v, n ? type_name(n) : "NULL"}); }
static void c11_h2(void *u, N n, void *v) { Harness h; g_rel->push_back({(char *)u + 1, n, v, n ? type_name(n) : "NULL"}); }
static void c11_exec(const Plan &p) {
    LeakCheck lc; { Forest f; f.parse(p); if (!f.ok) return; vector<RelCall> calls; g_rel = &calls; bool nt = false;
    struct Cx { cypher_ast_annotation_context_t *c; int h; char tag[4]; bool live; }; vector<std::unique_ptr<Cx>> cxs; typedef std::pair<int, N> Key; map<Key, void *> model; map<N, std::pair<int, string>> info; // node -> object, type
    vector<char> pool(4096); size_t nv = 0;
    auto obj_nodes = [&](int i) { vector<N> v; Harness h; preorder(f.objs[i].root, v); return v; };
    for (size_t i = 0; i < f.objs.size(); ++i) for (auto n : obj_nodes(i)) info[n] = {(int)i, type_name(n)};
    auto pickc = [&](long k) { int n = 0; for (auto &x : cxs) n += x->live; if (!n) return -1; k = ((k % n) + n) % n; for (size_t i = 0; i < cxs.size(); ++i) if (cxs[i]->live && k-- == 0) return (int)i; return -1; };
    auto verify = [&](const char *when) { Harness h; for (size_t i = 0; i < cxs.size() && !failed(); ++i) { if (!cxs[i]->live) continue; for (auto &x : info) { auto it = model.find({(int)i, x.first}); void *want = it == model.end() ? nullptr : it->second; void *got = cypher_astnode_get_annotation(cxs[i]->c, x.first); if (got != want) { fail(want ? got ? "wrong-annotation" : "annotation-lost" : "annotation-appeared", "%s, context %zu, a %s of tree %d", when, i, x.second.second.c_str(), x.second.first); break; } } } };
    auto expect_calls = [&](const vector<RelCall> &want, const char *when) { auto key = [](const RelCall &x) { return std::make_tuple((uintptr_t)x.ud, (uintptr_t)x.node, (uintptr_t)x.val); }; vector<std::tuple<uintptr_t, uintptr_t, uintptr_t>> a, b; for (auto &x : calls) a.push_back(key(x)); for (auto &x : want) b.push_back(key(x)); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        if (a != b) { string d; if (a.size() != b.size()) d = sfmt("%zu handler calls instead of %zu", a.size(), b.size()); else { bool nn = false; for (auto &x : calls) nn |= !x.node; d = nn ? "the handler was called without the node" : "the handler was called with other arguments"; } fail("handler-calls", "%s: %s", when, d.c_str()); }
        else for (auto &x : calls) if (info.count(x.node) && info[x.node].second != x.type) { fail("handler-node", "%s: the node had already lost its type when the handler was called", when); break; }
        if (!calls.empty()) nt = true; calls.clear(); };
    auto ud = [&](int ci) { return (void *)(cxs[ci]->h == 1 ? &cxs[ci]->tag[0] : &cxs[ci]->tag[2]); };
    for (auto &l : p.lines) { if (failed()) break; Args a = split(l); const string &op = a[0]; long b = (long)live_blocks();
        if (op == "new") { AllocFaults af; if (a.size() > 1) af.at.insert(argn(a, 1)); cypher_ast_annotation_context_t *c; uint64_t fired; { Window w(&af); errno = 0; c = cypher_ast_annotation_context(); fired = w.fired(); } if (!c) { if (!fired) fail("context-failed", "without a fault"); else if (errno != ENOMEM) fail("wrong-error", "errno %d", errno); continue; } auto x = std::make_unique<Cx>(); x->c = c; x->h = 0; x->live = true; cxs.push_back(std::move(x)); ev("new"); }
        else if (op == "hnd") { int c = pickc(argn(a, 1)); if (c < 0) continue; int h = (int)argn(a, 2) % 3; cxs[c]->h = h; Window w; cypher_ast_annotation_context_set_release_handler(cxs[c]->c, h == 0 ? nullptr : h == 1 ? c11_h1 : c11_h2, h == 0 ? nullptr : h == 1 ? &cxs[c]->tag[0] : &cxs[c]->tag[1]); ev("handler %d %d", c, h); }
        else if (op == "att") { int c = pickc(argn(a, 1)), t = f.pick(argn(a, 2)); if (c < 0 || t < 0 || nv >= pool.size()) continue; N n = node_at(f.objs[t].root, argn(a, 3)); void *v = &pool[nv++]; AllocFaults af; bool noprev = a.size() > 4 && a[4] == "-"; if (a.size() > 4 && !noprev) af.at.insert(argn(a, 4)); void *prev = &pool; int rc, e; uint64_t fired; { Window w(&af); errno = 0; rc = cypher_astnode_attach_annotation(cxs[c]->c, n, v, noprev ? nullptr : &prev); e = errno; fired = w.fired(); }
            void *old = model.count({c, n}) ? model[{c, n}] : nullptr; ev("attach %d %d -> %d", c, t, rc);
            if (rc) { if (!fired) { fail("attach-failed", "attach failed without a fault, errno %d", e); break; } if (rc != -1 || e != ENOMEM) { fail("wrong-error", "attach returned %d, errno %d after a failed allocation", rc, e); break; } if ((long)live_blocks() != b) { fail("leak", "a failed attach left %ld blocks", (long)live_blocks() - b); break; } probe("attach-failed-cleanly"); }
            else { if (!noprev && prev != old) { fail("previous", "attach reported a wrong previous annotation"); break; } model[{c, n}] = v; if (old) probe("replaced"); }
            expect_calls({}, "attach"); }
        else if (op == "rem") { int c = pickc(argn(a, 1)), t = f.pick(argn(a, 2)); if (c < 0 || t < 0) continue; N n = node_at(f.objs[t].root, argn(a, 3)); if (a.size() > 4) { vector<N> v; for (auto &x : model) if (x.first.first == c) v.push_back(x.first.second); if (!v.empty()) { std::sort(v.begin(), v.end(), [&](N x, N y) { auto px = info[x], py = info[y]; if (px.first != py.first) return px.first < py.first; vector<N> o = obj_nodes(px.first); return std::find(o.begin(), o.end(), x) < std::find(o.begin(), o.end(), y); }); n = v[argn(a, 3) % (long)v.size()]; } } void *got; { Window w; got = cypher_astnode_remove_annotation(cxs[c]->c, n); } auto it = model.find({c, n}); void *want = it == model.end() ? nullptr : it->second; if (got != want) { fail("removed", "remove returned a wrong annotation"); break; } if (it != model.end()) { model.erase(it); probe("removed"); } expect_calls({}, "remove"); ev("remove"); }
        else if (op == "clone") { int t = f.pick(argn(a, 1)); if (t < 0 || f.objs.size() > 60) continue; N src = node_at(f.objs[t].root, argn(a, 2)); cypher_astnode_t *cl; { Window w(nullptr, 20000000); cl = cypher_ast_clone(src); } if (!cl) { fail("clone-failed", "without a fault"); break; } f.objs.push_back({cl, cl, -1, "", true}); for (auto n : obj_nodes((int)f.objs.size() - 1)) info[n] = {(int)f.objs.size() - 1, type_name(n)}; ev("clone"); }
        else if (op == "ft") { int t = f.pick(argn(a, 1)); if (t < 0) continue; set<int> gone; if (f.objs[t].own) gone.insert(t); else for (size_t i = 0; i < f.objs.size(); ++i) if (f.objs[i].live && !f.objs[i].own && f.objs[i].seg == f.objs[t].seg) gone.insert((int)i);
            vector<RelCall> want; vector<Key> dead; for (auto &x : model) if (gone.count(info[x.first.second].first)) { dead.push_back(x.first); int c = x.first.first; if (cxs[c]->h) want.push_back({ud(c), x.first.second, x.second, ""}); }
            { Window w; f.free_obj(t); } expect_calls(want, "releasing a tree"); for (auto &k : dead) model.erase(k); for (auto it = info.begin(); it != info.end();) if (gone.count(it->second.first)) it = info.erase(it); else ++it; ev("free tree"); if (!dead.empty()) probe("released-with-tree", dead.size()); }
        else if (op == "fn") { int t = f.pick(argn(a, 1)); if (t < 0 || !f.objs[t].own || f.objs.size() > 200) continue; N n = f.objs[t].root; vector<N> kids; { Harness h; for (unsigned i = 0; i < cypher_astnode_nchildren(n); ++i) kids.push_back(cypher_astnode_get_child(n, i)); }
            vector<RelCall> want; vector<Key> dead; for (auto &x : model) if (x.first.second == n) { dead.push_back(x.first); int c = x.first.first; if (cxs[c]->h) want.push_back({ud(c), n, x.second, ""}); }
            f.objs[t].live = false; { Window w; cypher_astnode_free(f.objs[t].own); } expect_calls(want, "releasing a single node"); for (auto &k : dead) model.erase(k); info.erase(n); for (auto k : kids) { f.objs.push_back({k, (cypher_astnode_t *)k, -1, "", true}); for (auto x : obj_nodes((int)f.objs.size() - 1)) info[x].first = (int)f.objs.size() - 1; } ev("free node"); if (!dead.empty()) probe("released-with-single-node", dead.size()); }
        else if (op == "fc") { int c = pickc(argn(a, 1)); if (c < 0) continue; vector<RelCall> want; size_t nd = 0; for (auto it = model.begin(); it != model.end();) if (it->first.first == c) { if (cxs[c]->h) want.push_back({ud(c), it->first.second, it->second, ""}); it = model.erase(it); ++nd; } else ++it;
            { Window w; cypher_ast_annotation_context_free(cxs[c]->c); } cxs[c]->live = false; expect_calls(want, "releasing a context"); if ((long)live_blocks() != b - 1 - (long)nd) { fail("leak", "releasing a context with %zu annotations freed %ld blocks", nd, b - (long)live_blocks()); break; } if (nd) probe("released-with-context", nd); ev("free context"); }
        else continue;
        verify(op.c_str()); }
    // at the end everything goes, trees and contexts alternately
    { Harness h; bool bad = failed(); for (size_t i = 0; i < cxs.size(); ++i) { if (i < f.objs.size() && (i & 1)) f.free_obj((int)i); if (cxs[i]->live) cypher_ast_annotation_context_free(cxs[i]->c); } f.free_all(); if (!bad) { size_t want = 0; for (auto &x : model) want += cxs[x.first.first]->h != 0; if (calls.size() != want) fail("handler-calls", "%zu handler calls at the end instead of %zu", calls.size(), want); } }
    g_rel = nullptr; if (failed()) return; if (nt) nontrivial(plankey(p)); }
    lc.check("at the end");
}
static void c11_explore(Ctx &c) {
    Rng &r = c.rng; string doc = r.p(.5) ? tree_doc(r, 30) : gen_statement(r, 1) + ";" + (r.p(.5) ? gen_statement(r, 1) + ";" : "");
    for (int rep = 0; rep < (c.thorough ? 8 : 4); ++rep) { Plan p = newplan("C11"); p.setdoc(doc); int nc = r.range(1, 4); for (int i = 0; i < nc; ++i) { p.add("new"); p.addf("hnd %d %d", i, r.range(0, 2)); } int nodes = r.p(.5) ? r.range(1, 4) : 60, n = r.range(5, 60); bool heavy = r.p(.5);
        for (int i = 0; i < n; ++i) switch (r.below(heavy ? 24 : 14)) { case 0: p.addf("ft %d", r.range(0, 5)); break; case 1: p.addf("fc %d", r.range(0, 5)); break; case 2: p.add("new"); break; case 3: p.addf("hnd %d %d", r.range(0, 4), r.range(0, 2)); break; case 4: p.addf("clone %d %d", r.range(0, 5), r.p(.5) ? 0 : r.range(0, 40)); if (r.p(.25)) { int k = r.range(0, 3); while (k--) p.addf("att %d -1 0", r.range(0, 4)); p.add("fn -1"); } break; case 5: p.addf("rem %d %d %d", r.range(0, 4), r.range(0, 5), r.range(0, nodes)); break; case 6: case 7: p.addf("rem %d %d %d any", r.range(0, 4), r.range(0, 5), r.range(0, 9)); break; case 8: p.addf("att %d %d %d 0", r.range(0, 4), r.range(0, 5), r.range(0, nodes)); break; case 9: p.addf("att %d %d %d -", r.range(0, 4), r.range(0, 5), r.range(0, nodes)); break; default: p.addf("att %d %d %d", r.range(0, 4), r.range(0, 5), r.range(0, nodes)); }
        if (!c.run(p)) return; }
}
// ---------------------------------------------------------------------- C13
// plan ops: `b <obj> <node> <fault index|-|+index> <flip> <optional to drop, -1 none> <comment position, -1 none> <range> <1: release the node only | 2: give its lists and texts twice over | 4: make them very long | 8: a text of its own>`
struct Builder {
    N n; cypher_astnode_t **ch = nullptr; unsigned nch = 0; cypher_input_range range; vector<vector<cypher_astnode_t *>> l; vector<const cypher_operator_t *> op; const char *s = nullptr; size_t len = 0;
    std::unordered_map<N, cypher_astnode_t *> to; bool flip = false; int drop = -1, nopt = 0, nflag = 0; string dropped; vector<cypher_astnode_t *> kids;
    cypher_astnode_t *at(N c) { if (!c) return nullptr; auto it = to.find(c); return it == to.end() ? nullptr : it->second; }
    // what was given, to be read back through the same accessors
    vector<std::pair<N (*)(N), N>> gave; vector<std::pair<bool (*)(N), bool>> gaveflag;
    const cypher_astnode_t *give(N (*g)(N), const cypher_astnode_t *c) { Harness h; gave.push_back({g, c}); return c; }
    const cypher_astnode_t *m(N (*g)(N)) { return give(g, at(g(n))); }
    const cypher_astnode_t *opt(const char *name, N (*g)(N)) { if (nopt++ == drop) { Harness h; dropped = name; return give(g, nullptr); } return give(g, at(g(n))); }
    bool flag(bool (*g)(N)) { ++nflag; Harness h; gaveflag.push_back({g, g(n) != flip}); return g(n) != flip; }
    // longer lists and texts than the parsed node has: `grow` elements or more (or twice as many), made of clones of those it has
    unsigned grow = 0; bool grown = false, alternate = false; vector<std::function<N(N, unsigned)>> get; const char *(*gettext)(N) = nullptr;
    void more(vector<cypher_astnode_t *> &v, unsigned group) {
        size_t k = v.size(), first = alternate ? 1 : 0; if (!grow || k <= first) return; size_t weight = 0; for (auto x : v) weight += x ? count_nodes(x) : 0;
        size_t want = grow <= 1 ? 2 * k : grow; while (want > 2 * k && want / k * weight > 9000) want = 2 * k; for (auto x : v) if (!x) return; grown = true;
        for (size_t i = first; v.size() < want || (v.size() - (alternate ? 1 : 0)) % group; i = i + 1 < k ? i + 1 : first) { cypher_astnode_t *c = cypher_ast_clone(v[i]); if (!c) return; kids.push_back(c); v.push_back(c); }
        if (v.size() > 255) probe("lists-beyond-255"); }
    static size_t count_nodes(N c) { size_t n = 1; for (unsigned i = 0, k = cypher_astnode_nchildren(c); i < k; ++i) n += count_nodes(cypher_astnode_get_child(c, i)); return n; }
    void list(N (*g)(N, unsigned), unsigned k) { l.emplace_back(); get.push_back(g); for (unsigned i = 0; i < k; ++i) l.back().push_back(at(g(n, i))); more(l.back(), alternate ? 2 : 1); }
    void pairs(N (*a)(N, unsigned), N (*b)(N, unsigned), unsigned k) { l.emplace_back(); get.push_back([a, b](N x, unsigned i) { return i % 2 ? b(x, i / 2) : a(x, i / 2); }); for (unsigned i = 0; i < k; ++i) { l.back().push_back(at(a(n, i))); l.back().push_back(at(b(n, i))); } more(l.back(), 2); }
    void ops(const cypher_operator_t *(*g)(N, unsigned), unsigned k) { for (unsigned i = 0; i < k; ++i) op.push_back(g(n, i)); while (k && op.size() + 1 < l[0].size()) op.push_back(op[op.size() - k]); getop = g; }
    const cypher_operator_t *(*getop)(N, unsigned) = nullptr;
    // exactly len bytes, no terminator; `own`: not the parsed node's text
    int own = -1; void text(const char *(*g)(N)) { static const char chars[] = "aZ \n\t'\"`\\\xc3\xa9;/*09_$"; const char *v = g(n); string o; if (own >= 0) for (int i = 0, k = own % 4 ? own % 37 : 0; i < k; ++i) o += chars[(own + 7 * i) % (sizeof(chars) - 1)]; else o = v ? v : ""; if (own >= 0) { grown = true; probe(o.empty() ? "empty-text-of-its-own" : "text-of-its-own"); } gettext = g; size_t k = len = o.size();
        if (grow && len) { len = grow <= 1 ? 2 * len : len * (1 + 70000 / len); grown = true; if (len > 65535) probe("text-beyond-64k"); } char *c = (char *)malloc(len ? len : 1); for (size_t i = 0; i < len; i += k) memcpy(c + i, o.data(), k); s = c; }
    ~Builder() { free((void *)s); }
};
struct Ctor { const char *name; const cypher_astnode_type_t *type; void (*prep)(Builder &); cypher_astnode_t *(*make)(Builder &); };
static const Ctor g_ctors[] = {
#define CTOR2(T, name, prep, call) {#name, &CYPHER_AST_##T, [](Builder &b) { prep; }, [](Builder &b) -> cypher_astnode_t * { return call; }},
#define CTOR(T, prep, call) {#T, &CYPHER_AST_##T, [](Builder &b) { prep; }, [](Builder &b) -> cypher_astnode_t * { return call; }},
#include "ctors.inc"
};
static string flip_bools(const string &s) { string o; size_t i = 0; while (i < s.size()) { size_t e = s.find(' ', i); if (e == string::npos) e = s.size(); string w = s.substr(i, e - i); size_t q = w.find('=');
        if (q != string::npos && w.find("include_existing") == string::npos) { string v = w.substr(q + 1); if (v == "true") w = w.substr(0, q + 1) + "false"; else if (v == "false") w = w.substr(0, q + 1) + "true"; } o += w; if (e < s.size()) o += ' '; i = e + 1; } return o; }
static string drop_attr(const string &s, const string &name) { size_t p = s.find(" " + name + "="); if (p == string::npos) return s; size_t v = p + name.size() + 2, e = s.find(' ', v); if (e == string::npos) e = s.size(); return s.substr(0, v) + "NULL" + s.substr(e); }
static string shown(N n) { auto plain = [](const string &s) { string o; for (size_t i = 0; i < s.size(); ++i) { o += s[i]; if (s[i] == '@') while (i + 1 < s.size() && isdigit((unsigned char)s[i + 1])) ++i; else if (s[i] == ' ') while (i + 1 < s.size() && s[i + 1] == ' ') ++i; } return o; }; char *b = nullptr; size_t k = 0; FILE *f = open_memstream(&b, &k); cypher_ast_fprint(n, f, 0, cypher_parser_no_colorization, 0); fclose(f); string s(b, k), t = type_name(n); free(b); s = s.substr(0, s.find('\n')); size_t i = s.find(" " + t, s.find("..")); return plain(i == string::npos ? s : s.substr(i + 1)); }
static void c13_exec(const Plan &p) {
    LeakCheck lc; { Forest f; f.parse(p); if (!f.ok) return; bool nt = false; string kinds;
    for (auto &l : p.lines) { if (failed()) break; Args a = split(l); if (a[0] != "b") continue; int oi = f.pick(argn(a, 1)); if (oi < 0) continue; N n = node_at(f.objs[oi].root, argn(a, 2));
        for (const Ctor &ct : g_ctors) { if (failed()) break; if (*ct.type != cypher_astnode_type(n)) continue;
            size_t before = live_blocks(); Builder b; b.n = n; b.range = cypher_astnode_range(n); if (argn(a, 7)) { b.range.start.offset += argn(a, 7); b.range.end.line += 3; b.range.end.column += argn(a, 7); } long mode = argn(a, 8); b.flip = argn(a, 4); b.grow = mode & 4 ? 300 : mode & 2 ? 1 : 0; if (mode & 8) b.own = (int)(argn(a, 1) * 5 + argn(a, 2) * 3 + argn(a, 7)); b.alternate = *ct.type == CYPHER_AST_PATTERN_PATH; b.drop = (int)argn(a, 5, -1); int cpos = (int)argn(a, 6, -1); string want; std::unordered_map<N, int> idx;
            { Harness h; unsigned k = cypher_astnode_nchildren(n); if (!k) cpos = -1; for (unsigned i = 0; i <= k; ++i) { if (cpos >= 0 && (unsigned)cpos % (k + 1) == i) b.kids.push_back(cypher_ast_block_comment("more", 4, cypher_astnode_range(n))); if (i == k) break; N c = cypher_astnode_get_child(n, i); cypher_astnode_t *cl = cypher_ast_clone(c); if (!cl) { fail("clone-failed", "cloning a %s", type_name(c)); return; } b.to[c] = cl; idx[c] = (int)b.kids.size(); b.kids.push_back(cl); }
              ct.prep(b); want = dump_node_as(n, b.range, (unsigned)b.kids.size(), [&](N c) -> string { auto it = idx.find(c); return it == idx.end() ? "FOREIGN" : "c" + std::to_string(it->second); }); }
            vector<cypher_astnode_t *> given = b.kids; b.ch = given.empty() ? nullptr : given.data(); b.nch = (unsigned)given.size(); vector<string> kd; { Harness h; for (auto c : b.kids) kd.push_back(dump_tree(c)); }
            auto intact = [&](const char *when) { Harness h; for (size_t i = 0; i < b.kids.size() && !failed(); ++i) { string d = dump_tree(b.kids[i]); if (d != kd[i]) fail("child-changed", "%s, child %zu of a %s: %s", when, i, ct.name, diff2(d, kd[i]).c_str()); } };
            AllocFaults af; if (a.size() > 3 && a[3][0] == '+') af.from = atol(a[3].c_str() + 1); else if (a.size() > 3 && a[3] != "-") af.at.insert(atol(a[3].c_str())); long held = (long)live_blocks(); cypher_astnode_t *r = nullptr; int tries = 0;
            for (;;) { uint64_t fired; int e; b.nopt = 0; b.nflag = 0; { Window w(tries ? nullptr : &af, 1000000); errno = 0; r = ct.make(b); e = errno; fired = w.fired(); }
                ev("build %s -> %s", ct.name, r ? "node" : "NULL"); if (r) { if (fired) probe("built-despite-fault"); break; }
                if (!fired) { fail("construction-failed", "%s a %s cannot be built, errno %d", tries ? "after a failed attempt" : "without a fault", ct.name, e); break; }
                if (e != ENOMEM) { fail("wrong-error", "building a %s failed for lack of memory with errno %d", ct.name, e); break; }
                if ((long)live_blocks() != held) { fail((long)live_blocks() > held ? "leak" : "child-released", "a failed construction of a %s changed the live blocks by %ld", ct.name, (long)live_blocks() - held); break; }
                nt = true; probe("construction-failed-cleanly"); intact("after a failed construction"); if (failed()) break; ++tries; }
            if (failed()) break; kinds += ct.name; probe(ct.name); if (b.flip && b.nflag) want = flip_bools(want); if (!b.dropped.empty()) want = drop_attr(want, b.dropped);
            { Harness h; for (size_t j = 0; j < b.l.size() && !failed(); ++j) for (size_t i = 0; i <= b.l[j].size(); ++i) if (b.get[j](r, (unsigned)i) != (i < b.l[j].size() ? b.l[j][i] : nullptr)) { fail("attributes-differ", "element %zu of list %zu of %zu of a %s is not the one given", i, j, b.l[j].size(), ct.name); break; }
                for (size_t i = 0; b.getop && i <= b.op.size() && !failed(); ++i) if (b.getop(r, (unsigned)i) != (i < b.op.size() ? b.op[i] : nullptr)) fail("attributes-differ", "operator %zu of %zu of a %s is not the one given", i, b.op.size(), ct.name);
                for (size_t i = 0; i < b.gave.size() && !failed(); ++i) if (b.gave[i].first(r) != b.gave[i].second) fail("attributes-differ", "argument %zu of a %s is not the one given", i, ct.name);
                for (size_t i = 0; i < b.gaveflag.size() && !failed(); ++i) if (b.gaveflag[i].first(r) != b.gaveflag[i].second) fail("attributes-differ", "flag %zu of a %s is not the one given", i, ct.name);
                if (b.gettext && !failed()) { const char *t = b.gettext(r); if (!t || strlen(t) != b.len || memcmp(t, b.s, b.len)) fail("attributes-differ", "the text of %zu bytes of a %s is not the one given", b.len, ct.name); } if (failed()) break; }
            if (b.grown) { Harness h;
                if (failed()) break; probe("built-with-longer-lists"); want = dump_node1(r); cypher_astnode_t *cl = cypher_ast_clone(r); if (!cl) { fail("clone-failed", "cloning a built %s", ct.name); break; } string x = dump_tree(cl), y = dump_tree(r), sx = shape(cl), sy = shape(r); if (x != y) fail("clone-differs", "the clone of a built %s: %s", ct.name, diff2(x, y).c_str()); else if (sx != sy || sx.find('\0') != string::npos) fail("clone-renders-differently", "the clone of a built %s: %s", ct.name, diff2(sx, sy).c_str()); cypher_ast_free(cl); if (failed()) break; }
            if (!b.grown && cpos < 0) { Harness h; vector<vector<N>> x; string as = attributes(n, x), ar = attributes(r, x), ds = shown(n), dr = shown(r); if ((as == ar) != (ds == dr)) { fail("attributes-not-shown", "a %s with <%s> is shown as <%s>, one with <%s> as <%s>", ct.name, esc(as, 200).c_str(), esc(ds, 200).c_str(), esc(ar, 200).c_str(), esc(dr, 200).c_str()); break; } if (as != ar) probe("changed-attributes-shown"); }
            { string got = dump_node1(r); if (got != want) { fail("attributes-differ", "a %s was built as <%s> from <%s>", ct.name, esc(got, 400).c_str(), esc(want, 400).c_str()); break; } }
            { Harness h; for (size_t i = 0; i < b.kids.size(); ++i) if (cypher_astnode_get_child(r, (unsigned)i) != b.kids[i]) { fail("children-differ", "child %zu of a %s", i, ct.name); break; } for (auto &x : given) x = nullptr; for (auto &v : b.l) for (auto &x : v) x = nullptr; for (auto &x : b.op) x = nullptr;   // the caller's arrays are the caller's
              if (!failed()) { string got = dump_node1(r); if (got != want) fail("keeps-callers-array", "a %s changed with the array of its children", ct.name); } } intact("after the construction"); if (failed()) break;
            if (mode & 1) { { Window w; cypher_astnode_free(r); } probe("node-released-alone"); intact("after the node alone was released"); if (failed()) break; if ((long)live_blocks() != held) { fail((long)live_blocks() > held ? "leak" : "child-released", "releasing a %s alone changed the live blocks by %ld", ct.name, (long)live_blocks() - held); break; } Window w; for (auto *k : b.kids) cypher_ast_free(k); }
            else { Window w; cypher_ast_free(r); }
            if (live_blocks() != before) { fail((long)live_blocks() > (long)before ? "leak" : "double-release", "releasing a built %s left %ld blocks", ct.name, (long)live_blocks() - (long)before); break; }
        } }
    { Harness h; if (!failed()) f.free_all(); } if (failed()) return; if (nt) nontrivial(fnv(kinds, plankey(p))); }
    lc.check("at the end");
}
static void c13_explore(Ctx &c) {
    Rng &r = c.rng; static vector<string> kinds = all_kinds_docs(); string doc = c.index < (long)kinds.size() ? kinds[c.index] : r.p(.5) ? r.pick(kinds) : tree_doc(r, 50); ParseObs ref = ref_parse(doc, 0, Cfg()); size_t total = 0; int nobj = 0; vector<int> sizes; for (auto &s : ref.segs) { nobj += s.nroots; total += s.nodes.size(); }
    (void)total; if (!nobj) return; size_t k = 0; for (auto &s : ref.segs) for (auto &x : s.nodes) { if (x.depth == 0) sizes.push_back(0); sizes.back()++; } (void)k;
    Plan p = newplan("C13"); p.setdoc(doc); int cap = c.thorough ? 4000 : 1500, lines = 0;
    for (int o = 0; o < (int)sizes.size(); ++o) for (int i = 0; i < sizes[o] && lines < cap; ++i) { if (sizes[o] > 150 && !r.p(150.0 / sizes[o])) continue;
        for (int v = 0; v < 2; ++v) { p.addf("b %d %d - %d %d %d %d %d", o, i, v ? (int)r.below(2) : 0, v ? r.range(-1, 3) : -1, v ? r.range(-1, 6) : -1, v ? r.range(0, 99) : 0, v ? (int)r.below(4) | (r.p(.04) ? 4 : 0) | (r.p(.4) ? 8 : 0) : 0); ++lines; }
        for (int k2 = 0; k2 < 4; ++k2, ++lines) p.addf("b %d %d %s%d %d %d %d %d", o, i, k2 == 3 ? "+" : "", k2 == 3 ? 0 : k2, (int)r.below(2), r.p(.2) ? r.range(0, 3) : -1, r.p(.3) ? r.range(0, 6) : -1, r.p(.3) ? r.range(0, 99) : 0); }
    c.run(p);
}

// ---------------------------------------------------------------------- C14
// plan: `obj n <obj> <node>` | `obj s <segment>` | `obj r`; `width W`; `color 0|1`; `out <n|l|f> <size>`; `werr <offset> <errno> <sticky|once>`; `fail`/`failfrom`/`failbig`
static string squeeze(const string &s) { string o; for (char c : s) if (c != ' ' && c != '\n') o += c; return o; }
// a colouring whose marks cannot be confused with text, as \v and \a are always written as escapes
static const cypher_parser_colorization *mark_colors() { static cypher_parser_colorization m = *cypher_parser_no_colorization; const char **f[] = {m.ast_ordinal, m.ast_range, m.ast_indent, m.ast_type, m.ast_desc}; static const char *mk[] = {"\v0\a", "\v1\a", "\v2\a", "\v3\a", "\v4\a", "\v5\a", "\v6\a", "\v7\a", "\v8\a", "\v9\a"}; for (int i = 0; i < 5; ++i) { f[i][0] = mk[2 * i]; f[i][1] = mk[2 * i + 1]; } return &m; }
static string unmark(const string &s, const cypher_parser_colorization *to) { string o; const char *const *f[5] = {}; if (to) { f[0] = to->ast_ordinal; f[1] = to->ast_range; f[2] = to->ast_indent; f[3] = to->ast_type; f[4] = to->ast_desc; } for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\v' && i + 2 < s.size() && isdigit((unsigned char)s[i + 1]) && s[i + 2] == '\a') { int k = s[i + 1] - '0'; if (to) o += f[k / 2][k % 2]; i += 2; } else o += s[i]; return o; }
static string escaped(const string &s) { string o; for (char c : s) { size_t i; static const char from[] = "\a\b\f\n\r\t\v", to[] = "abfnrtv"; const char *q = c ? strchr(from, c) : nullptr; if (q) { i = q - from; o += '\\'; o += to[i]; } else o += c; } return o; }
static vector<string> lines_of(const string &s) { vector<string> v; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == string::npos) e = s.size(); v.push_back(s.substr(i, e - i)); i = e + 1; } return v; }
// a line of an unwrapped rendering without its indentation and padding
static string unindent(const string &l, const string &type) { string o; size_t i = l.find(".."); if (i == string::npos) return l; for (size_t j = 0; j < i; ++j) if (l[j] != ' ' || (!o.empty() && o.back() != ' ')) o += l[j]; o += ".."; i += 2; while (i < l.size() && isdigit((unsigned char)l[i])) o += l[i++];
    while (i < l.size() && (l[i] == ' ' || l.compare(i, 2, "> ") == 0)) ++i; if (l.compare(i, type.size(), type) != 0) return o + " not a " + type + ": " + l.substr(i); o += " " + type + " "; i += type.size(); while (i < l.size() && l[i] == ' ') ++i; return o + l.substr(i); }
typedef std::function<int(FILE *, unsigned, const cypher_parser_colorization *)> RenderFn;
static string render_ref(const RenderFn &fn, unsigned width, const cypher_parser_colorization *col, int *rc) { Harness h; char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n); *rc = fn(f, width, col); fclose(f); string s(b, n); free(b); return s; }
// a rendering with marks, taken apart: each node's line has its marks in pairs, columns are aligned, and breaking a detail into lines adds nothing but the break and the indentation
static bool take_apart(const string &s, vector<string> &details) {
    size_t col = 0, c3 = string::npos, c8 = string::npos; int open = -1; string det; bool indet = false; unsigned seen = 0;
    auto bad = [&](const char *why, size_t i) { fail("layout", "%s at byte %zu of the marked rendering: ...%s", why, i, esc(s.substr(i > 60 ? i - 60 : 0, 120)).c_str()); return false; };
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '\v' && i + 2 < s.size() && isdigit((unsigned char)s[i + 1]) && s[i + 2] == '\a') { int k = s[i + 1] - '0'; i += 2;
            if (k % 2 == 0) { if (open >= 0) return bad("a colour starts within another", i); open = k; } else { if (open != k - 1) return bad("a colour ends that did not start", i); open = -1; seen |= 1u << k / 2; }
            if (k == 3) { if (c3 == string::npos) c3 = col; if (col != c3) return bad("ranges are not aligned", i); }
            if (k == 6 && (col < c3 + 2 || (col - c3) % 2)) return bad("a type is not indented by its depth", i);
            if (k == 8) { if (c8 == string::npos) c8 = col; if (col != c8) return bad("details are not aligned", i); indet = true; det.clear(); }
            if (k == 9) { if (det.empty() || det.back() != '\n') return bad("a detail does not end its line", i); det.pop_back(); indet = false; details.push_back(det); if ((seen & 31) != 31) return bad("a colour is missing", i); seen = 0; } continue; }
        if (s[i] == '\n') { col = 0; if (!indet) { details.push_back(""); if ((seen & 15) != 15) return bad("a colour is missing", i); seen = 0; } else if (i + 1 < s.size() && s[i + 1] != '\v') { if (s.compare(i + 1, c8, string(c8, ' ')) != 0) return bad("a broken detail is not indented to its column", i); i += c8; col = c8; continue; } }
        else ++col; if (indet) det += s[i]; }
    return open < 0 || bad("a colour does not end", s.size() - 1); }
static long ordinal_of(const string &l) { size_t i = l.find('@'); return i == string::npos ? -1 : strtol(l.c_str() + i + 1, nullptr, 10); }
// what is shown for a node names the nodes its accessors give, by the ordinals of their lines and in their order, and tells it from nodes with other attributes
static bool judge_details(const vector<string> &ls, const vector<string> &d, const vector<N> &nodes) {
    map<string, string> told; long base = ordinal_of(ls[0]); std::unordered_map<N, long> ord; if (d.size() != nodes.size() || ls.size() != nodes.size()) { fail("text-damaged", "%zu lines and %zu details for %zu nodes", ls.size(), d.size(), nodes.size()); return false; }
    for (size_t i = 0; i < nodes.size(); ++i) { long o = ord[nodes[i]] = (unsigned)(base + (long)i); if (ordinal_of(ls[i]) != o) { fail("ordinal", "line %zu has ordinal %ld, the first has %ld", i, ordinal_of(ls[i]), base); return false; } }
    for (size_t i = 0; i < nodes.size() && !failed(); ++i) { N n = nodes[i]; string v; const char *t = type_name(n), *s = d[i].c_str(); if (string_value(n, v)) continue; vector<vector<N>> lists; string at = attributes(n, lists), norm; set<long> want; map<long, size_t> pos; map<long, int> kid; for (unsigned q = 0; q < cypher_astnode_nchildren(n); ++q) kid[ord[cypher_astnode_get_child(n, q)]] = (int)q;
        if (ls[i].back() == ' ') { fail("detail", "the line of a %s ends with a space", t); break; }
        for (size_t j = 0; j < d[i].size(); ++j) { norm += s[j]; if (s[j] != '@') continue; char *end; long k = strtol(s + j + 1, &end, 10); pos.emplace(k, j); norm += kid.count(k) ? "c" + std::to_string(kid[k]) : "?"; j = end - s - 1; }
        for (auto &l : lists) { size_t last = 0; for (auto c : l) { long k = ord[c]; want.insert(k); if (!pos.count(k)) { if (strcmp(t, "query") || strcmp(type_name(c), "USING PERIODIC_COMMIT")) { fail("detail", "a %s is shown as <%s> without the %s @%ld it has", t, esc(d[i], 200).c_str(), type_name(c), k); return false; } continue; }
            if (pos[k] < last) { fail("detail", "a %s is shown as <%s>, not in the order of its elements", t, esc(d[i], 200).c_str()); return false; } last = pos[k]; } }
        for (auto &x : pos) if (!want.count(x.first)) { fail("detail", "a %s is shown as <%s> with @%ld, which it does not have", t, esc(d[i], 200).c_str(), x.first); return false; }
        auto it = told.emplace(string(t) + " " + norm, at).first; if (it->second != at) fail("detail", "a %s is shown as <%s> whether its attributes are <%s> or <%s>", t, esc(d[i], 200).c_str(), esc(at, 200).c_str(), esc(it->second, 200).c_str()); }
    return !failed(); }
static void c14_exec(const Plan &p) {
    LeakCheck lc; cypher_parse_result_t *res = nullptr; { Forest f; Args o = p.get("obj"); if (o.empty()) return; RenderFn fn; vector<N> nodes;   // in the order they are rendered
    if (o[0] == "r") { Harness h; ParseSpec s = spec_of(p); s.af = AllocFaults(); ParseObs po; res = run_parse_result(s, po); if (!res) { fail("parse-failed", "errno %d", po.err); return; } fn = [&](FILE *s, unsigned w, const cypher_parser_colorization *c) { return cypher_parse_result_fprint_ast(res, s, w, c, 0); }; for (unsigned i = 0; i < cypher_parse_result_nroots(res); ++i) preorder(cypher_parse_result_get_root(res, i), nodes); }
    else { f.parse(p); if (!f.ok) return; if (o[0] == "s") { if (f.segs.empty()) return; cypher_parse_segment_t *g = f.segs[argn(o, 1) % f.segs.size()]; fn = [g](FILE *s, unsigned w, const cypher_parser_colorization *c) { return cypher_parse_segment_fprint_ast(g, s, w, c, 0); }; for (unsigned i = 0; i < cypher_parse_segment_nroots(g); ++i) preorder(segment_root(g, i), nodes); }
        else { int oi = f.pick(argn(o, 1)); if (oi < 0) return; N n = node_at(f.objs[oi].root, argn(o, 2)); fn = [n](FILE *s, unsigned w, const cypher_parser_colorization *c) { return cypher_ast_fprint(n, s, w, c, 0); }; preorder(n, nodes); } }
    unsigned width = (unsigned)p.num("width", 0); int color = (int)p.num("color", 0); int rc; const cypher_parser_colorization *col = color == 2 ? mark_colors() : color ? cypher_parser_ansi_colorization : nullptr; int rc0; string ref = render_ref(fn, width, col, &rc0), marked = render_ref(fn, width, mark_colors(), &rc), flat = render_ref(fn, 0, nullptr, &rc), mflat = render_ref(fn, 0, mark_colors(), &rc);
    auto judge_text = [&] { if (rc || rc0) { fail("rendering-failed", "without a fault, errno %d", errno); return; } if (ref.find('\0') != string::npos || flat.find('\0') != string::npos) { fail("text-damaged", "the rendering contains a NUL byte at %zu", flat.find('\0')); return; }
        { vector<string> a, b; if (!take_apart(marked, a) || !take_apart(mflat, b)) return; if (a != b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; fail("layout", "width %u: the detail of line %zu is <%s> instead of <%s>", width, i, i < a.size() ? esc(a[i], 200).c_str() : "", i < b.size() ? esc(b[i], 200).c_str() : ""); return; } }
        if (ref != (color == 2 ? marked : unmark(marked, col))) { fail("text-damaged", "width %u: colouring changes the text: %s", width, diff2(ref, unmark(marked, col)).c_str()); return; }
        if (squeeze(unmark(marked, nullptr)) != squeeze(flat)) { fail("text-damaged", "width %u changes the text: %s", width, diff2(squeeze(unmark(marked, nullptr)), squeeze(flat)).c_str()); return; }
        auto ls = lines_of(flat); if (ls.size() != nodes.size()) { fail("text-damaged", "%zu lines for %zu nodes", ls.size(), nodes.size()); return; }
        if (!ls.empty()) { vector<string> d; if (!take_apart(mflat, d) || !judge_details(ls, d, nodes)) return; }
        size_t step = nodes.size() > 24 ? nodes.size() / 24 : 1, first = (size_t)p.num("first", 0) % step;
        for (size_t i = 0; i < nodes.size() && !failed(); ++i) { string v; if (string_value(nodes[i], v) && ls[i].find(escaped(v)) == string::npos) { fail("text-damaged", "the line of a %s of %zu bytes does not show its value: %s", type_name(nodes[i]), v.size(), esc(ls[i], 120).c_str()); break; }
            if (i % step != first) continue; N n = nodes[i]; int r2; string alone = render_ref([n](FILE *s, unsigned w, const cypher_parser_colorization *c) { return cypher_ast_fprint(n, s, w, c, 0); }, 0, nullptr, &r2); auto al = lines_of(alone); if (r2 || al.empty()) { fail("rendering-failed", "rendering a %s alone fails", type_name(n)); break; }
            if (unindent(al[0], type_name(n)) != unindent(ls[i], type_name(n))) fail("text-depends-on-context", "a %s is rendered as <%s> after other nodes and as <%s> alone", type_name(n), esc(unindent(ls[i], type_name(n)), 150).c_str(), esc(unindent(al[0], type_name(n)), 150).c_str()); } };
    judge_text(); evh("rendering", ref);
    if (!failed()) { Args ou = p.get("out"), we = p.get("werr"); SimOut out(ou.empty() ? 'n' : ou[0][0], (int)argn(ou, 1, 64)); if (!we.empty()) { out.err_at = argn(we, 0); if (we[0][0] == '@') { bool nl = argn(we, 3, 0); vector<long> at; for (size_t i = 0; i < ref.size(); ++i) if (ref[i] == '\n' && nl) at.push_back((long)i); else if (nl) continue; else if (ref[i] == '\n' || ref[i] == '\v' || ref[i] == '\a' || ref[i] == '@') { at.push_back((long)i); if (i + 1 < ref.size()) at.push_back((long)i + 1); } out.err_at = at.empty() ? 0 : at[strtoul(we[0].c_str() + 1, 0, 10) % at.size()]; probe("write-error-at-line-or-colour"); } out.err_no = (int)argn(we, 1, EIO); out.err_sticky = we.size() < 3 || we[2] == "sticky"; }
        AllocFaults af = faults_of(p); long b = (long)live_blocks(); int e; uint64_t fired; { Window w(&af, 400000000); errno = 0; rc = fn(out.f, width, col); e = errno; fired = w.fired(); } int werrs = out.errs;
        ev("render rc=%d errno=%d accepted=%zu errors=%d", rc, rc ? e : 0, out.data.size(), werrs);
        if (rc == 0 && werrs) fail("lied", "success although %d writes failed, the first at byte %ld", werrs, out.err_at);
        else if (rc && !werrs && !fired) fail("rendering-failed", "rc %d errno %d without a fault", rc, e);
        else if (rc && rc != -1) fail("wrong-result", "rc %d", rc);
        else if (rc && e != (fired ? ENOMEM : out.err_no) && !(fired && werrs && e == out.err_no)) fail("wrong-error", "errno %d instead of %d", e, fired ? ENOMEM : out.err_no);
        else if (ref.compare(0, out.data.size(), out.data) != 0 || out.data.size() > ref.size()) fail("not-a-prefix", "what was written is not a prefix of the rendering: %s", diff2(out.data, ref).c_str());
        else if ((long)live_blocks() != b) fail("leak", "rendering left %ld blocks", (long)live_blocks() - b);
        if (!failed() && rc == 0) { Harness h; out.err_at = -1; fflush(out.f); if (out.data != ref) fail("bytes-depend-on-buffering", "%s", diff2(out.data, ref).c_str()); }
        if (!failed() && (fired || werrs)) { nontrivial(plankey(p)); probe(rc ? "failed-rendering-reported" : "rendered-despite-fault"); SimOut again('n'); { Window w; rc = fn(again.f, width, col); } if (rc || again.data != ref) fail("not-repeatable", "rendering again: rc %d, %s", rc, diff2(again.data, ref).c_str()); }
        else if (!failed() && out.bufmode != 'n') nontrivial(plankey(p)); }
    if (res) { Harness h; cypher_parse_result_free(res); } { Harness h; if (!failed()) f.free_all(); } if (failed()) return; }
    lc.check("at the end");
}
static string long_text_doc(Rng &r) { // details around, at and beyond the sizes a rendering buffer may have or grow to
    string d; int n = r.range(1, 5); size_t last = 0; for (int i = 0; i < n; ++i) { size_t len; switch (r.below(5)) { case 0: len = 1024 - r.range(0, 4); break; case 1: len = last + r.range(-1, 3); break; case 2: { static const int b[] = {128, 256, 512, 2048, 4096, 8192}; len = b[r.below(6)] - r.range(0, 4); break; } case 3: len = r.range(1, 60); break; default: len = r.range(1000, 3000); } if (len > 20000) len = 10; last = len; string t; char c = 'a' + (int)r.below(26); bool odd = r.p(.3); for (size_t k = 0; k < len; ++k) t += odd && r.p(.05) ? "\t\n\b "[r.below(4)] : c;
        switch (r.below(6)) { case 0: case 1: d += "RETURN '" + t + "';"; break; case 2: d += "RETURN `" + t + "`, '" + t + "x';"; break; case 3: d += "/*" + t + "*/ RETURN 1;"; break; case 4: { string l; for (int k = r.range(50, 400); k-- > 0;) l += ", " + std::to_string(k); d += "RETURN [1" + l + "], '" + t + "';"; break; } default: d += "//" + string(len, c) + "\nRETURN 1;"; } if (r.p(.3)) d += "\n"; }
    return d; }
static string many_doc(Rng &r) { // nodes with very many children of one role, so that their details reach and pass the buffer's size
    int n = r.p(.7) ? r.range(120, 260) : r.range(60, 700); auto rep = [&](const char *sep, std::function<string(int)> f) { string o; for (int i = 0; i < n; ++i) o += (i ? sep : "") + f(i); return o; }; auto K = [](const char *a) { return [a](int i) { return string(a); }; }; auto I = [](int i) { return "a" + std::to_string(i % 7); };
    switch (r.below(26)) { case 0: return "MATCH (n:" + rep(":", K("L")) + ") RETURN n;"; case 1: return "MATCH (n)-[:" + rep("|", K("R")) + "]->(m) RETURN n;"; case 2: return "RETURN " + rep(",", I) + ";"; case 3: return "MATCH (n) SET n:" + rep(":", K("L")) + ";"; case 4: return "MATCH (n) REMOVE n:" + rep(":", K("L")) + ";"; case 5: return "CREATE " + rep(",", K("(a)")) + ";";
    case 6: return "RETURN CASE x " + rep(" ", K("WHEN 1 THEN 2")) + " ELSE 3 END;"; case 7: return "RETURN {" + rep(",", K("k:1")) + "};"; case 8: return "RETURN f(" + rep(",", K("1")) + ");"; case 9: return "RETURN a" + rep("", K("<b")) + ";"; case 10: return "START n=node(" + rep(",", K("1")) + ") RETURN n;"; case 11: return "START r=rel(" + rep(",", K("1")) + ") RETURN r;";
    case 12: return "MATCH (a) USING JOIN ON " + rep(",", I) + " RETURN a;"; case 13: return "RETURN a ORDER BY " + rep(",", K("b DESC")) + ";"; case 14: return "MATCH (a) DELETE " + rep(",", I) + ";"; case 15: return "FOREACH (x IN y | " + rep(" ", K("CREATE (a)")) + ");"; case 16: return "MERGE (a) " + rep(" ", K("ON MATCH SET a.b=1")) + ";"; case 17: return "CALL p(" + rep(",", K("1")) + ") YIELD " + rep(",", I) + " RETURN 1;";
    case 18: return rep(" ", K("MATCH (a)")) + " RETURN 1;"; case 19: return "CYPHER " + rep(" ", K("a=b")) + " RETURN 1;"; case 20: return ":cmd " + rep(" ", I) + "\n"; case 21: return "MATCH " + rep("-->", K("(a)")) + " RETURN 1;"; case 22: return "WITH " + rep(",", I) + " RETURN 1;"; case 23: return "RETURN a {" + rep(",", K(".b")) + "};"; case 24: return "MATCH (a) SET " + rep(",", K("a.b=1")) + " REMOVE " + rep(",", K("a.b")) + ";";
    default: return "RETURN a:" + rep(":", K("L")) + ", [" + rep(",", I) + "];"; } }
static void c14_explore(Ctx &c) {
    Rng &r = c.rng; string doc = r.p(.3) ? long_text_doc(r) : r.p(.35) ? many_doc(r) : tree_doc(r, 40); Cfg cfg = random_cfg(r); ParseObs ref = ref_parse(doc, 0, cfg); int nobj = 0; size_t plen = 0; for (auto &s : ref.segs) { nobj += s.nroots; plen += s.print.size(); } if (!nobj) return;
    for (int rep = 0; rep < (c.thorough ? 16 : 8); ++rep) { Plan p = newplan("C14"); p.setdoc(doc); cfg_to(p, cfg); switch (r.below(3)) { case 0: p.add("obj r"); break; case 1: p.addf("obj s %d", r.range(0, (int)ref.segs.size() - 1)); break; default: p.addf("obj n %d %d", r.range(0, nobj - 1), r.p(.5) ? 0 : r.range(0, 60)); }
        if (r.p(.5)) p.addf("width %d", r.p(.5) ? r.range(1, 60) : r.range(60, 300)); if (r.p(.5)) p.addf("color %d", r.p(.5) ? 1 : 2); p.addf("first %d", r.range(0, 23)); if (r.p(.7)) { static const int bs[] = {1, 2, 7, 16, 64, 100, 512, 1024, 4096}; p.addf("out %c %d", r.p(.5) ? 'f' : r.p(.5) ? 'l' : 'n', bs[r.below(9)]); }
        if (r.p(.65)) { static const int es[] = {EIO, ENOSPC, EPIPE, EAGAIN}; long at = r.p(.5) ? (long)r.below(std::min<size_t>(plen, 200) + 1) : (long)r.below(plen * 2 + 1); int en = es[r.below(4)]; const char *m = r.p(.5) ? "sticky" : "once"; if (r.p(.5)) { if (r.p(.5)) p.add("out n"); p.addf("werr @%u %d %s %d", (unsigned)r.below(100000), en, m, r.p(.4)); } else p.addf("werr %ld %d %s", at, en, m); }
        if (r.p(.3)) { if (r.p(.5)) p.addf("fail %d", r.range(0, 4)); else p.addf("failfrom %d", r.range(0, 3)); }
        if (!c.run(p)) return; }
}
void props_tree(vector<Prop> &v) {
    v.push_back({"C08", c08_explore, c08_exec, "base"});
    v.push_back({"C11", c11_explore, c11_exec, "base"});
    v.push_back({"C12", c12_explore, c12_exec, "base"});
    v.push_back({"C13", c13_explore, c13_exec, "base"});
    v.push_back({"C14", c14_explore, c14_exec, "base"});
}
