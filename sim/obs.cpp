// Observation of everything the public API shows, and the run_* wrappers.
#include "sim.h"
extern "C" {
// Declared in the public header; bound weakly so that a library that forgets to
// define it is reported as a violation instead of failing to link.
const cypher_astnode_t *cypher_parse_segment_get_root(const cypher_parse_segment_t *, unsigned int) __attribute__((weak));
const cypher_astnode_t *cypher_parse_segment_get_node(const cypher_parse_segment_t *, unsigned int) __attribute__((weak));
}
static const cypher_astnode_t *seg_root(const cypher_parse_segment_t *s, unsigned i) {
    if (cypher_parse_segment_get_root) return cypher_parse_segment_get_root(s, i);
    if (cypher_parse_segment_get_node) return cypher_parse_segment_get_node(s, i);
    return nullptr;
}
bool segment_root_defined() { return cypher_parse_segment_get_root != nullptr; }
const cypher_astnode_t *segment_root(const cypher_parse_segment_t *s, unsigned i) { return seg_root(s, i); }

enum AK { K_N, K_NI, K_B, K_U, K_S, K_O, K_OI, K_E };
struct Acc { const char *name; AK k; const cypher_astnode_type_t *type; void *fn; };
static const Acc g_acc[] = {
#define ACC_N(f, t) {#f, K_N, &t, (void *)f},
#define ACC_NI(f, t) {#f, K_NI, &t, (void *)f},
#define ACC_B(f, t) {#f, K_B, &t, (void *)f},
#define ACC_U(f, t) {#f, K_U, &t, (void *)f},
#define ACC_S(f, t) {#f, K_S, &t, (void *)f},
#define ACC_O(f, t) {#f, K_O, &t, (void *)f},
#define ACC_OI(f, t) {#f, K_OI, &t, (void *)f},
#define ACC_E(f, t) {#f, K_E, &t, (void *)f},
#define ACC_TYPE(t)
#define ACC_OP(o)
#include "accessors.inc"
#undef ACC_N
#undef ACC_NI
#undef ACC_B
#undef ACC_U
#undef ACC_S
#undef ACC_O
#undef ACC_OI
#undef ACC_E
#undef ACC_TYPE
#undef ACC_OP
};
static const struct { const char *name; const cypher_operator_t *const *op; } g_ops[] = {
#define ACC_N(f, t)
#define ACC_NI(f, t)
#define ACC_B(f, t)
#define ACC_U(f, t)
#define ACC_S(f, t)
#define ACC_O(f, t)
#define ACC_OI(f, t)
#define ACC_E(f, t)
#define ACC_TYPE(t)
#define ACC_OP(o) {#o, &o},
#include "accessors.inc"
};
static const char *opname(const cypher_operator_t *o) { if (!o) return "NULL"; for (auto &x : g_ops) if (*x.op == o) return x.name; return "?"; }
const char *type_name(const cypher_astnode_t *n) { return cypher_astnode_typestr(cypher_astnode_type(n)); }
string posstr(cypher_input_position p) { return sfmt("%u:%u@%zu", p.line, p.column, p.offset); }
string rngstr(cypher_input_range r) { return posstr(r.start) + "-" + posstr(r.end); }

static const vector<const Acc *> &accs_for(const cypher_astnode_t *n) {
    static map<cypher_astnode_type_t, vector<const Acc *>> byType;
    auto t = cypher_astnode_type(n); auto it = byType.find(t);
    if (it == byType.end()) { auto &v = byType[t]; for (auto &a : g_acc) if (cypher_astnode_instanceof(n, *a.type)) v.push_back(&a); return v; }
    return it->second;
}
typedef const cypher_astnode_t *N;
// the accessor that counts the elements of a list accessor: cypher_ast_query_nclauses for cypher_ast_query_get_clause
static const Acc *count_of(const Acc *list) {
    static map<const Acc *, const Acc *> memo; auto it = memo.find(list); if (it != memo.end()) return it->second;
    string n = list->name; size_t g = n.find("_get", 11); const Acc *best = nullptr; int cands = 0;
    if (g != string::npos) { string stem = n.substr(0, g) + "_", what = n.size() > g + 5 ? n.substr(g + 5) : ""; what = what.substr(0, what.find('_')); const Acc *only = nullptr;
        for (auto &a : g_acc) if (a.k == K_U && a.type == list->type && !strncmp(a.name, stem.c_str(), stem.size())) { ++cands; only = &a; if (what.size() && !strncmp(a.name + stem.size(), ("n" + what).c_str(), what.size() + 1)) best = &a; }
        if (!best && cands == 1) best = only; }
    return memo[list] = best; }
static void check_count(N n, const Acc *a, unsigned got, bool beyond) {
    const Acc *c = count_of(a); if (!c) return; unsigned want = ((unsigned (*)(N))c->fn)(n); if (a->k == K_NI && strstr(a->name, "comparison_")) ++want;
    if (got != want || beyond) fail("count", "%s reports %u, %s yields %u elements%s", c->name, want, a->name, got, beyond ? " and more far beyond" : ""); }
static void node_attrs(string &o, N n, const std::function<string(N)> &ref) {
    for (const Acc *a : accs_for(n)) { unsigned cnt = 0;
        o += ' '; o += a->name + 11; o += '=';
        switch (a->k) {
        case K_N: o += ref(((N(*)(N))a->fn)(n)); break;
        case K_NI: { for (unsigned i = 0; i < 100000; ++i) { N c = ((N(*)(N, unsigned))a->fn)(n, i); if (!c) break; if (i) o += ','; o += ref(c); cnt = i + 1; } check_count(n, a, cnt, ((N(*)(N, unsigned))a->fn)(n, ~0u) || ((N(*)(N, unsigned))a->fn)(n, cnt + 1)); break; }
        case K_B: o += ((bool (*)(N))a->fn)(n) ? "true" : "false"; break;
        case K_U: o += std::to_string(((unsigned (*)(N))a->fn)(n)); break;
        case K_S: { const char *s = ((const char *(*)(N))a->fn)(n); o += s ? "\"" + string(s) + "\"" : "NULL"; break; }
        case K_O: o += opname(((const cypher_operator_t *(*)(N))a->fn)(n)); break;
        case K_OI: { for (unsigned i = 0; i < 100000; ++i) { auto c = ((const cypher_operator_t *(*)(N, unsigned))a->fn)(n, i); if (!c) break; if (i) o += ','; o += opname(c); cnt = i + 1; } check_count(n, a, cnt, ((const cypher_operator_t *(*)(N, unsigned))a->fn)(n, ~0u)); break; }
        case K_E: o += std::to_string(((int (*)(N))a->fn)(n)); break;
        }
    }
}
void preorder(N root, vector<N> &out) { out.push_back(root); for (unsigned i = 0, n = cypher_astnode_nchildren(root); i < n; ++i) preorder(cypher_astnode_get_child(root, i), out); }
static void dump_rec(string &o, N n, int depth, std::unordered_map<N, int> &idx) {
    o += sfmt("%d.%d %s %s", idx[n], depth, type_name(n), rngstr(cypher_astnode_range(n)).c_str());
    node_attrs(o, n, [&](N c) -> string { if (!c) return "NULL"; auto it = idx.find(c); return it == idx.end() ? "FOREIGN" : "#" + std::to_string(it->second); });
    o += '\n';
    for (unsigned i = 0, k = cypher_astnode_nchildren(n); i < k; ++i) dump_rec(o, cypher_astnode_get_child(n, i), depth + 1, idx);
    if (cypher_astnode_get_child(n, cypher_astnode_nchildren(n)) || cypher_astnode_get_child(n, ~0u)) fail("count", "a %s has children beyond its last", type_name(n));
}
string dump_tree(N root, vector<N> *order, int base) {
    Harness h; vector<N> nodes; preorder(root, nodes); std::unordered_map<N, int> idx;
    for (size_t i = 0; i < nodes.size(); ++i) idx[nodes[i]] = base + (int)i;
    string o; dump_rec(o, root, 0, idx); if (order) order->insert(order->end(), nodes.begin(), nodes.end()); return o;
}
string dump_node1(N n) {
    Harness h; string o = sfmt("%s %s n%u", type_name(n), rngstr(cypher_astnode_range(n)).c_str(), cypher_astnode_nchildren(n));
    node_attrs(o, n, [&](N c) -> string { if (!c) return "NULL"; for (unsigned i = 0, k = cypher_astnode_nchildren(n); i < k; ++i) if (cypher_astnode_get_child(n, i) == c) return "c" + std::to_string(i); return "FOREIGN"; });
    return o;
}
// one node as it should look: with this range, this many children, and its children renamed
string dump_node_as(N n, cypher_input_range range, unsigned nch, const std::function<string(N)> &ref) {
    Harness h; string o = sfmt("%s %s n%u", type_name(n), rngstr(range).c_str(), nch); node_attrs(o, n, [&](N c) -> string { return c ? ref(c) : "NULL"; }); return o; }
bool string_value(N n, string &out) { for (const Acc *a : accs_for(n)) if (a->k == K_S) { const char *s = ((const char *(*)(N))a->fn)(n); out = s ? s : ""; return s != nullptr; } return false; }
// what a node's accessors give: its own children, list by list, and all of it as text with the children numbered
string attributes(N n, vector<vector<N>> &lists) {
    Harness h; string o; vector<N> kids; for (unsigned i = 0; i < cypher_astnode_nchildren(n); ++i) kids.push_back(cypher_astnode_get_child(n, i));
    auto own = [&](N c) { return (int)(std::find(kids.begin(), kids.end(), c) - kids.begin()); };
    for (const Acc *a : accs_for(n)) { vector<N> l; string v; bool foreign = false; switch (a->k) {
        case K_N: { N c = ((N(*)(N))a->fn)(n); if (c) l.push_back(c); break; }
        case K_NI: for (unsigned i = 0; i < 100000; ++i) { N c = ((N(*)(N, unsigned))a->fn)(n, i); if (!c) break; l.push_back(c); } break;
        case K_B: v = ((bool (*)(N))a->fn)(n) ? "true" : "false"; break;
        case K_S: { const char *s = ((const char *(*)(N))a->fn)(n); v = s ? s : "NULL"; break; }
        case K_O: v = opname(((const cypher_operator_t *(*)(N))a->fn)(n)); break;
        case K_OI: for (unsigned i = 0; i < 100000; ++i) { auto c = ((const cypher_operator_t *(*)(N, unsigned))a->fn)(n, i); if (!c) break; v += string(",") + opname(c); } break;
        case K_E: v = std::to_string(((int (*)(N))a->fn)(n)); break;
        default: continue; }
        for (auto c : l) { int i = own(c); if (i == (int)kids.size()) foreign = true; else v += " c" + std::to_string(i); }
        if (foreign) continue; o += string(a->name + 11) + "=" + v + ";"; if (!l.empty()) lists.push_back(l); }
    return o; }
static ErrObs snap_err(const cypher_parse_error_t *e) {
    ErrObs o; o.pos = cypher_parse_error_position(e); const char *m = cypher_parse_error_message(e), *c = cypher_parse_error_context(e);
    o.msg = m ? m : "<null>"; o.ctx = c ? c : "<null>"; o.ctxoff = cypher_parse_error_context_offset(e); return o; }
static string strprint(const std::function<int(FILE *)> &f, int *rc) { char *b = nullptr; size_t n = 0; FILE *s = open_memstream(&b, &n); *rc = f(s); fclose(s); string r(b, n); free(b); return r; }
SegObs snap_segment(const cypher_parse_segment_t *s) {
    Harness h; SegObs o; o.range = cypher_parse_segment_get_range(s); o.eof = cypher_parse_segment_is_eof(s);
    o.nnodes = cypher_parse_segment_nnodes(s); o.nroots = cypher_parse_segment_nroots(s);
    for (unsigned i = 0, n = cypher_parse_segment_nerrors(s); i < n; ++i) o.errs.push_back(snap_err(cypher_parse_segment_get_error(s, i)));
    if (cypher_parse_segment_get_error(s, (unsigned)o.errs.size()) || cypher_parse_segment_get_error(s, ~0u)) fail("count", "a segment has errors beyond its last");
    if (seg_root(s, o.nroots) || seg_root(s, ~0u)) fail("count", "a segment has trees beyond its last");
    N dir = cypher_parse_segment_get_directive(s); o.directive = dir ? -2 : -1; vector<N> order;
    for (int i = 0; i < o.nroots; ++i) { N r = seg_root(s, i); if (!r) { o.tree += "MISSING ROOT\n"; continue; } o.tree += dump_tree(r, &order, (int)order.size()); }
    if (dir) for (size_t i = 0; i < order.size(); ++i) if (order[i] == dir) o.directive = (int)i;
    int rc; o.print = strprint([&](FILE *f) { return cypher_parse_segment_fprint_ast(s, f, 0, nullptr, 0); }, &rc);
    if (rc) o.print += "PRINT FAILED\n";
    // ordinals come from the rendering, in preorder
    vector<unsigned> ords; { size_t i = 0; while (i < o.print.size()) { size_t e = o.print.find('\n', i); if (e == string::npos) e = o.print.size();
        size_t a = i; while (a < e && o.print[a] == ' ') ++a; ords.push_back(a < e && o.print[a] == '@' ? (unsigned)strtoul(o.print.c_str() + a + 1, nullptr, 10) : ~0u); i = e + 1; } }
    { size_t k = 0; std::function<void(N, int, int)> rec = [&](N n, int depth, int parent) { int me = (int)k; NodeObs x; x.depth = depth; x.parent = parent; x.ordinal = k < ords.size() ? ords[k] : ~0u; ++k;
        x.type = type_name(n); x.range = cypher_astnode_range(n); x.comment = cypher_astnode_instanceof(n, CYPHER_AST_COMMENT); o.nodes.push_back(x);
        for (unsigned i = 0, m = cypher_astnode_nchildren(n); i < m; ++i) rec(cypher_astnode_get_child(n, i), depth + 1, me); };
      for (int i = 0; i < o.nroots; ++i) if (N r = seg_root(s, i)) rec(r, 0, -1);
      if (ords.size() != o.nodes.size()) o.print += sfmt("PRINTED %zu LINES FOR %zu NODES\n", ords.size(), o.nodes.size()); }
    return o;
}
string SegObs::text(bool ctx) const {
    string r = sfmt("segment %s eof=%d nnodes=%u nroots=%d directive=%d\n", rngstr(range).c_str(), eof, nnodes, nroots, directive);
    for (auto &e : errs) { r += "error " + posstr(e.pos) + " " + e.msg; if (ctx) r += sfmt(" [%s] %zu", e.ctx.c_str(), e.ctxoff); r += "\n"; }
    r += tree; r += print; return r;
}
string ParseObs::text(bool ctx, bool end) const {
    string r; for (auto &s : segs) r += s.text(ctx);
    if (end) r += sfmt("rc=%d%s last=%s\n", rc, rc ? sfmt(" errno=%d", err).c_str() : "", lastset ? posstr(last).c_str() : "-"); return r; }
string diff2(const string &a, const string &b) {
    auto la = split(a, '\n'), lb = split(b, '\n'); size_t i = 0; while (i < la.size() && i < lb.size() && la[i] == lb[i]) ++i;
    if (i == la.size() && i == lb.size()) { if (a == b) return "no difference"; size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k; return sfmt("byte %zu of %zu/%zu", k, a.size(), b.size()); }
    return sfmt("line %zu: <%s> instead of <%s>", i + 1, i < lb.size() ? esc(lb[i], 160).c_str() : "(nothing)", i < la.size() ? esc(la[i], 160).c_str() : "(nothing)"); }

Cfg cfg_of(const Plan &p) { Cfg c; Args a = p.get("cfg"); if (a.size() >= 5) { c.null = false; c.line = (unsigned)strtoul(a[0].c_str(), 0, 10); c.col = (unsigned)strtoul(a[1].c_str(), 0, 10); c.off = strtoull(a[2].c_str(), 0, 10); c.ord = (unsigned)strtoul(a[3].c_str(), 0, 10); c.color = atoi(a[4].c_str()); } return c; }
void cfg_to(Plan &p, const Cfg &c) { if (!c.null) p.addf("cfg %u %u %zu %u %d", c.line, c.col, c.off, c.ord, c.color); }
cypher_parser_config_t *make_config(const Cfg &c) { Harness h; if (c.null) return nullptr; auto *k = cypher_parser_new_config();
    cypher_parser_config_set_initial_position(k, cypher_input_position{c.line, c.col, c.off}); cypher_parser_config_set_initial_ordinal(k, c.ord);
    if (c.color) cypher_parser_config_set_error_colorization(k, c.color == 2 ? mark_error_colors() : cypher_parser_ansi_colorization); return k; }
// every colour code is different, of another length, and cannot be mistaken for text (the library never puts \v into a message)
const cypher_parser_colorization *mark_error_colors() { static cypher_parser_colorization m = *cypher_parser_no_colorization; static string s[4][2]; const char **f[] = {m.normal, m.error, m.error_token, m.error_message}; if (s[0][0].empty()) for (int i = 0; i < 4; ++i) for (int j = 0; j < 2; ++j) { s[i][j] = sfmt("\v%d%s\a", 2 * i + j, string(3 * i + 7 * j, (char)('p' + i)).c_str()); f[i][j] = s[i][j].c_str(); } return &m; }
// values around the limits of narrower types, but never where the unsigned counters of the API would overflow
static uint64_t edge_value(Rng &r, bool wide) { static const uint64_t v[] = {127, 128, 255, 256, 32767, 32768, 65535, 65536, 16777215, 16777216, 999999999, 2147483647ull, 2147483648ull, 4000000000ull, 4294967295ull, 4294967296ull, 1ull << 40, 1ull << 62};
    uint64_t x = v[r.below(wide ? 18 : 14)]; return r.p(.6) ? x - r.below(std::min<uint64_t>(x, 40)) : x; }
Cfg random_cfg(Rng &r) { Cfg c; if (r.p(0.5)) return c; c.null = false; c.line = r.p(.5) ? 1 : r.range(1, 500); c.col = r.p(.5) ? 1 : r.range(1, 90); c.off = r.p(.5) ? 0 : r.range(0, 100000); c.ord = r.p(.4) ? 0 : r.range(0, 2000); c.color = r.p(.3) ? r.p(.5) ? 2 : 1 : 0;
    if (r.p(.15)) { if (r.p(.4)) c.line = (unsigned)edge_value(r, false); if (r.p(.4)) c.col = (unsigned)edge_value(r, false); if (r.p(.4)) c.off = edge_value(r, true); if (r.p(.4)) c.ord = (unsigned)edge_value(r, false); }
    return c; }

struct CbData { const ParseSpec *s; ParseObs *o; int k; bool after_stop; };
static int seg_cb(void *data, cypher_parse_segment_t *seg) {
    CbData *d = (CbData *)data; int k = d->k++; int ret = 0;
    if (d->s->on_segment) d->s->on_segment(k, seg);
    { Harness h; if (d->s->want_snap) { d->o->segs.push_back(snap_segment(seg)); evh("segment", d->o->segs.back().text(true)); } else { d->o->segs.emplace_back(); ev("segment"); }
      if (k < (int)d->s->cb.size()) ret = d->s->cb[k]; }
    if (d->s->on_return) ret = d->s->on_return(k, seg);
    return ret;
}
static char *exact(const string &s) { char *p = (char *)malloc(s.size() ? s.size() : 1); if (s.size()) memcpy(p, s.data(), s.size()); return p; }
template <class F> static void with_source(const ParseSpec &s, ParseObs &o, F call) {
    if (s.stream) {
        std::unique_ptr<SimIn> own; SimIn *in = s.in; if (!in) { own.reset(new SimIn(s.doc, s.d)); in = own.get(); }
        if (s.on_request) { auto f = s.on_request; ParseObs *po = &o; in->on_request = [f, po](size_t pos) { Harness h; f(pos, *po); }; }
        call(nullptr, 0, in->f); in->on_request = nullptr;
    } else { char *b = exact(s.doc); call(b, s.doc.size(), nullptr); if (memcmp(b, s.doc.data(), s.doc.size())) fail("input-modified", "the parse changed the input it was given"); free(b); }
}
ParseObs run_parse(const ParseSpec &s) {
    ParseObs o; cypher_parser_config_t *cfg = s.config ? s.config : make_config(s.cfg); CbData d{&s, &o, 0, false};
    cypher_input_position last{0xdead, 0xbeef, 0xfeedface};
    with_source(s, o, [&](const char *b, size_t n, FILE *f) {
        Window w(&s.af, parse_budget(s.doc.size())); errno = 0;
        o.rc = f ? cypher_fparse_each(f, seg_cb, &d, s.want_last ? &last : nullptr, cfg, s.flags) : cypher_uparse_each(b, n, seg_cb, &d, s.want_last ? &last : nullptr, cfg, s.flags);
        o.err = errno; o.nalloc = w.n(); o.fired = w.fired(); });
    if (!s.config) { Harness h; cypher_parser_config_free(cfg); }
    o.last = last; o.lastset = last.line != 0xdead;
    ev("parse rc=%d errno=%d last=%s segs=%zu", o.rc, o.rc ? o.err : 0, o.lastset ? posstr(last).c_str() : "-", o.segs.size());
    return o;
}
cypher_parse_result_t *run_parse_result(const ParseSpec &s, ParseObs &o) {
    cypher_parser_config_t *cfg = s.config ? s.config : make_config(s.cfg); cypher_parse_result_t *r = nullptr; cypher_input_position last{0xdead, 0xbeef, 0xfeedface};
    with_source(s, o, [&](const char *b, size_t n, FILE *f) {
        Window w(&s.af, parse_budget(s.doc.size())); errno = 0;
        r = f ? cypher_fparse(f, s.want_last ? &last : nullptr, cfg, s.flags) : cypher_uparse(b, n, s.want_last ? &last : nullptr, cfg, s.flags);
        o.err = errno; o.nalloc = w.n(); o.fired = w.fired(); });
    if (!s.config) { Harness h; cypher_parser_config_free(cfg); }
    o.rc = r ? 0 : -1; o.null_result = !r; o.last = last; o.lastset = last.line != 0xdead;
    ev("parse result=%s errno=%d last=%s", r ? "yes" : "NULL", r ? 0 : o.err, o.lastset ? posstr(last).c_str() : "-");
    return r;
}
ResultObs snap_result(const cypher_parse_result_t *r) {
    Harness h; ResultObs o; o.nroots = cypher_parse_result_nroots(r); o.ndirs = cypher_parse_result_ndirectives(r); o.nerrs = cypher_parse_result_nerrors(r);
    o.nnodes = cypher_parse_result_nnodes(r); o.eof = cypher_parse_result_eof(r); vector<N> order;
    for (int i = 0; i < o.nroots; ++i) o.trees += dump_tree(cypher_parse_result_get_root(r, i), &order, (int)order.size());
    std::unordered_map<N, int> idx; for (size_t i = 0; i < order.size(); ++i) idx[order[i]] = (int)i;
    for (int i = 0; i < o.ndirs; ++i) { auto it = idx.find(cypher_parse_result_get_directive(r, i)); o.dirs.push_back(it == idx.end() ? -2 : it->second); }
    for (int i = 0; i < o.nerrs; ++i) o.errs.push_back(snap_err(cypher_parse_result_get_error(r, i)));
    if (cypher_parse_result_get_root(r, o.nroots) || cypher_parse_result_get_root(r, ~0u) || cypher_parse_result_get_directive(r, o.ndirs) || cypher_parse_result_get_directive(r, ~0u) || cypher_parse_result_get_error(r, o.nerrs) || cypher_parse_result_get_error(r, ~0u)) fail("count", "a result has trees, directives or errors beyond its last");
    int rc; o.print = strprint([&](FILE *f) { return cypher_parse_result_fprint_ast(r, f, 0, nullptr, 0); }, &rc); if (rc) o.print += "PRINT FAILED\n";
    evh("result", o.trees + o.print); return o;
}
string QSeg::str() const { return sfmt("quick %s%s range=%s next=%s eof=%d text=", stmt ? "statement" : "", cmd ? "command" : "", rngstr(range).c_str(), posstr(next).c_str(), eof) + text + "\n"; }
string QuickObs::text() const { string r; for (auto &s : segs) r += s.str(); return r + sfmt("rc=%d%s\n", rc, rc ? sfmt(" errno=%d", err).c_str() : ""); }
struct QCb { const QuickSpec *s; QuickObs *o; int k; };
static int quick_cb(void *data, const cypher_quick_parse_segment_t *g) {
    QCb *d = (QCb *)data; int k = d->k++; if (d->s->on_segment) d->s->on_segment(k);
    Harness h; QSeg q; q.stmt = cypher_quick_parse_segment_is_statement(g); q.cmd = cypher_quick_parse_segment_is_command(g);
    q.eof = cypher_quick_parse_segment_is_eof(g); q.range = cypher_quick_parse_segment_get_range(g); q.next = cypher_quick_parse_segment_get_next(g);
    size_t n = 0; const char *t = cypher_quick_parse_segment_get_text(g, &n); q.text.assign(t, n);
    d->o->segs.push_back(q); evh("quick", q.str());
    return k < (int)d->s->cb.size() ? d->s->cb[k] : 0;
}
QuickObs run_quick(const QuickSpec &s) {
    QuickObs o; QCb d{&s, &o, 0}; auto call = [&](const char *b, size_t n, FILE *f) {
        Window w(&s.af, parse_budget(s.doc.size())); errno = 0;
        o.rc = f ? cypher_quick_fparse(f, quick_cb, &d, s.flags) : cypher_quick_uparse(b, n, quick_cb, &d, s.flags);
        o.err = errno; o.nalloc = w.n(); o.fired = w.fired(); };
    if (s.stream) { std::unique_ptr<SimIn> own; SimIn *in = s.in; if (!in) { own.reset(new SimIn(s.doc, s.d)); in = own.get(); }
        if (s.on_request) { auto f = s.on_request; QuickObs *po = &o; in->on_request = [f, po](size_t pos) { Harness h; f(pos, *po); }; }
        call(nullptr, 0, in->f); in->on_request = nullptr; }
    else { char *b = exact(s.doc); call(b, s.doc.size(), nullptr); free(b); }
    ev("quick rc=%d errno=%d segs=%zu", o.rc, o.rc ? o.err : 0, o.segs.size()); return o;
}
static string ckey(const string &doc, unsigned flags, const Cfg &c, bool st) { return sfmt("%u|%u|%u|%zu|%u|%d|%d|%d|", flags, c.line, c.col, c.off, c.ord, c.color, c.null, st) + doc; }
struct EvGuard { uint64_t h, n; bool v; EvGuard() : h(g_evhash), n(g_stats.ev), v(g_verbose) { g_verbose = false; } ~EvGuard() { g_evhash = h; g_stats.ev = n; g_verbose = v; } };
// Fault-free reference outcomes. They depend on the document only, so they are kept
// out of the event log (memoising them must not change it); callers log a digest.
ParseObs ref_parse(const string &doc, unsigned flags, const Cfg &c, bool stream) {
    static map<string, ParseObs> memo; string k = ckey(doc, flags, c, stream); auto it = memo.find(k);
    if (it == memo.end()) { if (memo.size() > 64) memo.clear(); EvGuard g; ParseSpec s; s.doc = doc; s.flags = flags; s.cfg = c; s.stream = stream; it = memo.emplace(k, run_parse(s)).first; }
    return it->second;
}
QuickObs ref_quick(const string &doc, unsigned flags) {
    static map<string, QuickObs> memo; string k = sfmt("%u|", flags) + doc; auto it = memo.find(k);
    if (it == memo.end()) { if (memo.size() > 64) memo.clear(); EvGuard g; QuickSpec s; s.doc = doc; s.flags = flags; it = memo.emplace(k, run_quick(s)).first; }
    return it->second;
}
