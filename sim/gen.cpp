// Workload generator: Cypher inputs covering every clause, expression, pattern and
// command kind, with comments, odd bytes and damage.
#include "sim.h"
static string ident(Rng &r) {
    switch (r.below(12)) {
    case 0: return "`a b`"; case 1: return string("`") + r.oneof({"x-y", "q\"r", "it's", "a;b", "n/*m", "", "tick"}) + "`";
    case 2: return "node"; case 3: return "_u1"; case 4: { string s = "v"; int n = r.range(1, 40); for (int i = 0; i < n; ++i) s += (char)('a' + r.below(26)); return s; }
    case 5: return "all1"; default: return r.oneof({"n", "m", "a", "b", "foo", "bar", "x1", "rel_1", "count", "p"}); }
}
static string str(Rng &r) {
    string q = r.p(.5) ? "'" : "\""; string s = q; int n = r.range(0, r.p(.1) ? 60 : 8);
    for (int i = 0; i < n; ++i) switch (r.below(14)) {
        case 0: s += "\\n"; break; case 1: s += "\\t"; break; case 2: s += "\\\\"; break; case 3: s += q == "'" ? "\\'" : "\\\""; break;
        case 9: if (r.p(.2)) s += "\xc3\xa9"; else { s += '\\'; s += "abfnrtv\\'\"?"[r.below(11)]; } break;
        case 4: s += ";"; break; case 5: s += q == "'" ? "\"" : "'"; break; case 6: s += r.p(.3) ? "\n" : r.p(.3) ? "\r\n" : " "; break;
        case 7: s += "//"; break; case 8: s += "/*"; break;
        default: s += (char)('a' + r.below(26)); }
    return s + q;
}
static string num(Rng &r) { return r.oneof({"0", "1", "42", "007", "0x1f", "123456789012345678901234567890", "10", "9abc"}); }
static string flt(Rng &r) { return r.oneof({"1.0", ".5", "1e10", "1.5E-3", "0.0", "3.14abc", "2e+7"}); }
static string param(Rng &r) { return r.oneof({"$p", "{param}", "$1", "{ 2 }", "$`odd one`", "$ spaced"}); }
static string ws(Rng &r) {
    switch (r.below(24)) { case 0: return "\n"; case 1: return "  "; case 2: return "\t"; case 3: return "\r\n"; case 4: return " /* c */ "; case 5: return " // eol\n"; case 6: return "\n\n "; case 7: return "/* multi\n line */"; default: return " "; } }
#define W ws(r)
static string map_(Rng &r, int d) { string s = "{"; int n = r.below(3); for (int i = 0; i < n; ++i) { if (i) s += ", "; s += ident(r) + ": " + gen_expr(r, d - 1); } return s + "}"; }
static string labels(Rng &r) { string s; int n = r.below(3); for (int i = 0; i < n; ++i) s += ":" + ident(r); return s; }
static string nodep(Rng &r, int d) { string s = "("; if (r.p(.6)) s += ident(r); s += labels(r); if (r.p(.25) && d > 0) s += " " + (r.p(.8) ? map_(r, d - 1) : param(r)); return s + ")"; }
static string relp(Rng &r, int d) {
    bool in = r.p(.3), out = r.p(.5); string s = in ? "<-" : "-";
    if (r.p(.7)) { s += "["; if (r.p(.5)) s += ident(r); if (r.p(.6)) { s += ":" + ident(r); int n = r.below(3); for (int i = 0; i < n; ++i) s += r.p(.5) ? "|" + ident(r) : "|:" + ident(r); }
        if (r.p(.4)) { s += r.oneof({"*", "*1", "*1..", "*..5", "*2..3", "* 1 .. 2"}); } if (r.p(.2) && d > 0) s += map_(r, d - 1); s += "]"; }
    return s + (out ? "->" : "-");
}
static string path(Rng &r, int d, int min = 0) { string s = nodep(r, d); int n = r.range(min, min + 2); for (int i = 0; i < n; ++i) s += (r.p(.2) ? " " : "") + relp(r, d) + nodep(r, d); return s; }
static string ppart(Rng &r, int d) { string s; if (r.p(.25)) s = ident(r) + " = "; switch (r.below(8)) { case 0: return s + "shortestPath(" + path(r, d, 1) + ")"; case 1: return s + "allShortestPaths(" + path(r, d, 1) + ")"; default: return s + path(r, d); } }
static string pattern(Rng &r, int d) { string s = ppart(r, d); while (r.p(.25)) s += "," + W + ppart(r, d); return s; }
string gen_expr(Rng &r, int d) {
    if (d <= 0) switch (r.below(9)) { case 0: return ident(r); case 1: return str(r); case 2: return num(r); case 3: return flt(r); case 4: return param(r); case 5: return "true"; case 6: return "NULL"; case 7: return "False"; default: return ident(r); }
    auto e = [&] { return gen_expr(r, d - 1); };
    switch (r.below(34)) {
    case 0: return e() + W + r.oneof({"AND", "OR", "XOR", "and"}) + W + e();
    case 1: return e() + " " + r.oneof({"+", "-", "*", "/", "%", "^"}) + " " + e();
    case 2: return e() + " " + r.oneof({"=", "<>", "=~", "IN", "CONTAINS", "STARTS WITH", "ENDS WITH", "NOT"}) + " " + e();
    case 3: { string s = e(); int n = r.range(1, 3); for (int i = 0; i < n; ++i) s += string(" ") + r.oneof({"<", "<=", ">", ">="}) + " " + gen_expr(r, 0); return s; }
    case 4: return string(r.oneof({"NOT ", "-", "+", "not "})) + e();
    case 5: return gen_expr(r, 0) + " " + r.oneof({"IS NULL", "IS NOT NULL", "is null"});
    case 6: case 7: return ident(r) + "." + ident(r) + (r.p(.3) ? "." + ident(r) : "");
    case 8: return ident(r) + "[" + e() + "]";
    case 9: return ident(r) + "[" + (r.p(.7) ? gen_expr(r, 0) : "") + ".." + (r.p(.7) ? gen_expr(r, 0) : "") + "]";
    case 10: { string s = ident(r) + " {"; int n = r.below(4); for (int i = 0; i < n; ++i) { if (i) s += ", "; switch (r.below(4)) { case 0: s += ident(r) + ": " + e(); break; case 1: s += "." + ident(r); break; case 2: s += ident(r); break; default: s += ".*"; } } return s + "}"; }
    case 11: return ident(r) + ":" + ident(r) + (r.p(.3) ? ":" + ident(r) : "");
    case 12: return "[" + ident(r) + " IN " + e() + (r.p(.5) ? " WHERE " + gen_expr(r, 0) : "") + (r.p(.5) ? " | " + gen_expr(r, 0) : "") + "]";
    case 13: return "[" + (r.p(.4) ? ident(r) + " = " : string()) + path(r, 0, 1) + (r.p(.4) ? " WHERE " + gen_expr(r, 0) : "") + " | " + gen_expr(r, 0) + "]";
    case 14: { string s = "["; int n = r.below(4); for (int i = 0; i < n; ++i) s += (i ? "," : "") + W + gen_expr(r, 0); return s + "]"; }
    case 15: return map_(r, d);
    case 16: { string s = "CASE" + (r.p(.5) ? " " + gen_expr(r, 0) : string()); int n = r.range(1, 3); for (int i = 0; i < n; ++i) s += " WHEN " + gen_expr(r, 0) + " THEN " + e(); if (r.p(.5)) s += " ELSE " + gen_expr(r, 0); return s + " END"; }
    case 17: return "FILTER(" + ident(r) + " IN " + e() + (r.p(.7) ? " WHERE " + gen_expr(r, 0) : "") + ")";
    case 18: return "EXTRACT(" + ident(r) + " IN " + e() + (r.p(.7) ? " | " + gen_expr(r, 0) : "") + ")";
    case 19: return "reduce(" + ident(r) + " = " + gen_expr(r, 0) + ", " + ident(r) + " IN " + e() + (r.p(.7) ? " | " + gen_expr(r, 0) : "") + ")";
    case 20: return string(r.oneof({"ALL", "ANY", "SINGLE", "NONE"})) + "(" + ident(r) + " IN " + e() + (r.p(.8) ? " WHERE " + gen_expr(r, 0) : "") + ")";
    case 21: return path(r, 0, 1);
    case 22: return "shortestPath(" + path(r, 0, 1) + ")";
    case 23: return "(" + gen_expr(r, d - 2) + ")";
    case 24: return string(r.oneof({"count", "db.f", "coalesce"})) + "(" + (r.p(.3) ? "DISTINCT " : "") + "*)";
    case 25: case 26: { string s = string(r.oneof({"f", "ns.fn", "length", "a.b.c"})) + "(" + (r.p(.3) ? "DISTINCT " : ""); int n = r.below(3); for (int i = 0; i < n; ++i) s += (i ? ", " : "") + gen_expr(r, d - 1); return s + ")"; }
    default: return gen_expr(r, 0);
    }
}
static string setitem(Rng &r, int d) { switch (r.below(4)) { case 0: return ident(r) + "." + ident(r) + " = " + gen_expr(r, d); case 1: return ident(r) + " = " + gen_expr(r, d); case 2: return ident(r) + " += " + map_(r, d); default: return ident(r) + ":" + ident(r) + (r.p(.3) ? ":" + ident(r) : ""); } }
static string sets(Rng &r, int d) { string s = "SET " + setitem(r, d); while (r.p(.3)) s += ", " + setitem(r, d); return s; }
static string projs(Rng &r, int d, bool with) {
    string s; if (r.p(.2)) s += "DISTINCT "; bool star = r.p(.2); if (star) s += "*"; else s += gen_expr(r, d) + (r.p(.5) || with ? " AS " + ident(r) : "");
    while (r.p(.3)) s += "," + W + gen_expr(r, d) + (r.p(.4) || with ? " AS " + ident(r) : "");
    if (r.p(.2)) { s += " ORDER BY " + gen_expr(r, 1) + string(r.oneof({"", " ASC", " DESC", " DESCENDING", " ASCENDING"})); if (r.p(.3)) s += ", " + gen_expr(r, 0); }
    if (r.p(.15)) s += " SKIP " + gen_expr(r, 0); if (r.p(.15)) s += " LIMIT " + gen_expr(r, 0); return s; }
static string clause(Rng &r, int d) {
    switch (r.below(22)) {
    case 0: case 1: case 2: { string s = string(r.p(.2) ? "OPTIONAL MATCH " : "MATCH ") + pattern(r, d);
        if (r.p(.1)) s += " USING INDEX " + ident(r) + ":" + ident(r) + "(" + ident(r) + ")"; if (r.p(.06)) s += " USING JOIN ON " + ident(r) + (r.p(.4) ? ", " + ident(r) : ""); if (r.p(.06)) s += " USING SCAN " + ident(r) + ":" + ident(r);
        if (r.p(.4)) s += W + "WHERE " + gen_expr(r, d); return s; }
    case 3: case 4: case 5: return "RETURN " + projs(r, d, false);
    case 6: return "UNWIND " + gen_expr(r, d) + " AS " + ident(r);
    case 7: { string s = "MERGE " + ppart(r, d); while (r.p(.4)) s += string(r.p(.5) ? " ON MATCH " : " ON CREATE ") + sets(r, 1); return s; }
    case 8: case 9: return string(r.p(.2) ? "CREATE UNIQUE " : "CREATE ") + pattern(r, d);
    case 10: return sets(r, d);
    case 11: return string(r.p(.4) ? "DETACH DELETE " : "DELETE ") + gen_expr(r, 0) + (r.p(.3) ? ", " + gen_expr(r, 1) : "");
    case 12: return "REMOVE " + (r.p(.5) ? ident(r) + "." + ident(r) : ident(r) + ":" + ident(r)) + (r.p(.3) ? ", " + ident(r) + "." + ident(r) : "");
    case 13: case 14: return "WITH " + projs(r, d, true) + (r.p(.3) ? " WHERE " + gen_expr(r, d) : "");
    case 15: return "FOREACH (" + ident(r) + " IN " + gen_expr(r, 1) + " | " + sets(r, 1) + (r.p(.3) ? " CREATE " + pattern(r, 0) : "") + ")";
    case 16: { string s = string("CALL ") + r.oneof({"db.labels", "proc", "a.b.c"}); if (r.p(.7)) { s += "("; int n = r.below(3); for (int i = 0; i < n; ++i) s += (i ? ", " : "") + gen_expr(r, 1); s += ")"; }
        if (r.p(.5)) s += r.p(.2) ? " YIELD -" : " YIELD " + ident(r) + (r.p(.4) ? " AS " + ident(r) : "") + (r.p(.3) ? ", " + ident(r) : ""); if (r.p(.2)) s += " WHERE " + gen_expr(r, 1); return s; }
    case 17: return string("LOAD CSV ") + (r.p(.4) ? "WITH HEADERS " : "") + "FROM " + str(r) + " AS " + ident(r) + (r.p(.3) ? " FIELDTERMINATOR ';'" : "");
    case 18: { auto pt = [&] { string k = r.oneof({"node", "rel", "relationship"}); string s = ident(r) + " = " + k;
            switch (r.below(4)) { case 0: return s + ":" + ident(r) + "(" + ident(r) + " = " + (r.p(.5) ? str(r) : param(r)) + ")"; case 1: return s + ":" + ident(r) + "(" + (r.p(.5) ? str(r) : param(r)) + ")"; case 2: return s + "(*)"; default: return s + "(1, 2,3)"; } };
        string s = "START " + pt(); while (r.p(.3)) s += ", " + pt(); if (r.p(.3)) s += " WHERE " + gen_expr(r, 1); return s; }
    case 19: return string(r.p(.5) ? "UNION ALL" : "UNION") + " RETURN " + projs(r, 1, false);
    default: return "RETURN " + gen_expr(r, d);
    }
}
string gen_statement(Rng &r, int d) {
    string s;
    if (r.p(.12)) s += r.oneof({"EXPLAIN ", "PROFILE ", "CYPHER 2.3 ", "CYPHER 3.0 planner=cost runtime=interpreted ", "CYPHER planner = rule ", "EXPLAIN PROFILE "});
    if (r.p(.12)) { string l = ident(r), p = ident(r), i = ident(r);
        switch (r.below(6)) { case 0: return s + "CREATE INDEX ON :" + l + "(" + p + (r.p(.3) ? ", " + ident(r) : "") + ")"; case 1: return s + "DROP INDEX ON :" + l + "(" + p + (r.p(.3) ? ", " + ident(r) : "") + ")";
        case 2: return s + (r.p(.5) ? "CREATE" : "DROP") + " CONSTRAINT ON (" + i + ":" + l + ") ASSERT " + i + "." + p + " IS UNIQUE";
        case 3: return s + (r.p(.5) ? "CREATE" : "DROP") + " CONSTRAINT ON (" + i + ":" + l + ") ASSERT exists(" + i + "." + p + ")";
        case 4: return s + (r.p(.5) ? "CREATE" : "DROP") + " CONSTRAINT ON ()-[" + i + ":" + l + "]-() ASSERT exists(" + i + "." + p + ")";
        default: return s + (r.p(.5) ? "CREATE" : "DROP") + " CONSTRAINT ON ()<-[" + i + ":" + l + "]-() ASSERT exists(" + i + "." + p + ")"; } }
    if (r.p(.04)) s += string("USING PERIODIC COMMIT ") + (r.p(.5) ? "500 " : "");
    int n = r.p(.5) ? 1 : r.range(1, 4); for (int i = 0; i < n; ++i) { if (i) s += W; s += clause(r, d); }
    return s;
}
static string command(Rng &r) { string s = ":"; if (r.p(.1)) s += " "; s += r.oneof({"help", "play", "quit", "param", "x"}); int n = r.below(4);
    for (int i = 0; i < n; ++i) { s += r.oneof({" ", "  ", "\t", " /* c */ "}); switch (r.below(6)) { case 0: s += str(r); break; case 1: s += "a\\;b"; break; case 2: s += "\\\n cont"; break; case 3: s += "http://x"; break; default: s += r.oneof({"arg", "--flag", "key=val", "a'b'c", "1.5"}); } } return s; }
static string damage(Rng &r, string s) {
    int n = r.range(1, 3);
    for (int i = 0; i < n && !s.empty(); ++i) { size_t p = r.below(s.size());
        switch (r.below(8)) { case 0: s.erase(p, r.range(1, 4)); break; case 1: s.insert(p, r.oneof({"!", "?", "&", ")", "]", "}", "(", "((", "@", "MATCH", " RETURN", "=", "..", "\\", "#", "$"})); break;
        case 2: s[p] = (char)r.below(256); break; case 3: s.insert(p, s.substr(p, r.range(1, 6))); break; case 4: s[p] = " !@#%&()[]{}<>;'\"`/*-+=:|.,"[r.below(28)]; break;
        case 5: s = s.substr(0, p); break; case 6: s.insert(p, "\n"); break; default: s.insert(p, string(1, "\x00\xff\r\x80\x7f"[r.below(5)])); } }
    return s;
}
// comments and white space between the tokens of a statement
string decorate(Rng &r, const string &s, double p) {
    static const vector<string> between = {"/**/", "/* c */", "//c\n", "\n", " ", "\t", "/*\n*/", "\r\n", "/*'*/", "/*;*/ "};
    string o; size_t i = 0, n = s.size();
    auto word = [](char c) { return isalnum((unsigned char)c) || c == '_' || (c & 0x80); };
    while (i < n) { size_t k = i + 1; char ch = s[i];
        if (ch == '\'' || ch == '"' || ch == '`') { while (k < n && s[k] != ch) k += s[k] == '\\' && ch != '`' ? 2 : 1; k = std::min(n, k + 1); }
        else if (ch == '/' && k < n && s[k] == '*') { k = s.find("*/", k + 1); k = k == string::npos ? n : k + 2; }
        else if (ch == '/' && k < n && s[k] == '/') { k = s.find('\n', k); k = k == string::npos ? n : k + 1; }
        else if (word(ch)) while (k < n && word(s[k])) ++k;
        else if (k < n && strchr("<>=.-", s[k]) && strchr("<>=.-", ch) && r.p(.7)) ++k;
        o.append(s, i, k - i); i = k; if (i < n && r.p(p)) o += r.pick(between); }
    return o; }
string gen_segment(Rng &r, const GenOpts &o, bool last) {
    string s;
    if (r.p(o.comments)) s += r.oneof({"// leading\n", "/* block */", "/* a\n b */ ", "\n", " \t", "\r\n", "// c\r\n", ""});
    if (!o.only_statements && r.p(o.commands)) { s += command(r); if (r.p(o.damage * .5)) s = damage(r, s); s += r.p(.5) ? "\n" : r.p(.5) ? ";" : r.p(.5) ? " // end\n" : "\r\n"; if (last && r.p(.4)) s.pop_back(); return s; }
    string t = r.p(.06) ? string(r.oneof({"", " ", "/* only */", "garbage here", "MATCH", "RETURN", "'unterminated", "/* open", "`open", "foo bar MATCH (n) RETURN n", "RETURN 1 MATCH", ")(", "CYPHER", "EXPLAIN", "CREATE", "x"})) : gen_statement(r, o.depth);
    if (r.p(o.decorated)) t = decorate(r, t, r.p(.5) ? .04 : r.p(.5) ? .2 : .9);
    if (r.p(o.damage)) t = damage(r, t);
    if (r.p(o.bytes)) t.insert(r.below(t.size() + 1), string(1, (char)r.below(256)));
    s += t; if (r.p(o.comments * .5)) s += r.oneof({" /* trailing */", " // eol\n", "\n", " "});
    if (!(last && r.p(.45))) s += ";";
    return s;
}
// rare bytes that a scanner may treat specially: marks, separators, controls, invalid UTF-8, at the start or anywhere
string oddify(Rng &r, string s) {
    static const vector<string> odd = {"\xef\xbb\xbf", "\xe2\x80\xa8", "\xe2\x80\xa9", "\xc2\xa0", "\xc2\x85", "\xe3\x80\x80", "\r", "\x1a", string(1, 0), "\f", "\v", "\xff", "\xfe\xff", "\xc3", "\xf0\x9f\x98\x80", "\xc0\x80", "\x1b[31m", "\x04", "\x7f", "\\", "\r\r\n", "#!", "--", "\t\t"};
    int n = r.range(1, 3); for (int i = 0; i < n; ++i) { size_t at = r.p(.35) ? 0 : r.p(.15) ? s.size() : r.below(s.size() + 1); if (r.p(.3)) { size_t nl = s.find('\n', at); if (nl != string::npos) at = nl + 1; } s.insert(at, r.pick(odd)); }
    return s; }
// sizes around the limits of narrow counters and of the parser's buffers
static size_t edge_size(Rng &r, size_t max) { static const size_t v[] = {127, 128, 255, 256, 257, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8192, 16384, 32767, 32768, 65535, 65536, 65537};
    for (int i = 0; i < 50; ++i) { size_t x = v[r.below(20)]; if (x <= max) return x + (r.p(.4) ? r.below(12) : 0); } return max; }
// a document with one dimension far beyond the usual: bytes, lines, columns, tokens, nodes, segments, errors
string gen_giant(Rng &r, const GenOpts &o, size_t max, bool clean) {
    auto rep = [](const string &u, size_t n) { string s; s.reserve(u.size() * n); while (n--) s += u; return s; };
    GenOpts b = o; b.big = 0; b.max_stmts = 3; string pre = r.p(.7) ? gen_doc(r, b) + "\n" : "", mid, post; size_t n = edge_size(r, max), few = edge_size(r, std::max<size_t>(257, max / 16));
    switch (r.below(clean ? 13 : 16)) {
    case 0: mid = rep("\n", n); break;
    case 1: mid = rep(" ", n); break;
    case 2: mid = "/*" + rep(r.oneof({"x", "\n", "*", " /", "long\n"}), n) + "*/"; break;
    case 3: mid = "//" + rep("c", n) + "\n"; break;
    case 4: { string u = r.oneof({"s", "\n", "\\n", "\\\\", "\"", "\xc3\xa9"}); mid = "RETURN '" + rep(u, u == "\n" ? std::min<size_t>(n, 4200) : n) + "'"; break; }   // positions are looked up line by line
    case 5: mid = "RETURN " + rep("i", n); break;
    case 6: { string u = r.oneof({"q", " ", ";", "\n"}); mid = "RETURN `" + rep(u, u == "\n" ? std::min<size_t>(n, 4200) : n) + "`"; break; }
    case 7: mid = rep(r.oneof({";", "RETURN 1;", ";\n", ":x\n", "//c\n", "/**/", "\r\n", ":x;"}), few); break;
    case 8: mid = "RETURN [" + rep("1,", few) + "1]"; break;
    case 9: mid = "RETURN 1" + rep(r.oneof({" + 1", " AND a", "\n+\n2"}), few / 4); break;
    case 10: mid = rep(r.oneof({"RETURN 1 ", "CREATE (n) ", "SET a.b = 1\n", "WITH a "}), edge_size(r, std::min<size_t>(few, 1100))) + "RETURN 2"; break;
    case 11: mid = "MATCH (n" + rep(":L", few) + ") RETURN n"; break;
    case 12: mid = ":cmd" + rep(r.oneof({" a", " 'q'", "\t/* c */x"}), few); break;
    case 13: mid = rep(r.oneof({"!;", "bad;", "?\n;", "RETURN ;\n", "MATCH;"}), few); break;       // that many errors
    case 14: mid = rep(r.oneof({"!", ")", "\x01", "]", "=", "$"}), few); break;
    default: mid = "RETURN " + rep("x", r.below(40)) + "!" + rep("y", n); break; }                 // an error in a very long line
    if (r.p(.5)) mid += r.p(.5) ? ";" : "\n;"; if (r.p(.3)) post = rep(r.oneof({"\n", " ", ";"}), edge_size(r, 1024));
    if (r.p(.8)) { post += "\n"; post += gen_doc(r, b); }
    string all = r.p(.15) && pre.size() ? (pre.insert(r.below(pre.size()), mid), pre + post) : pre + mid + post;     // sometimes in the middle of something
    // the quick parser looks ahead over white space at every character of it, which costs the square of its length:
    // keep very long runs of it at the start of a statement
    string o2; size_t i = 0; while (i < all.size()) { size_t k = i; while (k < all.size() && strchr(" \t\r\n", all[k]) && all[k]) ++k; if (k - i > 1500 && i) o2 += "\n;"; if (k == i) ++k; o2.append(all, i, k - i); i = k; }
    return o2; }
string gen_doc(Rng &r, const GenOpts &o) {
    string s; int n = r.range(r.p(.05) ? 0 : 1, o.max_stmts);
    for (int i = 0; i < n; ++i) { s += gen_segment(r, o, i == n - 1); if (r.p(.6)) s += r.oneof({"\n", " ", "\r\n", "\n\n"}); }
    if (o.big) { // long tokens, many segments
        Rng q(r.next()); GenOpts b = o; b.big = 0;
        while ((int)s.size() < o.big) { switch (q.below(8)) {
            case 0: { string t(q.range(50, o.big / 2 + 60), 'x'); s += "RETURN '" + t + "';"; break; }
            case 1: { string t(q.range(50, o.big / 2 + 60), 'y'); s += "/*" + t + "*/"; break; }
            case 2: { s += "RETURN ["; int k = q.range(10, 200); for (int i = 0; i < k; ++i) s += sfmt("%s%d", i ? ", " : "", i); s += "];\n"; break; }
            case 3: { int k = q.range(1, 40); for (int i = 0; i < k; ++i) s += ";"; break; }
            case 4: { string t(q.range(1, 900), ' '); s += t; break; }
            case 5: { int k = q.range(10, 300); for (int i = 0; i < k; ++i) s += "\n"; break; }
            default: s += gen_segment(q, b, false) + "\n"; } } }
    if (r.p(o.odd)) s = oddify(r, s);
    return s;
}
GenOpts random_opts(Rng &r) { GenOpts o; o.max_stmts = r.p(.15) ? 12 : r.range(1, 5); o.damage = r.p(.3) ? 0 : r.p(.5) ? .25 : .7; o.commands = r.p(.3) ? 0 : .25; o.comments = r.p(.3) ? 0 : .35; o.bytes = r.p(.5) ? 0 : .1; o.depth = r.range(0, 3); o.odd = r.p(.7) ? 0 : .15; o.decorated = r.p(.6) ? 0 : .3; return o; }
vector<string> all_kinds_docs() {
    return {
        "CYPHER 2.3 planner=cost runtime=slotted EXPLAIN PROFILE MATCH (n) RETURN n;",
        "CREATE INDEX ON :Foo(bar, baz);", "DROP INDEX ON :Foo(bar);", "DROP INDEX ON :Foo(bar, baz,qux);", "RETURN '\\a\\b\\f\\n\\r\\t\\v\\\\\\'\\\"\\?';",
        "CREATE CONSTRAINT ON (f:Foo) ASSERT f.bar IS UNIQUE;", "DROP CONSTRAINT ON (f:Foo) ASSERT f.bar IS UNIQUE;", "CREATE CONSTRAINT ON (f:Foo) ASSERT exists(f.bar);",
        "CREATE CONSTRAINT ON ()-[r:REL]-() ASSERT exists(r.bar);", "DROP CONSTRAINT ON ()<-[r:REL]-() ASSERT exists(r.bar);",
        "USING PERIODIC COMMIT 500 LOAD CSV WITH HEADERS FROM 'http://x' AS row FIELDTERMINATOR '|' CREATE (n {a: row.b});", "USING PERIODIC COMMIT LOAD CSV FROM 'f' AS l RETURN l;",
        "START a=node:idx(k='v'), b=node:idx('q:*'), c=node(1,2), d=node(*), e=rel:idx(k={p}), f=rel:idx('q'), g=relationship(3), h=rel(*) WHERE a.x = 1 RETURN *;",
        "OPTIONAL MATCH p = (n:Foo:Bar {a: 1})-[r:R|:S|T*1..3 {x: 2}]->(m)<--()--()<-[]-() , shortestPath((a)-[*]->(b)), allShortestPaths((a)-[*2]-(b)) USING INDEX n:Foo(bar) USING JOIN ON n, m USING SCAN n:Foo WHERE n.x = 1 RETURN n;",
        "MERGE (n:Foo) ON MATCH SET n.x = 1, n:Bar ON CREATE SET n += {a: 1}, n = {b: 2};", "CREATE UNIQUE (n)-[:R]->(m {p: $q});", "CREATE (a), (b);",
        "MATCH (n) SET n.a.b = 1, n = m, n += $map, n:L1:L2 REMOVE n.x, n:L1:L2 DELETE n, m DETACH DELETE r;",
        "FOREACH (x IN [1,2,3] | CREATE (n {v: x}) SET n.y = x);", "MATCH (n) WITH DISTINCT *, n.a AS a ORDER BY a DESC, n.b SKIP 1 LIMIT 2 WHERE a > 1 RETURN DISTINCT *, a AS b, n.c ORDER BY b SKIP 3 LIMIT 4;",
        "WITH 1 AS a RETURN a;", "WITH DISTINCT a AS b RETURN DISTINCT b;", "WITH * RETURN *;",
        "UNWIND [1,2] AS x CALL db.proc(1, 'a') YIELD r1 AS s1, r2 WHERE r2 > 1 RETURN x UNION ALL RETURN 2 UNION RETURN 3;", "CALL foo YIELD - RETURN 1;",
        "RETURN NOT a AND b OR c XOR d, -1 + +2 * 3 / 4 % 5 ^ 6, a = b <> c, a =~ 'x', a < b <= c > d >= e, a IS NULL, a IS NOT NULL, a IN b, a CONTAINS b, a STARTS WITH b, a ENDS WITH b;",
        "RETURN f(), ns.g(1, 'x'), h(DISTINCT a), count(*), count(DISTINCT *), a.b.c, a[1], a[1..2], a[..], a:L1:L2, a {.x, y: 1, z, .*};",
        "RETURN [x IN xs WHERE x > 1 | x * 2], [x IN xs], [p = (a)-->(b) WHERE a.x | b.y], [(a)-[:R]-(b) | 1], [1, 2.5, 'three', true, FALSE, null], {a: 1, b: {c: []}};",
        "RETURN CASE a WHEN 1 THEN 'x' WHEN 2 THEN 'y' ELSE 'z' END, CASE WHEN a THEN b END, FILTER(x IN xs WHERE x), EXTRACT(x IN xs | x), REDUCE(a = 0, x IN xs | a + x), ALL(x IN xs WHERE x), ANY(x IN xs WHERE x), SINGLE(x IN xs WHERE x), NONE(x IN xs WHERE x);",
        "RETURN $p, {q}, $1, (a)-->(b), shortestPath((a)-->(b)), `odd name`, 0x1F, .5e3;",
        "// line comment\nRETURN /* block */ 1 // tail\n;", ":help arg1 'arg two' \"three\" a\\;b\n", "MATCH (n) RETRN n; RETURN 1 2 3 MATCH (m) RETURN m;",
    };
}
