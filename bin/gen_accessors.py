#!/usr/bin/env python3
"""Generates a table of every public per-node accessor from the public header, so that the
simulator's observation of a tree covers each attribute and child role of each node kind."""
import re, sys
src = open(sys.argv[1]).read()
types = re.findall(r"extern\s+const\s+cypher_astnode_type_t\s+(CYPHER_AST_\w+)\s*;", src)
ops = re.findall(r"extern\s+const\s+cypher_operator_t\s*\*\s*(?:const\s+)?(CYPHER_OP_\w+)\s*;", src)
text = re.sub(r"/\*.*?\*/", " ", src, flags=re.S)
text = re.sub(r"^\s*#.*$", " ", text, flags=re.M)
text = re.sub(r"\b__cypherlang_\w+(\([^)]*\))?", " ", text)
bylower = {t[len("CYPHER_AST_"):].lower(): t for t in types}
ALIAS = {}
rows = []
skipped = []
for m in re.finditer(r"([\w\s\*]+?)\b(cypher_ast_\w+)\s*\(([^()]*)\)\s*;", text):
    ret, fn, args = " ".join(m.group(1).split()), m.group(2), " ".join(m.group(3).split())
    a = [x.strip() for x in args.split(",")]
    if a[0] != "const cypher_astnode_t *node" and a[0] != "const cypher_astnode_t *astnode":
        continue
    if len(a) > 2 or (len(a) == 2 and not re.match(r"unsigned int \w+$", a[1])):
        skipped.append(fn); continue
    rest = fn[len("cypher_ast_"):]
    best = None
    for k in bylower:
        if rest.startswith(k + "_") and (best is None or len(k) > len(best)):
            best = k
    if best is None:
        skipped.append(fn); continue
    idx = len(a) == 2
    kind = {"const cypher_astnode_t *": "N", "bool": "B", "unsigned int": "U", "const char *": "S",
            "const cypher_operator_t *": "O", "enum cypher_rel_direction": "E"}.get(ret.replace("* ", "*"))
    if kind is None:
        skipped.append(fn); continue
    rows.append((fn, bylower[best], kind + ("I" if idx else "")))
with open(sys.argv[2], "w") as f:
    f.write("// generated from the public header\n")
    for fn, t, k in rows:
        f.write("ACC_%s(%s, %s)\n" % (k, fn, t))
    for t in types:
        f.write("ACC_TYPE(%s)\n" % t)
    for o in ops:
        f.write("ACC_OP(%s)\n" % o)
sys.stderr.write("accessors: %d, types: %d, operators: %d, skipped: %s\n" % (len(rows), len(types), len(ops), skipped))
