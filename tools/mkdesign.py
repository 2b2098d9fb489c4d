#!/usr/bin/env python3
"""Write DESIGN.md from design_head.md, the sub-checks' docstrings and design_tail.md, seeded/*/meta.json and seed_results.json."""
import ast, glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(HERE, "tools", "design_props.py")).read(), ns)
out = [open(os.path.join(HERE, "tools", "design_head.md")).read()]
out.append("\n## 2. The properties\n\nFor each: what is specified and generated, against which oracle, within what bounds; then its sub-checks with the number of\ncases of the quick run (the thorough run has about 5 times as many). The statements are in properties.jsonl. Cost: 15–60 s per quick check on 8\ncores, 3–10 minutes per thorough one.\n")
titles = dict((json.loads(l)["id"], json.loads(l)["title"]) for l in open(os.path.join(HERE, "properties.jsonl")))
total = 0
for f in sorted(glob.glob(os.path.join(HERE, "pbt/props/c[0-9]*.py"))):
    m = ast.parse(open(f).read())
    pid = os.path.basename(f)[:-3].upper()
    fns = dict((n.name, n) for n in m.body if isinstance(n, ast.FunctionDef))
    out.append("### %s %s\n\n%s\n" % (pid, titles[pid], ns["TEXT"][pid].strip()))
    for n in m.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == "RULE":
            out.append("*Case and non-trivial:* %s.\n" % ast.literal_eval(n.value))
        if isinstance(n, ast.Assign) and n.targets[0].id == "SUBS":
            for c in n.value.elts:
                name, count = ast.literal_eval(c.args[0]), int(2.5 * eval(ast.unparse(c.args[2])))
                total += count
                doc = ((ast.get_docstring(fns[c.args[1].id]) if isinstance(c.args[1], ast.Name) else "") or "").split("\n")[0]
                out.append("- `%s` (%d): %s" % (name, count, doc))
    out.append("")
out.append("Together %d cases per quick run of all checks.\n" % total)
out.append(open(os.path.join(HERE, "tools", "design_tail.md")).read())
res = {}
p = os.path.join(HERE, "tools", "seed_results.json")
if os.path.exists(p):
    res = json.load(open(p))
out.append("\n## 7. Planted bugs\n\nEach is in `seeded/<id>/` (patch, demo, meta), builds, passes the stable tests and fails its demo. `caught by` names the\nsub-check of the property's quick run which reported it (seed 1).\n\n| id | what it breaks | needs | caught by |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    out.append("| %s | %s | %s | %s |" % (n, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), res.get(n, "not run")))
out.append(open(os.path.join(HERE, "tools", "design_mut.md")).read())
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
