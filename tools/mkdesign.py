"""Writes DESIGN.md: the fixed text of tools/design, the parts that come from the check modules, and the table of planted bugs."""
import ast
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
D = V / "tools" / "design"
props = sorted((json.loads(line) for line in (V / "properties.jsonl").read_text().splitlines()), key=lambda p: p["id"])
why = json.loads((D / "why.json").read_text())
out = [(D / "head.md").read_text().rstrip() + "\n"]
for p in props:
    f = V / "vf" / "checks" / f"{p['id'].lower()}.py"
    if not f.exists():
        continue
    t = ast.parse(f.read_text())
    d = {n.targets[0].id: n.value for n in t.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)}
    cases = []
    for n in t.body:
        if isinstance(n, ast.FunctionDef) and n.decorator_list:
            k = {a.arg: a.value.value for a in n.decorator_list[0].keywords}
            cases.append(f"{n.name} {k['quick']}/{k.get('thorough', k['quick'] * 20)}")
    out += [f"### {p['id']} {p['title']}\n", "Monitored and generated: " + ast.literal_eval(d["RULE"]) + "\n",
            "Bounds and assumptions: " + "; ".join(ast.literal_eval(d["ASSUMPTIONS"])) + ".\n",
            "Cases (quick/thorough): " + ", ".join(cases) + ".\n", "Reaches beyond the tests because: " + why[p["id"]] + "\n"]
caught = json.loads((D / "caught.json").read_text()) if (D / "caught.json").exists() else {}
rows = ["| id | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted((V / "seeded").glob("*/meta.json")):
    i, meta = m.parent.name, json.loads(m.read_text())
    rows.append(f"| {i} | {meta['property']} | {meta['needs']} | {caught.get(i, meta['property'])} |")
out.append((D / "tail.md").read_text().rstrip() + "\n\n" + "\n".join(rows) + "\n")
(V / "DESIGN.md").write_text("\n".join(out))
