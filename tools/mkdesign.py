"""Fills the generated tables of DESIGN.md between markers: what each check
enumerates (the module's own RULE) and which planted change each check catches."""
import ast
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def const(path, name):
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
            return ast.literal_eval(n.value)


def main():
    man = json.load(open(f"{ROOT}/MANIFEST.json"))
    props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
    checks = {c["property"]: c for c in man["checks"]}
    na = {c["property"]: c["reason"] for c in man["not_applicable"]}
    out = []
    for q in props:
        i = q["id"]
        out.append(f"### {i} {q['title']}\n")
        out.append(q["statement"] + "\n")
        if i in checks:
            m = f"{ROOT}/mc/props/{i.lower()}.py"
            out.append(f"* Level: {checks[i]['level']}. {checks[i]['technique']}.")
            out.append(f"* Enumerated: {const(m, 'RULE')}")
            out.append(f"* Oracle: {checks[i]['level_note']}")
            out.append(f"* Why tests cannot: {q['why_tests_cant']}")
            try:
                e = json.load(open(f"{ROOT}/evidence/{i}.json"))
                if e.get("tier") == "quick":
                    out.append(f"* Quick run: {e['wall_s']:.0f} s on 8 cores.")
            except Exception:
                pass
        else:
            out.append(f"* Not claimed: {na[i]}")
        out.append("")
    s = open(f"{ROOT}/DESIGN.md").read()
    s = re.sub(r"(?s)<!-- PROPS -->.*<!-- /PROPS -->", lambda _: "<!-- PROPS -->\n" + "\n".join(out) + "\n<!-- /PROPS -->", s)
    rows = ["| change | property | caught by | needs |", "|---|---|---|---|"]
    for d in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
        m = json.load(open(d))
        rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m.get('caught_by', '?')} | {m['needs'].replace('|', '/')} |")
    s = re.sub(r"(?s)<!-- SEEDS -->.*<!-- /SEEDS -->", lambda _: "<!-- SEEDS -->\n" + "\n".join(rows) + "\n<!-- /SEEDS -->", s)
    open(f"{ROOT}/DESIGN.md", "w").write(s)


if __name__ == "__main__":
    main()
