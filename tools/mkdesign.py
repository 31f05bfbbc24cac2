"""Development: assemble DESIGN.md from tools/design.md (text), the rules' docstrings, the witnesses and the planted bugs."""
import ast
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rule(pid):
    m = ast.parse(open(f"{HERE}/sa/rules/{pid.lower()}.py").read())
    ass = []
    for n in m.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMES":
            ass = ast.literal_eval(n.value)
    return ast.get_docstring(m), ass


def main():
    t = open(f"{HERE}/tools/design.md").read()
    props = {d["id"]: d for d in map(json.loads, open(f"{HERE}/properties.jsonl"))}
    seeded = {}
    for d in sorted(os.listdir(f"{HERE}/seeded")):
        m = json.load(open(f"{HERE}/seeded/{d}/meta.json"))
        seeded.setdefault(m["property"], []).append((d, m))
    wit = {}
    for p in props:
        wit[p] = len(re.findall(r"^=== ", open(f"{HERE}/sa/witnesses/{p.lower()}.txt").read(), re.M))
    ref = sum(len(re.findall(r"^=== ", open(f"{HERE}/tools/refactor/{f}").read(), re.M)) for f in os.listdir(f"{HERE}/tools/refactor"))
    secs = dict(re.findall(r"^@@ (C\d\d)\n(.*?)(?=^@@ |\Z)", t.split("\n%%PROPS\n")[1].split("\n%%END\n")[0] + "\n", re.M | re.S))
    out = []
    for p, d in props.items():
        doc, ass = rule(p)
        out.append(f"### {p} {d['title']}\n\n{doc}\n\n{secs.get(p, '').strip()}\n\nAssumed: " + "; ".join(ass) + f".\nWitnesses: {wit[p]}.")
    tab = ["| planted bug | property | caught by | what it breaks |", "| --- | --- | --- | --- |"]
    for p in props:
        for s, m in seeded.get(p, []):
            tab.append(f"| {s} | {p} | {m.get('caught', p)} | {m['what_it_breaks']} |")
    a, rest = t.split("\n%%PROPS\n")
    b = rest.split("\n%%END\n")[1]
    s = a + "\n" + "\n\n".join(out) + "\n\n" + b
    s = s.replace("%%SEEDED", "\n".join(tab)).replace("%%WIT", str(sum(wit.values()))).replace("%%REF", str(ref))
    known = [l for l in open(f"{HERE}/known_findings.txt") if l.startswith(("fixed:", "known:"))]
    s = s.replace("%%FIXED", "\n".join("* " + re.sub(r"^fixed: property=(\S+) (\S+) ", r"\1 (\2): ", l.strip()) for l in known if l.startswith("fixed")))
    s = s.replace("%%KNOWN", "\n".join("* " + re.sub(r"^known: property=(\S+) (\S+) :: ", r"\1, obligation `\2`: ", l.strip()) for l in known if l.startswith("known")))
    open(f"{HERE}/DESIGN.md", "w").write(s)


if __name__ == "__main__":
    main()
