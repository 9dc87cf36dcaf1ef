"""Writes DESIGN.md from properties.jsonl, the RULE/ASSUMPTIONS/REQUIRED of the
checks, KNOWN_FINDINGS.txt, design_notes.md and seeded/*/meta.json."""
import ast
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def notes():
    parts, key = {}, None
    for line in open(os.path.join(V, "harness", "design_notes.md")):
        if line.startswith("@@ "):
            key = line[3:].strip()
            parts[key] = ""
        else:
            parts[key] += line
    return {k: v.strip() for k, v in parts.items()}


def main():
    N = notes()
    seeds = {}
    for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        d = json.load(open(f))
        seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d))
    found = [l.strip() for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")) if l.strip()]
    out = [N["head"], "", "# Properties", ""]
    for line in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(line)
        c = p["id"]
        k = consts(os.path.join(V, "harness", "props", c.lower() + ".py"))
        out += ["## %s: %s" % (c, p["title"]), "", "**Monitored workload.** " + k["RULE"], ""]
        if c in N:
            out += ["**Oracle and reach.** " + N[c], ""]
        if k.get("ASSUMPTIONS"):
            out += ["**Bounds and assumptions.**", ""] + ["- " + a for a in k["ASSUMPTIONS"]] + [""]
        if k.get("REQUIRED"):
            out += ["A run in which one of these monitors observes nothing is inconclusive (exit 2): " + ", ".join("`%s`" % x for x in k["REQUIRED"]) + ".", ""]
        fx = [f for f in found if "property=%s " % c in f]
        if fx:
            out += ["**Defects found here** (" + ", ".join("%d %s" % (n, w) for n, w in ((sum(f.startswith("fixed") for f in fx), "repaired"), (sum(f.startswith("finding") for f in fx), "recorded")) if n) + ").", ""]
            out += ["- " + f for f in fx] + [""]
        if c in seeds:
            out += ["**Planted bugs.** " + " ".join("`%s` (%s): caught by %s." % (i, d["what_it_breaks"].rstrip("."), c) for i, d in seeds[c]), ""]
    out += [N["tail"]]
    with open(os.path.join(V, "DESIGN.md"), "w") as f:
        f.write("\n".join(out) + "\n")


main()
