"""seednew.py ID PROPERTY FILE < spec: writes seeded/ID from a spec on stdin:
--- old / --- new blocks (repeatable, each optionally after a '--- file F' line), --- needs, --- breaks, --- demo."""
import json
import os
import subprocess
import sys
import tempfile
import shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ident, prop, path = sys.argv[1:4]
    blocks, cur = [], None
    for line in sys.stdin.read().splitlines(True):
        if line.startswith("--- ") and line[4:].split()[0] in ("old", "new", "needs", "breaks", "demo", "file"):
            cur = [line[4:].strip(), ""]
            blocks.append(cur)
        else:
            cur[1] += line
    texts, f, old, meta, demo = {}, path, None, {}, ""
    for k, body in blocks:
        if k.startswith("file"):
            f = k.split()[1]
        elif k.startswith("old"):
            old, nth = body, int((k.split() + ["0"])[1])
        elif k == "new":
            t = texts.get(f)
            if t is None:
                t = open(os.path.join("/repo", f), encoding="latin-1", newline="").read()
            nl = "\r\n" if "\r\n" in t else "\n"
            o, n = old.replace("\n", nl), body.replace("\n", nl)
            assert t.count(o) == 1 or 0 < nth <= t.count(o), "%d matches of %r" % (t.count(o), o)
            parts = t.split(o)
            nth = max(nth, 1)
            texts[f] = o.join(parts[:nth]) + n + o.join(parts[nth:])
        elif k == "demo":
            demo = body
        else:
            meta[k] = " ".join(body.split())
    d = os.path.join(VERIF, "seeded", ident)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp()
    subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
    for f, t in texts.items():
        open(os.path.join(tmp, "r", f), "w", encoding="latin-1", newline="").write(t)
    diff = subprocess.check_output(["git", "diff"], cwd=tmp + "/r")
    shutil.rmtree(tmp)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
    json.dump({"property": prop, "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
