"""Confirms planted bugs in a scratch copy of /repo and runs checks against them.

seedtool.py ID ...          verify: applies, builds, stable tests pass, demo tells them apart
seedtool.py --check ID ...  only run the check of its property (--all: every check)
"""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b.get("stable_tests") or b.get("passed") or b


def fresh(name):
    d = "/tmp/seed-" + name
    if os.path.exists(d):
        shutil.rmtree(d)
    shutil.copytree("/repo", d, symlinks=True)
    return d


def main():
    args = sys.argv[1:]
    check_only = "--check" in args
    every = "--all" in args
    ids = [a for a in args if not a.startswith("--")]
    rc = 0
    for i in ids:
        src = os.path.join(VERIF, "seeded", i)
        meta = json.load(open(os.path.join(src, "meta.json")))
        d = fresh(i)
        out = []
        try:
            env = {"PYTHONPATH": "", "PYTHONDONTWRITEBYTECODE": "1"}
            demo = os.path.join(src, "demo.sh")
            if not check_only:
                c, o = sh(["bash", demo], d, env, 300)
                out.append("demo clean %s" % ("ok" if c == 0 else "FAILS %d %s" % (c, o[-500:])))
            c, o = sh(["git", "apply", os.path.join(src, "patch.diff")], d)
            if c:
                out.append("DOES NOT APPLY " + o)
            names = sh(["git", "diff", "--name-only"], d)[1].split()
            if any(n.endswith(("pp", ".c")) for n in names):
                c, o = sh([PY, "-W", "ignore", "setup.py", "-q", "build_ext", "--inplace", "--force"], d)
                if c:
                    out.append("BUILD FAILS " + o[-500:])
            if not check_only:
                c, o = sh(["bash", demo], d, env, 300)
                out.append("demo patched %s" % ("ok (%d: %s)" % (c, o.strip().splitlines()[-1][:150] if o.strip() else "") if c else "DOES NOT FAIL"))
                c, o = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--maxfail=0", "-n", "4", "tests"], d, env)
                out.append("tests " + o.strip().splitlines()[-1])
            todo = [meta["property"]]
            if every:
                todo = [x["property"] for x in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]
            for p in todo:
                c, o = sh([PY, "harness/run.py", p], VERIF, {"VERIF_REPO": d, "VERIF_SEED": "1"})
                viol = [l for l in o.splitlines() if l.startswith("VIOLATION")]
                clause = [l.strip()[:230] for l in o.splitlines() if l.strip().startswith("[")]
                if p == meta["property"] or viol or c:
                    out.append("%s %s %s" % (p, "CAUGHT" if c == 1 and viol else "MISSED (%d)" % c, clause[:1]))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        print(i, *out, sep="\n   ")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
