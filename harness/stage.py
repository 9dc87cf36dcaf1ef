"""Builds the code under test from /repo's current working tree.

The Python files of gdspy are copied and the C++ extension is compiled into
/verif/.build/<digest of the inputs>/, never into /repo.
"""
import hashlib
import os
import shutil
import subprocess
import sysconfig
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")

FLAGS = {
    "plain": ["-O2", "-DNDEBUG"],
    # UBSan: pointer/shift/bounds/null and so on.  Findings are printed and the
    # process is stopped, so the harness sees them as a crash of the worker.
    "asan": [
        "-O1",
        "-g",
        "-fno-omit-frame-pointer",
        "-D_GLIBCXX_ASSERTIONS",
        "-fsanitize=address,undefined,float-cast-overflow",
        "-fno-sanitize-recover=all",
    ],
}


def _inputs():
    base = os.path.join(REPO, "gdspy")
    out = []
    for root, dirs, files in os.walk(base):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            if f.endswith((".so", ".pyc", ".pyd", ".o")):
                continue
            out.append(os.path.relpath(os.path.join(root, f), base))
    return base, out


def stage(variant="plain"):
    """Return the directory to put on PYTHONPATH."""
    base, files = _inputs()
    h = hashlib.sha256()
    h.update(repr((variant, FLAGS[variant], sysconfig.get_config_var("EXT_SUFFIX"))).encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(os.path.join(base, f), "rb") as fin:
            data = fin.read()
        h.update(str(len(data)).encode() + b"\0" + data)
    dest = os.path.join(BUILD, variant + "-" + h.hexdigest()[:24])
    if os.path.exists(os.path.join(dest, ".done")):
        return dest
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    pkg = os.path.join(tmp, "gdspy")
    for f in files:
        d = os.path.join(pkg, f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copyfile(os.path.join(base, f), d)
    so = os.path.join(pkg, "clipper" + sysconfig.get_config_var("EXT_SUFFIX"))
    cmd = (
        ["g++", "-shared", "-fPIC", "-w"]
        + FLAGS[variant]
        + ["-I" + sysconfig.get_path("include"), os.path.join(pkg, "clipper.cpp"), "-o", so]
    )
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        shutil.rmtree(tmp, ignore_errors=True)
        raise RuntimeError("building the extension failed:\n" + r.stdout[-4000:])
    open(os.path.join(tmp, ".done"), "w").close()
    try:
        os.rename(tmp, dest)
    except OSError:  # someone else was faster
        shutil.rmtree(tmp, ignore_errors=True)
    _prune(dest)
    return dest


def _prune(keep, limit=8):
    dirs = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
    dirs = [d for d in dirs if d != keep and os.path.isdir(d) and not os.path.basename(d).startswith(("tmp-", "work-"))]
    dirs.sort(key=os.path.getmtime)
    for d in dirs[: max(0, len(dirs) - limit)]:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    import sys

    for v in sys.argv[1:] or ["plain", "asan"]:
        print(stage(v))
