"""Planted bugs: python3 tools/mkseed.py [ID...] builds seeded/<id> from tools/seeds/defs*.py and tries each one.

For every bug, in a scratch copy: the patch applies, the repository's stable tests pass, the demonstration passes without
and fails with the patch; then the checks of its property (or all with --all) run against the copy.  Prints a table."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
BASE = "d00ef0d"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1")


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, "tools", "seeds", "defs*.py"))):
        g = {}
        exec(compile(open(f).read(), f, "exec"), g)
        for b in g["BUGS"]:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out


def original(path, lines):
    """Whether the (removed) lines stem from the original commit."""
    bad = []
    for n in lines:
        rc, o = sh(["git", "blame", "-s", "-L", "%d,%d" % (n, n), BASE + "..HEAD", "--", path], REPO)
        if not o.startswith("^"):
            bad.append(n)
    return bad


def build(b):
    wt = tempfile.mkdtemp(prefix="seed-%s-" % b["id"], dir="/tmp")
    sh(["cp", "-a", REPO + "/.", wt])
    sh(["git", "checkout", "-q", "--", "."], wt)
    for path, old, new in b["edits"]:
        f = os.path.join(wt, "src/quocslib", path)
        s = open(f).read()
        if s.count(old) != 1:
            shutil.rmtree(wt)
            return None, "%s: old text found %d times in %s" % (b["id"], s.count(old), path)
        open(f, "w").write(s.replace(old, new))
    rc, diff = sh(["git", "diff", "-U3"], wt)
    out = os.path.join(HERE, "seeded", b["id"])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.py"), "w").write('"""%s"""\nfrom h import *\n\n' % b["breaks"].replace('"', "'") + b["demo"].strip() + "\n")
    shutil.copy(os.path.join(HERE, "tools/seeds/h.py"), os.path.join(out, "h.py"))
    with open(os.path.join(out, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\n# exit 0: the property holds in this example; non-zero: it is broken\nset -u\n'
                'export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg\n'
                'exec timeout 200 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    # removed lines must be original ones
    notes, path, n = [], None, 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            path = l[6:]
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            if original(path, [n]):
                notes.append("not original: %s:%d" % (path, n))
            n += 1
        elif not l.startswith("+"):
            n += 1
    if not any(l.startswith("-") and not l.startswith("---") for l in diff.splitlines()):
        notes.append("only insertions")
    return wt, "; ".join(notes)


def tests(wt):
    e = dict(ENV, PYTHONPATH=wt + "/src:/opt/vp/lib", PYTHONHASHSEED="0")
    tmp = tempfile.mkdtemp(prefix="seedtest-", dir="/tmp")
    rc, o = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_isolate", "--timeout=300", "-n", "4", "--dist",
                "loadfile", "--basetemp=" + tmp + "/t"], wt, e, 900)
    shutil.rmtree(tmp, ignore_errors=True)
    m = re.findall(r"(\d+) (passed|failed|error)", o)
    return " ".join("%s %s" % x for x in m)


def demo(bid, wt):
    e = dict(ENV, PYTHONPATH=wt + "/src") if wt else ENV
    rc, o = sh(["bash", os.path.join(HERE, "seeded", bid, "demo.sh")], REPO, e, 300)
    return rc, o.strip().splitlines()[-1:] or [""]


def check(prop, wt, seed="1"):
    ev = tempfile.mkdtemp(prefix="seedev-", dir="/tmp")
    rc, o = sh([PY, "check.py", prop], HERE, dict(ENV, VERIF_REPO=wt, VERIF_SEED=seed, VERIF_OUT=ev), 900)
    shutil.rmtree(ev, ignore_errors=True)
    v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
    d = [l for l in o.splitlines() if l.startswith("  ") or "violat" in l.lower()]
    return rc, len(v), (d or [""])[0][:150]


def one(b, args):
    wt, note = build(b)
    if wt is None:
        return b["id"], note
    try:
        r0, m0 = demo(b["id"], None)
        r1, m1 = demo(b["id"], wt)
        line = "%-7s %s demo %d/%d %s" % (b["id"], b["prop"], r0, r1, "" if (r0 == 0 and r1 != 0) else "BAD DEMO %s %s" % (m0, m1))
        if "--notest" not in args:
            t = tests(wt)
            line += " tests[%s]" % t
        if "--nocheck" not in args:
            rc, n, d = check(b["prop"], wt)
            line += " check=%s %s" % ("CAUGHT" if rc == 1 and n else "missed(rc %d)" % rc, d)
        return b["id"], line + (" NOTE " + note if note else "")
    finally:
        shutil.rmtree(wt, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    bugs = load()
    ids = [a for a in args if not a.startswith("--")]
    todo = [b for k, b in bugs.items() if not ids or any(k.startswith(i) for i in ids)]
    with ThreadPoolExecutor(2) as ex:
        for bid, line in ex.map(lambda b: one(b, args), todo):
            print(line, flush=True)
