#!/usr/bin/env python3
"""plant.py SPEC.py...  make seeded/<id>/ from a spec and confirm it (never run by a check)

A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (Python text run
with the tree as the current directory).  plant.py --verify ID... only confirms again.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SH = ('#!/bin/bash\nset -u\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
      'export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
      'py=/opt/venv/bin/python; [ -x "$py" ] || py=python3\n'
      'tmp="$(mktemp -d)"; trap \'rm -rf -- "$tmp"\' EXIT\n'
      'PYTHONPATH="$PWD" SCRATCH="$tmp" timeout 250 "$py" "$here/demo.py"\n')


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def write(spec):
    g = {}
    exec(open(spec).read(), g)
    d = f"{V}/seeded/{g['ID']}"
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in g["EDITS"]:
            p = "/repo/" + f
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) >= 1, f"not found in {f}: {old!r}"
            open(p, "w", newline="").write(s.replace(old, new) if g.get("ALL") else s.replace(old, new, 1))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True).stdout.decode()
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
    # only lines of the original repository may be changed
    base = "f6379ca"
    for f in {e[0] for e in g["EDITS"]}:
        mine = sh("git", "-C", "/repo", "blame", "-s", "-l", f"{base}..HEAD", "--", f).stdout
        owned = {}
        for i, line in enumerate(mine.split("\n"), 1):
            owned[i] = not line.startswith("^")
        cur, ln = None, 0
        for line in diff.split("\n"):
            if line.startswith("--- a/"):
                cur = line[6:]
            elif line.startswith("@@"):
                ln = int(line.split()[1].split(",")[0][1:])
            elif cur == f and line.startswith("-") and not line.startswith("---"):
                if owned.get(ln):
                    print("  NOTE: changes a line added by a fix:", line)
                ln += 1
            elif line.startswith(" "):
                ln += 1
    open(f"{d}/patch.diff", "w", newline="").write(diff)
    open(f"{d}/demo.py", "w").write(g["DEMO"].lstrip("\n"))
    if "dlib" in g["DEMO"]:
        shutil.copy2(f"{V}/tools/specs/dlib.py", d)
    open(f"{d}/demo.sh", "w").write(SH)
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]},
              open(f"{d}/meta.json", "w"), indent=1)
    return g["ID"]


def verify(i, check=True):
    d = f"{V}/seeded/{i}"
    meta = json.load(open(f"{d}/meta.json"))
    tmp = tempfile.mkdtemp(prefix="demo")
    for f in os.listdir(d):
        if f not in ("patch.diff", "meta.json") and os.path.isfile(f"{d}/{f}"):
            shutil.copy2(f"{d}/{f}", tmp)
    res = {}
    try:
        r = sh("bash", f"{tmp}/demo.sh", cwd="/repo")
        res["clean demo"] = r.returncode
        if r.returncode:
            print(r.stdout[-600:], r.stderr[-900:])
        a = sh("git", "-C", "/repo", "apply", f"{d}/patch.diff")
        assert a.returncode == 0, a.stderr
        r = sh("bash", f"{tmp}/demo.sh", cwd="/repo")
        res["patched demo"] = r.returncode
        res["says"] = (r.stdout + r.stderr).strip().splitlines()[-1:]
        sh("bash", "/opt/vp/build.sh")
        sh("bash", "/opt/vp/test.sh", f"{tmp}/t.json")
        t = json.load(open(f"{tmp}/t.json"))
        b = json.load(open("/opt/vp/BASELINE.json"))
        want = set(b.get("stable_pass") or b.get("passed") or b["stable"])
        got = set(t.get("passed") or t["pass"])
        res["tests lost"] = len(want - got)
        if check:
            r = sh("python3", f"{V}/run.py", "--property", meta["property"], "--tier", "quick",
                   env={**os.environ, "VERIF_SEED": "1"})
            res["check"] = r.returncode
            res["out"] = [x for x in r.stdout.splitlines() if x.startswith("property")][-1:]
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
        shutil.rmtree(tmp)
    ok = (res["clean demo"] == 0 and res["patched demo"] != 0 and res["tests lost"] == 0)
    print(i, meta["property"], "VALID" if ok else "INVALID",
          "CAUGHT" if res.get("check") == 1 else "MISSED", res, flush=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["--verify"]:
        for i in a[1:] or sorted(os.listdir(f"{V}/seeded")):
            verify(i)
    else:
        for s in a:
            verify(write(s))
