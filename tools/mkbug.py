#!/usr/bin/env python3
"""Assembles seeded changes and tries them. A specification is a Python file that calls
  bug(id, property, [(file, old, new)...], cases, needs=..., breaks=..., extra=None, also=[])
usage: mkbug.py SPEC.py [ID...] [--no-check] [--thorough]"""
import json, os, shutil, subprocess, sys
V, R = "/verif", "/repo"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
flags = {a for a in sys.argv[1:] if a.startswith("--")}
tier = "thorough" if "--thorough" in flags else "quick"
want = args[1:]
env = dict(os.environ, DEMO_TARGET="/tmp/demo-target", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))

def sh(cmd, cwd=R, e=env):
    p = subprocess.run(cmd, shell=True, capture_output=True, text=True, cwd=cwd, env=e)
    return p.returncode, p.stdout + p.stderr

def clean():
    assert sh("git checkout -- . && git status --short")[1] == "", "/repo is not clean"

def fixed_lines(path):
    base = sh("git rev-list --max-parents=0 HEAD")[1].strip()
    out = sh(f"git blame -s --root {base}.. -- {path}")[1]
    return {i + 1 for i, l in enumerate(out.splitlines()) if not l.startswith("^")}

def bug(id, prop, edits, cases, needs, breaks, extra=None, also=()):
    if want and id not in want:
        return
    d = f"{V}/seeded/{id}"
    clean()
    old_text = {}
    notes = []
    try:
        for path, old, new in edits:
            s = open(f"{R}/{path}").read()
            old_text.setdefault(path, s)
            if s.count(old) != 1:
                print(f"{id}: {s.count(old)} matches in {path} of {old!r}")
                return
            open(f"{R}/{path}", "w").write(s.replace(old, new))
        diff = sh("git diff")[1]
    finally:
        clean()
    mine = {p: fixed_lines(p) for p in old_text}
    # Lines taken away by the patch, and whether any was in the original.
    path, n, orig, ours = None, 0, 0, 0
    for l in diff.splitlines():
        if l.startswith("+++ b/"):
            path = l[6:]
        elif l.startswith("@@"):
            n = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            if n in mine[path]: ours += 1
            else: orig += 1
            n += 1
        elif l.startswith(" "):
            n += 1
    if ours: notes.append(f"touches {ours} lines of our own commits")
    if not orig: notes.append("takes away no original line")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(f"{d}/demo/src")
    for f in ["Cargo.toml", "Cargo.lock"]:
        shutil.copy(f"{V}/tools/demo/{f}", f"{d}/demo/{f}")
    for f in ["main", "model", "verify", "vm", "extra"]:
        shutil.copy(f"{V}/tools/demo/src/{f}.rs", f"{d}/demo/src/{f}.rs")
    if extra:
        open(f"{d}/demo/src/extra.rs", "w").write(extra)
    shutil.copy(f"{V}/tools/demo/demo.sh", f"{d}/demo.sh")
    open(f"{d}/cases.txt", "w").write(cases.strip("\n") + "\n")
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    rc, out = sh(f"bash {d}/demo.sh --print")
    if rc:
        print(f"{id}: the demo does not run: {out[-2000:]}")
        return
    open(f"{d}/expected.txt", "w").write(out)
    rc, out = sh(f"bash {d}/demo.sh")
    if rc: notes.append("THE DEMO FAILS ON THE UNCHANGED TREE (not deterministic?)")
    print(f"--- {id} ({prop})")
    try:
        rc, out = sh(f"git apply {d}/patch.diff")
        assert rc == 0, out
        rc, out = sh("bash /opt/vp/build.sh")
        if rc:
            print("DOES NOT BUILD", out[-1500:])
            return
        rc, out = sh("bash /opt/vp/test.sh /tmp/bug-tests.json")
        b = json.load(open("/opt/vp/BASELINE.json"))
        base = set(b.get("passed") or b.get("stable") or b)
        now = set(json.load(open("/tmp/bug-tests.json"))["passed"])
        if base - now: notes.append(f"TESTS FAIL: {base - now}")
        rc, out = sh(f"bash {d}/demo.sh")
        if rc == 0: notes.append("THE DEMO PASSES WITH THE PATCH")
        print("  demo:", " | ".join(l for l in out.splitlines() if l[:1] in "<>")[:600])
        if "--no-check" not in flags:
            for p in [prop, *also]:
                rc, out = sh(f"bash {V}/check.sh {p} {tier}", cwd=V)
                v = [l for l in out.splitlines() if "VIOLATION" in l]
                print(f"  {p}: exit {rc}, {'caught' if v and rc == 1 else 'MISSED'}: {v[0][:200] if v else out[-300:]}")
    finally:
        clean()
    for n in notes: print("  NOTE", n)
    sys.stdout.flush()

exec(open(args[0]).read())
