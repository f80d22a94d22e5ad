#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo and runs checks against them.

  seed.py make DEF.py [ID..]  confirm the bugs defined in DEF.py and write /verif/seeded/<ID>
  seed.py check ID [PROP..]   run the checks (default: that of the bug's property) against it

DEF.py defines BUGS = {id: dict(prop=, needs=, breaks=, edits=[(file, old, new)], demo=python text)}; the demo gets
BIN (the program), run(*args, stdin=b"") -> (rc, out, err), D (its scratch directory, the cwd), write(name, text), read(name).
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/seedrepo"
DEMO_SH = '#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py" "$PWD/target/debug/accountmerge"\n'
DEMO_HEAD = '''import os, re, subprocess, sys, tempfile
BIN = os.path.abspath(sys.argv[1])
_t = tempfile.TemporaryDirectory()
D = _t.name
os.chdir(D)
def run(*args, stdin=b"", env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run([BIN] + list(args), input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
def write(name, text, enc="utf-8"):
    with open(os.path.join(D, name), "wb") as f: f.write(text if isinstance(text, bytes) else text.encode(enc))
    return name
def read(name):
    p = os.path.join(D, name)
    return open(p, encoding="utf-8").read() if os.path.exists(p) else None
def expect(cond, msg):
    if not cond:
        print("DEMO FAILS: " + str(msg)); sys.exit(1)
'''
def sh(cmd, cwd=WORK, **kw):
    e = dict(os.environ); e.update(CARGO_TARGET_DIR=WORK + "/target", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
                                   CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, **kw)
def prepare():
    if not os.path.isdir(WORK): subprocess.check_call(["cp", "-a", "/repo", WORK])
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e 'target*'")
def build():
    sh("rm -rf %s/target/debug/.fingerprint/accountmerge-*" % WORK)
    return sh("cargo build --workspace --offline 2>&1")
def make(defs, ids):
    ns = {}
    exec(compile(open(defs).read(), defs, "exec"), ns)
    for bid, b in ns["BUGS"].items():
        if ids and bid not in ids: continue
        prepare()
        d = os.path.join(V, "seeded", bid)
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(DEMO_HEAD + b["demo"])
        open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        ok = True
        r = build(); assert r.returncode == 0, r.stdout
        r = sh("bash %s/demo.sh" % d)
        if r.returncode != 0: ok = False; print(bid, "DEMO FAILS ON CLEAN TREE", r.stdout[-1500:])
        for f, old, new in b["edits"]:
            p = os.path.join(WORK, f); t = open(p).read()
            assert t.count(old) == 1, (bid, f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        r = sh("git diff"); open(d + "/patch.diff", "w").write(r.stdout)
        r = build()
        if r.returncode != 0: ok = False; print(bid, "DOES NOT BUILD", r.stdout[-2500:])
        else:
            r = sh("bash %s/demo.sh" % d)
            if r.returncode == 0: ok = False; print(bid, "DEMO PASSES WITH PATCH")
            else: print(bid, "demo:", r.stdout.strip()[-200:])
            r = sh("cargo test --workspace --offline 2>&1")
            if r.returncode != 0:
                ok = False; print(bid, "TESTS FAIL", "\n".join(l for l in r.stdout.splitlines() if "FAILED" in l or "panicked" in l)[:800])
        print(bid, "confirmed" if ok else "REJECTED")
        if not ok: shutil.rmtree(d)
def check(bid, props):
    d = os.path.join(V, "seeded", bid)
    prepare()
    r = sh("git apply %s/patch.diff" % d); assert r.returncode == 0, r.stdout
    props = props or [json.load(open(d + "/meta.json"))["property"]]
    res = {}
    for p in props:
        e = dict(os.environ, ACCOUNTMERGE_REPO=WORK, ACCOUNTMERGE_TARGET=WORK + "/target-check", ACCOUNTMERGE_EVID="/tmp/seed-evidence")
        e.setdefault("VERIF_SEED", "1")
        r = subprocess.run(["python3", "check.py", p], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("  ")]
        print(bid, p, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d" % r.returncode), " | ".join(v)[:260] if r.returncode == 1 else "" if r.returncode == 0 else r.stdout[-1500:], flush=True)
    prepare()
if sys.argv[1] == "make": make(sys.argv[2], sys.argv[3:])
else: check(sys.argv[2], sys.argv[3:])
