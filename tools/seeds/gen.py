#!/usr/bin/env python3
"""Builds /verif/seeded/<id> from specs.py and confirms each in a scratch copy of /repo.
   usage: gen.py [id...]"""
import os, sys, subprocess, json, shutil
here = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.abspath(os.path.join(here, "../../seeded"))
SCR = "/tmp/seedrepo"
sys.path.insert(0, here)
from specs import SPECS
import specs2, specs3, specs4, specs5, specs6

def sh(cmd, cwd=None, t=300):
    p = subprocess.Popen(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=t)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        return subprocess.CompletedProcess(cmd, 99, out, err)
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)

if not os.path.exists(SCR):
    sh(f"cp -a /repo {SCR}")
sh("git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD", SCR)
env = "export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=%s/target; " % SCR
want = sys.argv[1:]
for s in SPECS:
    if want and s["id"] not in want:
        continue
    sh("git checkout -q -- .", SCR)
    dst = os.path.join(OUT, s["id"])
    os.makedirs(dst, exist_ok=True)
    a = 'uwuhi-async = { path = "$repo/uwuhi-async" }\nfutures-lite = "2.3.0"\nasync-io = "2.3.2"' if s.get("async") else ""
    if s.get("log"): a += '\nlog = "0.4"'
    run = '"$work/target/debug/demo"' if not s.get("ns") else 'unshare -Urn sh -c "ip link set lo up; ip route add 224.0.0.0/4 dev lo; exec $work/target/debug/demo"'
    open(dst + "/demo.sh", "w").write(open(here + "/demo.sh").read().replace("@ASYNC@", a).replace("@RUN@", run))
    os.chmod(dst + "/demo.sh", 0o755)
    open(dst + "/demo.rs", "w").write(open(here + "/prelude.rs").read() + "\n" + s["demo"].strip("\n") + "\n")
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
    c = sh(dst + "/demo.sh", SCR)
    ok_clean = c.returncode == 0
    bad = False
    for f, old, new in s["edits"]:
        p = os.path.join(SCR, f)
        t = open(p).read()
        n = t.count(old)
        if n != 1:
            print(s["id"], "EDIT matches", n, "times in", f, repr(old[:60])); bad = True; break
        open(p, "w").write(t.replace(old, new))
    if bad: continue
    open(dst + "/patch.diff", "w").write(sh("git diff", SCR).stdout)
    b = sh(env + "cargo test --workspace --no-fail-fast --offline 2>&1", SCR)
    tests = b.returncode == 0
    p = sh(dst + "/demo.sh", SCR)
    ok_patch = p.returncode not in (0, 2, 99)
    ok = ok_clean and tests and ok_patch
    print(s["id"], "OK" if ok else "FAIL", f"clean={c.returncode} tests={tests} patched={p.returncode}", flush=True)
    if not ok:
        print("  clean:", c.stderr[-600:], "\n  tests:", "" if tests else b.stdout[-800:], "\n  patched:", p.stderr[-600:])
    sh("git checkout -q -- .", SCR)
