#!/usr/bin/env python3
"""Development aid, not used by any check: validates a planted bug.

  seed.py mk ID PROPERTY  < edits      edits: python source defining edit(read, write) run in /tmp/w/repo
  seed.py val ID                       scratch copy: builds, tests pass, demo 0 clean / nonzero patched
  seed.py catch ID [PROP..]            applies to /repo, runs ./check, undoes
"""
import json, os, subprocess as sp, sys, time
V = os.environ.get("SEED_V", "/verif"); W = "/tmp/w/repo"
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def sh(c, **k): return sp.run(["bash", "-c", c], capture_output=True, text=True, **k)
def clean(): sh(f"git -C {W} checkout -q -- .")
def sync():
    a = sh("git -C /repo rev-parse HEAD").stdout; b = sh(f"git -C {W} rev-parse HEAD").stdout
    if a != b: sh(f"git -C {W} fetch -q /repo HEAD && git -C {W} checkout -q FETCH_HEAD")
def val(i):
    d = f"{V}/seeded/{i}"; sync(); clean(); ok = True
    t0 = time.time()
    env = "cd /tmp/w && "
    sh(f"sed 's#/repo#{W}#g' /opt/vp/env.sh > /tmp/w/env.sh; sed -e 's#/opt/vp/env.sh#/tmp/w/env.sh#' -e 's#/repo#{W}#g' /opt/vp/test.sh > /tmp/w/test.sh")
    r = sh(f"cd {W} && bash {d}/demo.sh"); t1 = time.time()
    if r.returncode: ok = False
    print(i, "demo clean rc", r.returncode, f"{t1-t0:.0f}s", r.stdout[-300:], r.stderr[-800:] if r.returncode else "")
    r = sh(f"git -C {W} apply {d}/patch.diff")
    if r.returncode: print("apply failed", r.stderr); return False
    r = sh("bash /tmp/w/test.sh /tmp/w/out.json")
    try: p = set(json.load(open("/tmp/w/out.json"))["passed"])
    except Exception: p = set()
    miss = [x for x in base if x not in p]
    print(i, "tests missing:", miss, r.stdout[-1500:] if miss else "")
    if miss: ok = False
    r = sh(f"cd {W} && bash {d}/demo.sh")
    print(i, "demo patched rc", r.returncode, r.stdout[-300:], r.stderr[-300:])
    if r.returncode == 0: ok = False
    clean(); print(i, "VALID" if ok else "INVALID", flush=True); return ok
def catch(i, props):
    d = f"{V}/seeded/{i}"
    props = props or [json.load(open(f"{d}/meta.json"))["property"]]
    assert not sh("git -C /repo status --porcelain -uno").stdout
    assert sh(f"git -C /repo apply {d}/patch.diff").returncode == 0
    try:
        for p in props:
            t0 = time.time(); r = sp.run([f"{V}/check", p, "quick"], capture_output=True, text=True)
            print(i, p, "rc", r.returncode, f"{time.time()-t0:.0f}s"); print("\n".join("   "+l[:250] for l in (r.stdout+r.stderr).splitlines()[-6:]), flush=True)
    finally: sh("git -C /repo checkout -- .")
def mk(i, prop):
    d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True); sync(); clean()
    def sub(f, old, new, count=1):
        s = open(f"{W}/{f}").read(); assert s.count(old) == count, (f, s.count(old), old)
        open(f"{W}/{f}", "w").write(s.replace(old, new))
    g = {"sub": sub, "W": W}
    exec(sys.stdin.read(), g)
    open(f"{d}/patch.diff", "w").write(sh(f"git -C {W} diff").stdout); clean()
    json.dump({"property": prop, "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    feats = g.get("r1cs", False)
    open(f"{d}/main.rs", "w").write(g["main"])
    extra = 'ark-relations = "0.4"\nark-r1cs-std = "0.4"\nark-ff = "0.4"\n' if feats else ""
    f = ', features = ["r1cs"]' if feats else ""
    open(f"{d}/demo.sh", "w").write(f'''#!/bin/bash
# Run with cwd = the repository. Exit 0: the property held on the demonstrated case; nonzero: broken.
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH" CARGO_NET_OFFLINE=true
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
mkdir -p /tmp/demo-{i}/src && cp "$here/main.rs" /tmp/demo-{i}/src/main.rs && cp "$repo/Cargo.lock" /tmp/demo-{i}/Cargo.lock || exit 99
cat > /tmp/demo-{i}/Cargo.toml <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
decaf377 = {{ version = "0.10.1", default-features = false{f} }}
poseidon377 = {{ path = "$repo/poseidon377"{f or ", default-features = false"} }}
poseidon-parameters = {{ path = "$repo/poseidon-parameters"{"" if feats else ", default-features = false"} }}
poseidon-permutation = {{ path = "$repo/poseidon-permutation"{f or ", default-features = false"} }}
{extra}[profile.release]
opt-level = {g.get("opt", 1)}
[workspace]
X
cd /tmp/demo-{i} && timeout 280 cargo run --quiet --offline --release
rc=$?
rm -rf /tmp/demo-{i}
exit $rc
''')
    print(open(f"{d}/patch.diff").read())
if __name__ == "__main__":
    c, i = sys.argv[1:3]
    {"mk": lambda: mk(i, sys.argv[3]), "val": lambda: sys.exit(0 if val(i) else 1), "catch": lambda: catch(i, sys.argv[3:])}[c]()
