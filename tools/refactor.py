#!/usr/bin/env python3
"""Development aid, not used by any check: applies a behaviour-preserving edit to /repo, runs checks, undoes it."""
import subprocess as sp, sys, time
def sh(c): return sp.run(["bash","-c",c],capture_output=True,text=True)
f, props = sys.argv[1], sys.argv[2:]
assert not sh("git -C /repo status --porcelain -uno").stdout
def sub(p, old, new, count=1):
    p = "/repo/" + p; s = open(p).read(); assert s.count(old) == count, (p, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
try:
    exec(open(f).read(), {"sub": sub})
    for p in props:
        t0 = time.time(); r = sp.run(["/verif/check", p, "quick"], capture_output=True, text=True)
        print(f.split('/')[-1], p, "rc", r.returncode, f"{time.time()-t0:.0f}s"); print("\n".join("   "+l[:400] for l in (r.stdout+r.stderr).splitlines()[-6:]), flush=True)
finally: sh("git -C /repo checkout -- .")
