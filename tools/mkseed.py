#!/usr/bin/env python3
"""tools/mkseed.py <id> <property> : turns /tmp/sw/<id>/ (repo copy with the change applied, demo.cc and
demo.args beside it) into /verif/seeded/<id> after confirming it. Files in /tmp/seed_<id>/:
demo.cc, sources (list of sources/globs), run (arguments; default nothing), needs, breaks, mpi (optional)."""
import glob, json, os, shutil, subprocess, sys
sid, prop = sys.argv[1], sys.argv[2]
src = f"/tmp/seed_{sid}"
out = f"/verif/seeded/{sid}"
wc = "/tmp/sw"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
rd = lambda f, d="": open(f"{src}/{f}").read().strip() if os.path.exists(f"{src}/{f}") else d
if not os.path.exists(wc): sh(f"cp -a /repo {wc}")
sh(f"git -C {wc} checkout -f -q -- . && git -C {wc} fetch -q /repo HEAD && git -C {wc} reset -q --hard FETCH_HEAD")
os.makedirs(out, exist_ok=True)
patch = f"{src}/patch.diff"
r = sh(f"git -C {wc} apply --check {patch}")
if r.returncode: sys.exit("patch does not apply: " + r.stdout)
for f in glob.glob(f"{src}/*"):
    if os.path.basename(f) not in ("sources", "needs", "breaks", "run", "mpi"):
        shutil.copy(f, out)
shutil.copytree("/verif/sim/include/kassert", f"{out}/include/kassert", dirs_exist_ok=True)
shutil.copy("/verif/tools/demo/demo_build.sh", out)
mpi = rd("mpi")
body = f"""#!/bin/bash
# exit 0: the property holds; anything else: it is broken. Run in the repository.
. "$(dirname "$0")/demo_build.sh"
demo_build {'mpi' if mpi else 'nompi'} {' '.join(rd('sources').split())}
"""
default = f"timeout 120 mpirun --allow-run-as-root --oversubscribe -n {mpi} $work/demo" if mpi else 'timeout 120 "$work/demo"'
body += (rd("run") or default) + "\n"
open(f"{out}/demo.sh", "w").write(body)
os.chmod(f"{out}/demo.sh", 0o755)
json.dump(dict(property=prop, needs=rd("needs"), what_it_breaks=rd("breaks")), open(f"{out}/meta.json", "w"), indent=1)
r0 = sh(f"{out}/demo.sh", cwd=wc); print("unpatched demo rc", r0.returncode, r0.stdout[-1500:])
sh(f"git -C {wc} apply {patch}")
r1 = sh(f"{out}/demo.sh", cwd=wc); print("patched demo rc", r1.returncode, r1.stdout[-600:])
sh(f"git -C {wc} checkout -f -q -- .")
if os.environ.get('NOBUILD'): sys.exit()
# build and tests with the change, in /repo
sh(f"git -C /repo apply {patch}")
b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/seed_test.json"); print(t.stdout.splitlines()[-1:])
sh("git -C /repo apply -R " + patch)
print("git:", sh("git -C /repo status --short").stdout)
