#!/usr/bin/env python3
"""Authoring aid for planted bugs (no check uses it).
seed.py ID PROPERTY FEATURES EDITS.py: EDITS.py defines edits = [(file, old, new)...], demo (Rust), needs, breaks.
Writes /verif/seeded/ID and confirms it: the demo passes on HEAD and fails with the patch."""
import json, os, shutil, subprocess, sys
D = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(D))
ident, prop, feats, src = sys.argv[1:5]
ns = {}; exec(open(src).read(), ns)
w = f"/tmp/seed_{ident}"
shutil.rmtree(w, ignore_errors=True)
subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
base = set(subprocess.run(["git", "-C", w, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split())
for f, old, new in ns["edits"]:
    p = f"{w}/{f}"; s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, "w").write(s.replace(old, new))
out = f"{V}/seeded/{ident}"
shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
open(f"{out}/patch.diff", "w").write(diff)
shutil.copytree(f"{V}/env", f"{out}/env")
shutil.copy(f"{V}/harness/Cargo.lock", f"{out}/Cargo.lock")
open(f"{out}/demo.rs", "w").write(ns["demo"])
open(f"{out}/demo.sh", "w").write(open(f"{D}/demo.sh").read().replace("@FEATURES@", ", ".join(f'"{x}"' for x in feats.split(",") if x)))
os.chmod(f"{out}/demo.sh", 0o755)
json.dump({"property": prop, "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
env = dict(os.environ, DEMO_TARGET="/tmp/seed_target_" + ("ffi" if "ffi" in feats else "plain"))
r1 = subprocess.run(["bash", f"{out}/demo.sh"], cwd=w, env=env, capture_output=True, text=True)
subprocess.run(["git", "-C", w, "checkout", "-q", "--", "."], check=True)
r0 = subprocess.run(["bash", f"{out}/demo.sh"], cwd=w, env=env, capture_output=True, text=True)
print(ident, "HEAD:", r0.returncode, "patched:", r1.returncode, (r1.stdout + r1.stderr)[-400:].strip().replace("\n", " | "))
if r0.returncode != 0: print("HEAD FAILS", (r0.stdout + r0.stderr)[-3000:])
if r1.returncode in (0, 3): print("PATCH NOT DEMONSTRATED", (r1.stdout + r1.stderr)[-3000:])
shutil.rmtree(w)
