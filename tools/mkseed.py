#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: package /tmp/seed's uncommitted change and /tmp/seed_demo/*.go as seeded/ID after confirming it.
Texts in /tmp/seed_demo/needs and /tmp/seed_demo/breaks."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop = sys.argv[1:3]
d = "%s/seeded/%s" % (V, sid)
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/tmp/seed", "diff"], stdout=subprocess.PIPE, text=True).stdout
assert diff.strip()
open(d + "/patch.diff", "w").write(diff)
wsrc = open(V + "/harness/w/world.go").read().replace("package w\n", "package main\n", 1)
for f in os.listdir("/tmp/seed_demo"):
    if f.endswith(".go"):
        shutil.copy("/tmp/seed_demo/" + f, d)
if "noworld" not in sys.argv:
    open(d + "/world.go", "w").write(wsrc)
shutil.copy(V + "/tools/demo/demo.sh", d)
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": open("/tmp/seed_demo/needs").read().strip(), "what_it_breaks": open("/tmp/seed_demo/breaks").read().strip()},
          open(d + "/meta.json", "w"), indent=1)
r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
print("unchanged:", r0.returncode, r0.stdout[-600:])
r1 = subprocess.run(["bash", d + "/demo.sh"], cwd="/tmp/seed", env=dict(os.environ, DEMO_REPO="/tmp/seed"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
print("changed:", r1.returncode, r1.stdout[-600:])
