#!/usr/bin/env python3
"""mkdemo.py ID CASE...: seeded/ID with the demo kit and the plain files of each case."""
import os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); d = os.path.join(H, "seeded", sys.argv[1]); os.makedirs(d + "/kit", exist_ok=True)
shutil.copy(H + "/tools/demokit/kit.py", d + "/kit"); shutil.copytree(H + "/sim/stubs", d + "/kit/stubs", dirs_exist_ok=True)
if not os.path.exists(d + "/demo.sh"): shutil.copy(H + "/tools/demokit/demo.sh", d)
for i, c in enumerate(sys.argv[2:]): subprocess.check_call([os.environ.get("SIMPN", "/tmp/b1/simpn"), "export", c, "%s/case%d" % (d, i)])
