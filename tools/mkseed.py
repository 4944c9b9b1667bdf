#!/usr/bin/env python3
"""mkseed.py ID PROPERTY WORKTREE DEMO_CC NEEDS BREAKS [extra sources...]
Packs the change made in WORKTREE (a scratch clone of /repo) as seeded/ID and
confirms that its demonstration fails with the change and passes without it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID, prop, wt, demo, needs, breaks = sys.argv[1:7]
extra = sys.argv[7:]
d = os.path.join(V, "seeded", ID)
if os.path.isdir(d):
    shutil.rmtree(d)
os.makedirs(os.path.join(d, "kit"))
diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True).stdout
assert diff.strip(), "no change in worktree"
open(os.path.join(d, "patch.diff"), "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
shutil.copy(demo, os.path.join(d, "demo.cc"))
shutil.copytree(os.path.join(V, "shim"), os.path.join(d, "kit", "shim"))
shutil.copy(os.path.join(V, "tools", "gen_ros.py"), os.path.join(d, "kit"))
for f in ("common.h", "core_util.h", "app_util.h"):
    p = os.path.join(V, "harness", f)
    if os.path.exists(p):
        shutil.copy(p, os.path.join(d, "kit"))
sh = """#!/bin/bash
# Builds demo.cc against the working tree in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
python3 "$D/kit/gen_ros.py" "$R" "$T/gen" >/dev/null || exit 3
g++ -std=c++17 -w -O1 %s-DROS_PACKAGE_NAME='"msf"' -DBOOST_NO_CXX11_VARIADIC_TEMPLATES -DENABLE_MSF_TIMING \\
  -I"$D/kit" -I"$D/kit/shim" -I"$T/gen" -I"$R/msf_core/include" -I"$R/msf_timing/include" -I"$R/msf_updates/include" -I"$R/msf_updates/src" -isystem /usr/include/eigen3 \\
  "$D/demo.cc" "$R/msf_timing/src/Timer.cc" "$R/msf_core/src/lib/msf_tools.cc" "$R/msf_core/src/lib/falsecolor.cc" %s -lglog -lpthread -o "$T/demo" 2>"$T/log" || { tail -20 "$T/log"; exit 3; }
"$T/demo"
""" % ("-fsanitize=address,undefined -fno-sanitize-recover=all " if "SAN" in extra else "", " ".join('"$R/%s"' % e for e in extra if e != "SAN"))
p = os.path.join(d, "demo.sh")
open(p, "w").write(sh); os.chmod(p, 0o755)
for where, want in ((wt, "nonzero"), ("/repo", "0")):
    r = subprocess.run(["bash", p], cwd=where, capture_output=True, text=True)
    print(where, "rc", r.returncode, "want", want, "|", (r.stdout + r.stderr).strip()[-400:])
    if (r.returncode == 0) != (want == "0"):
        sys.exit("demo does not discriminate")
