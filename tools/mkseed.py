#!/usr/bin/env python3
"""mkseed.py ID PROP FILE OLD NEW NEEDS BREAKS [--srcs a.cpp b.cpp]: make a seeded change from a textual replacement; demo.cpp must already be in seeded/ID."""
import sys, os, subprocess, json, argparse
ap = argparse.ArgumentParser()
for a in ("id", "prop", "needs", "breaks"): ap.add_argument(a)
ap.add_argument("--edit", nargs=3, action="append", required=True)
ap.add_argument("--srcs", nargs="*", default=[])
ap.add_argument("--flags", default="")
a = ap.parse_args()
D = "/verif/seeded/" + a.id
os.makedirs(D, exist_ok=True)
R = "/tmp/seed/repo"
subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
subprocess.run(["git", "-C", R, "fetch", "-q", "/repo"], check=True)
h = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
subprocess.run(["git", "-C", R, "reset", "-q", "--hard", h], check=True)
demo = """#!/bin/bash
set -e
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
I=""
for d in extraction lib localization rotationlib kalman_filter ekf_localizer mapping; do I="$I -I$PWD/$d/include"; done
g++ -std=c++17 -O1 -w -fno-access-control $I -I"$PWD" -I"$D" -isystem /usr/include/eigen3 -isystem /usr/include/pcl-1.14 "$D/demo.cpp" %s -o "$T/demo" %s
timeout 60 "$T/demo"
""" % (" ".join("\"$PWD/%s\"" % s for s in a.srcs), a.flags + " -lfmt")
open(D + "/demo.sh", "w").write(demo)
os.chmod(D + "/demo.sh", 0o755)
r = subprocess.run([D + "/demo.sh"], cwd=R)
print("clean demo exit", r.returncode)
assert r.returncode == 0
for f, o, n in a.edit:
    s = open(R + "/" + f).read()
    assert s.count(o) == 1, (f, s.count(o))
    open(R + "/" + f, "w").write(s.replace(o, n))
d = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
open(D + "/patch.diff", "w").write(d)
r = subprocess.run([D + "/demo.sh"], cwd=R)
print("patched demo exit", r.returncode)
assert r.returncode != 0
json.dump({"property": a.prop, "needs": a.needs, "what_it_breaks": a.breaks}, open(D + "/meta.json", "w"), indent=1)
# does the check catch it?
e = dict(os.environ, IRVC_REPO=R, IRVC_EVIDENCE="/tmp/seed/ev")
os.makedirs("/tmp/seed/ev", exist_ok=True)
r = subprocess.run(["/verif/check.py", a.prop, "quick"], capture_output=True, text=True, env=e)
print("check exit", r.returncode)
print(r.stdout[:1500], r.stderr[:500])
subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
