#!/usr/bin/env python3
"""dev tool: generates seeded/<id>/{patch.diff,meta.json,demo.sh} from seeds.py (demo.cc is written by hand)"""
import json, os, subprocess, sys, shutil
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mkseed-wt"
only = set(sys.argv[1:])
subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", W], capture_output=True)
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", W, "HEAD"])
try:
    for sid, s in SEEDS.items():
        if only and sid not in only: continue
        for f, old, new in s["edits"]:
            f = f if "/" in f else "libs/cmdr11/include/cmdr11/" + f
            p = os.path.join(W, f); t = open(p).read()
            n = t.count(old)
            assert n == 1, f"{sid}: {f}: {n} matches of {old!r}"
            open(p, "w").write(t.replace(old, new))
        for f in {e[0] for e in s["edits"]}:
            f = f if "/" in f else "libs/cmdr11/include/cmdr11/" + f
            base = set(subprocess.check_output(["git", "-C", W, "show", "c1c630a:" + f], text=True).split("\n"))
            gone = [l[1:] for l in subprocess.check_output(["git", "-C", W, "diff", "-U0", "--", f], text=True).split("\n") if l.startswith("-") and not l.startswith("---")]
            mine = [l for l in gone if l.strip() and l not in base]
            if mine: print("  WARNING", sid, "changes lines that are not original:", mine)
        d = os.path.join(V, "seeded", sid); os.makedirs(d, exist_ok=True)
        diff = subprocess.check_output(["git", "-C", W, "diff"], text=True)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if "demo" in s: open(d + "/demo.cc", "w").write(s["demo"].lstrip())
        open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# cwd: the repository, after its build
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 3
trap 'rm -rf "$out"' EXIT
gen=_build/generated
g++ {s.get("flags", "-std=c++17 -O1")} -pthread -w -I"$PWD/libs/cmdr11/include" -I"$PWD/addons" -I"$PWD/$gen" "$here/demo.cc" -o "$out/demo" {s.get("libs", "")} || exit 3
cd "$out" || exit 3
HOME="$out" TMPDIR="$out" timeout 120 "$out/demo"
''')
        subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
        print(sid, "ok")
finally:
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", W])
