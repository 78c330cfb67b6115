#!/usr/bin/env python3
"""Writes the planted bugs of tools/seeds.py to /verif/seeded/<id>/ and tries each demo on a scratch copy."""
import sys, os, json, subprocess, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); OUT = os.path.join(HERE, "..", "seeded")
sys.path.insert(0, HERE); import seeds
DEMO = '''#!/bin/bash
# exit 0: behaves as the property says; run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
for v in "${!APOLLO_@}"; do unset "$v"; done
flags="-std=c++14 -O1 -g -DNDEBUG -w -Iinclude -Isrc %(flags)s"
n=0
for s in $(find src -name '*.cpp' ! -name RegressionTree.cpp %(find)s); do
  n=$((n+1)); g++ $flags -c "$s" -o "$t/$n.o" & [ $((n %% 8)) = 0 ] && wait
done
wait
g++ $flags -I"$d" "$d/demo.cpp" "$t"/*.o -o "$t/demo" -ldl %(libs)s || exit 3
cd "$t" && timeout 60 ./demo > out.txt 2>&1; r=$?
tail -3 out.txt; exit $r
'''
NOFIND = "! -name '*Cuda*' ! -name '*Hip*' ! -path '*connectors*'"
def main():
    only = sys.argv[1:]
    for s in seeds.SEEDS:
        if only and s["id"] not in only: continue
        wt = tempfile.mkdtemp(prefix="seed")
        try:
            subprocess.check_call("git -C /repo archive HEAD | tar -x -C " + wt, shell=True)
            subprocess.check_call("git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, cwd=wt)
            d = os.path.join(OUT, s["id"]); os.makedirs(d, exist_ok=True)
            open(d + "/demo.cpp", "w").write(s["demo"])
            for n, c in s.get("files", {}).items(): open(os.path.join(d, n), "w").write(c)
            open(d + "/demo.sh", "w").write(s.get("demo_sh") or DEMO % dict(flags=s.get("flags", ""), find=s.get("find", NOFIND), libs=s.get("libs", "")))
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
            r0 = subprocess.run(["bash", os.path.abspath(d + "/demo.sh")], cwd=wt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            for f, a, b in s["edits"]:
                p = os.path.join(wt, f); t = open(p).read()
                if t.count(a) != 1: raise SystemExit("%s: %d matches in %s of %r" % (s["id"], t.count(a), f, a))
                open(p, "w").write(t.replace(a, b))
            open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "diff"], cwd=wt, text=True))
            r1 = subprocess.run(["bash", os.path.abspath(d + "/demo.sh")], cwd=wt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            print("%-12s %s clean=%d bug=%d %s" % (s["id"], s["property"], r0.returncode, r1.returncode, "ok" if r0.returncode == 0 and r1.returncode not in (0, 3) else "BAD " + r0.stdout[-600:] + r1.stdout[-600:]), flush=True)
        finally: shutil.rmtree(wt)
main()
