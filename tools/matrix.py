#!/usr/bin/env python3
"""Run checks against planted bugs: tools/matrix.py [--all-checks] [--checks C01,C02] ID...|--all

By default each bug meets its own property's check. Applies the patch to /repo,
runs, and undoes it straight afterwards. Prints one line per bug and check.
"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main(args):
    checks = None
    if "--all-checks" in args:
        args.remove("--all-checks")
        checks = [f"C{i:02d}" for i in range(1, 23)]
    if "--checks" in args:
        k = args.index("--checks")
        checks = args[k + 1].split(",")
        del args[k:k + 2]
    ids = sorted(os.listdir(V + "/seeded")) if args == ["--all"] else args
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]), "/repo is not clean"
    for i in ids:
        d = f"{V}/seeded/{i}"
        prop = json.load(open(d + "/meta.json"))["property"]
        subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
        try:
            hits, info = [], []
            for c in checks or [prop]:
                t = time.time()
                r = subprocess.run(["python3", V + "/check.py", c], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout:
                    hits.append(c)
                elif r.returncode != 0:
                    info.append(f"{c}:rc={r.returncode} {r.stdout[-300:]}")
                info.append(f"{time.time()-t:.0f}s")
            print(f"{'CAUGHT' if prop in hits else 'MISSED'} {i} [{prop}] by {','.join(hits)} ({' '.join(info) if not checks else ''})", flush=True)
        finally:
            subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
main(sys.argv[1:])
