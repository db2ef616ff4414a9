#!/usr/bin/env python3
"""Run checks against edits that keep every property: tools/refactor.py [--checks C01,C02] [FILE...]

Applies each refactors/*.diff to /repo, runs the checks, undoes it. Any check
that does not exit 0 is a false alarm (or the edit is not behaviour-preserving).
"""
import glob, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main(args):
    checks = [f"C{i:02d}" for i in range(1, 23)]
    if "--checks" in args:
        k = args.index("--checks")
        checks = args[k + 1].split(",")
        del args[k:k + 2]
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]), "/repo is not clean"
    for f in args or sorted(glob.glob(V + "/refactors/*.diff")):
        subprocess.check_call(["git", "-C", "/repo", "apply", os.path.abspath(f)])
        try:
            for c in checks:
                t = time.time()
                r = subprocess.run(["python3", V + "/check.py", c], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                print(f"{'quiet' if r.returncode == 0 else 'ALARM'} {os.path.basename(f)} {c} {time.time()-t:.0f}s", flush=True)
                if r.returncode:
                    print(r.stdout[-1500:], flush=True)
        finally:
            subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
main(sys.argv[1:])
