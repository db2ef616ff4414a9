#!/usr/bin/env python3
"""Verify planted bugs: tools/plant.py ID... | --all   (scratch copy under /tmp, removed afterwards)

For each seeded/<id>: the patch applies to /repo's HEAD, the tree builds, the
stable tests pass, demo.sh exits 0 without and non-zero with the patch.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def main(ids):
    base = json.load(open("/opt/vp/BASELINE.json"))
    tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    copy = os.path.join(tmp, "repo")
    ok = True
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", copy])
        if os.path.exists("/repo/Cargo.lock") and not os.path.exists(copy + "/Cargo.lock"):
            shutil.copy("/repo/Cargo.lock", copy)
        for i in ids:
            d = os.path.join(V, "seeded", i)
            meta = json.load(open(d + "/meta.json"))
            assert set(meta) >= {"property", "needs", "what_it_breaks"}, i
            env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(tmp, "target"))
            subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=copy)
            demo = os.path.join(tmp, "demo")
            shutil.rmtree(demo, ignore_errors=True)
            shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
            a = sh(["bash", demo + "/demo.sh"], copy)
            p = sh(["git", "apply", d + "/patch.diff"], copy)
            b = sh(["cargo", "build", "--offline", "--workspace", "--all-features", "--all-targets"], copy, env=env)
            t = sh(["cargo", "test", "--offline", "--all-features"], copy, env=env)
            x = sh(["bash", demo + "/demo.sh"], copy)
            good = a.returncode == 0 and p.returncode == 0 and b.returncode == 0 and t.returncode == 0 and x.returncode != 0
            ok &= good
            print(("ok  " if good else "BAD ") + f"{i} [{meta['property']}] clean-demo={a.returncode} apply={p.returncode} build={b.returncode} test={t.returncode} demo={x.returncode}", flush=True)
            if not good:
                for n, r in (("clean demo", a), ("apply", p), ("build", b), ("test", t), ("demo", x)):
                    if (r.returncode != 0) != (n == "demo"):
                        print(f"--- {n}\n{r.stdout[-2500:]}")
    finally:
        shutil.rmtree(tmp)
    return 0 if ok else 1

a = sys.argv[1:]
sys.exit(main(sorted(os.listdir(os.path.join(V, "seeded"))) if a == ["--all"] else a))
