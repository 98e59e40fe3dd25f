#!/usr/bin/env python3
"""tools/seedtest.py ID... : judge planted changes. For each: demo on the clean tree, apply, build, stable tests, demo,
every registered check (or only the check of its property with --own), then restore /repo."""
import json, os, pathlib, subprocess, sys, tempfile, time
V = pathlib.Path(__file__).resolve().parent.parent
REPO = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def main():
    own = "--own" in sys.argv
    notest = "--notest" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(p.name for p in (V / "seeded").iterdir())
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    man = json.load(open(V / "MANIFEST.json"))
    assert not sh(["git", "-C", REPO, "status", "--porcelain"]).stdout.strip(), "repo not clean"
    for i in ids:
        d = V / "seeded" / i
        meta = json.load(open(d / "meta.json"))
        out = [i, meta["property"]]
        r0 = sh(["bash", str(d / "demo.sh")], cwd=REPO, timeout=300)
        out.append(f"demo-clean={r0.returncode}")
        a = sh(["git", "-C", REPO, "apply", str(d / "patch.diff")])
        if a.returncode:
            print(i, "patch does not apply:", a.stdout)
            continue
        try:
            r1 = sh(["bash", str(d / "demo.sh")], cwd=REPO, timeout=300)
            out.append(f"demo-patched={r1.returncode}")
            if not notest:
                with tempfile.TemporaryDirectory() as t:
                    o = sh(["bash", "/opt/vp/test.sh", f"{t}/o.json"])
                    res = json.load(open(f"{t}/o.json"))
                    lost = base - set(res["passed"])
                    out.append(f"tests-lost={len(lost)}" + (f" e.g. {sorted(lost)[:2]}" if lost else ""))
            for c in man["checks"]:
                if own and c["property"] != meta["property"]:
                    continue
                t0 = time.time()
                e = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "11"), VERIF_TIER="quick")
                k = sh(c["quick_cmd"].split(), cwd=V, env=e)
                if k.returncode != 0 or c["property"] == meta["property"]:
                    v = [l for l in k.stdout.splitlines() if "VIOLATION" in l]
                    out.append(f"{c['property']}:{k.returncode}({len(v)} viol, {time.time() - t0:.0f}s)")
        finally:
            sh(["git", "-C", REPO, "checkout", "--", "."])
        print(" ".join(out), flush=True)


main()
