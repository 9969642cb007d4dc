"""Sensitivity run (development only; no check uses it): apply each planted bug to a scratch copy and run checks on it.

usage: seeded.py [--all] [--seed N] [bug ...]      --all runs every check on every bug, not only the property's own
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(argv):
    every = "--all" in argv
    seed = argv[argv.index("--seed") + 1] if "--seed" in argv else "1"
    names = [a for i, a in enumerate(argv) if not a.startswith("--") and (i == 0 or argv[i - 1] != "--seed")]
    claimed = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    base = os.path.join(HERE, "seeded")
    for name in names or sorted(os.listdir(base)):
        own = json.load(open(os.path.join(base, name, "meta.json")))["property"]
        with tempfile.TemporaryDirectory(prefix="seeded-") as tmp:
            repo = os.path.join(tmp, "repo")
            shutil.copytree("/repo", repo, symlinks=True)
            subprocess.check_call(["git", "-C", repo, "apply", os.path.join(base, name, "patch.diff")])
            out = []
            for p in claimed if every else [own]:
                t = time.time()
                r = subprocess.run(["./check.sh", p], cwd=HERE, capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED=seed, VERIF_TIER="quick"))
                hit = r.returncode == 1 and ("VIOLATION property=%s " % p) in r.stdout
                out.append("%s%s:%s(%.0fs)" % ("*" if p == own else "", p, "caught" if hit else "exit%d" % r.returncode, time.time() - t))
                if p == own and not hit:
                    print("\n".join((r.stdout + r.stderr).splitlines()[-6:]))
            print(name, " ".join(out), flush=True)


main(sys.argv[1:])
