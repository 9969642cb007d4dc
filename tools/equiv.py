"""Quietness run (development only): apply each behaviour-preserving rewrite to a scratch copy; every check must stay quiet.

usage: equiv.py [--seed N] [rewrite ...]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(argv):
    seed = argv[argv.index("--seed") + 1] if "--seed" in argv else "1"
    names = [a for i, a in enumerate(argv) if not a.startswith("--") and (i == 0 or argv[i - 1] != "--seed")]
    claimed = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    base = os.path.join(HERE, "tools", "equiv")
    bad = 0
    for name in names or sorted(n[:-5] for n in os.listdir(base)):
        with tempfile.TemporaryDirectory(prefix="equiv-") as tmp:
            repo = os.path.join(tmp, "repo")
            shutil.copytree("/repo", repo, symlinks=True)
            subprocess.check_call(["git", "-C", repo, "apply", os.path.join(base, name + ".diff")])
            for p in claimed:
                r = subprocess.run(["./check.sh", p], cwd=HERE, capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED=seed, VERIF_TIER="quick"))
                if r.returncode:
                    bad += 1
                    print("\n".join((r.stdout + r.stderr).splitlines()[-4:]))
                print(name, p, "quiet" if r.returncode == 0 else "EXIT %d" % r.returncode, flush=True)
    return bad


sys.exit(1 if main(sys.argv[1:]) else 0)
