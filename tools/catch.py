"""Which planted bugs are caught: catch.py [-t TIER] [ID...] (all by default)."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def catch(job):
    id, tier, props = job
    d = os.path.join(ROOT, "seeded", id)
    work = tempfile.mkdtemp(prefix="catch-")
    try:
        repo = os.path.join(work, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo, check=True)
        res = []
        for prop in props or [json.load(open(os.path.join(d, "meta.json")))["property"]]:
            t = time.time()
            r = subprocess.run(
                ["./check", prop, tier], cwd=ROOT, capture_output=True, text=True, env={**os.environ, "MC_REPO": repo, "MC_QUIET": "1"}
            )
            bad = r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout
            first = re.sub(r"\s+", " ", (r.stdout.splitlines() or [""])[0])[:140]
            res.append(f"{prop} {'caught' if bad else 'MISSED' if r.returncode == 0 else 'ERROR'} {time.time() - t:.0f}s {first if bad or r.returncode else ''}")
        return id, "; ".join(res)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    tier, props = "quick", None
    if args[:1] == ["-t"]:
        tier, args = args[1], args[2:]
    if args[:1] == ["-p"]:
        props, args = args[1].split(","), args[2:]
    ids = args or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    with ThreadPoolExecutor(3) as pool:
        for id, result in pool.map(catch, [(i, tier, props) for i in ids]):
            print(f"{id}: {result}", flush=True)
