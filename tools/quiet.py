"""Are the checks quiet on edits that keep the behaviour: quiet.py [-p PROP,..] [NAME...] (all by default)."""
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
props = [f"C{n:02}" for n in range(1, 60) if os.path.exists(os.path.join(ROOT, f"mc/checks/c{n:02}.py"))]
if args[:1] == ["-p"]:
    props, args = args[1].split(","), args[2:]
names = args or sorted(n[:-5] for n in os.listdir(os.path.join(ROOT, "refactor")) if n.endswith(".diff"))
for name in names:
    work = tempfile.mkdtemp(prefix="quiet-")
    try:
        repo = os.path.join(work, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        subprocess.run(["git", "apply", os.path.join(ROOT, "refactor", name + ".diff")], cwd=repo, check=True)
        for prop in props:
            t = time.time()
            r = subprocess.run(["./check", prop, "quick"], cwd=ROOT, capture_output=True, text=True, env={**os.environ, "MC_REPO": repo, "MC_QUIET": "1"})
            print(name, prop, "quiet" if r.returncode == 0 else "ALARM\n" + r.stdout[:3000], f"{time.time() - t:.0f}s", flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
