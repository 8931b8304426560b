"""Verify planted bugs given in a spec file and store those that count.

A spec file is Python calling bug(id, property, needs, breaks, edits, demo) with
edits = [(file below src/protosym, old text, new text), ...].
usage: plant.py SPEC [ID...]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
PRELUDE = "import os\nimport sys\n\nsys.path.insert(0, os.path.join(os.getcwd(), \"src\"))\n"
bugs = []


def bug(id, prop, needs, breaks, edits, demo):
    bugs.append((id, prop, needs, breaks, edits, demo))



def run(cmd, cwd, timeout=300, **env):
    return subprocess.run(
        cmd, cwd=cwd, timeout=timeout, capture_output=True, text=True,
        env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", **env},
    )  # fmt: skip


def plant(spec):
    id, prop, needs, breaks, edits, demo = spec
    work = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(work, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        dd = os.path.join(work, "demo")
        os.mkdir(dd)
        with open(os.path.join(dd, "demo.py"), "w") as fh:
            fh.write(PRELUDE + "\n" + demo.strip() + "\n")
        with open(os.path.join(dd, "demo.sh"), "w") as fh:
            fh.write(SH)
        os.chmod(os.path.join(dd, "demo.sh"), 0o755)
        r = run(["bash", os.path.join(dd, "demo.sh")], repo)
        if r.returncode:
            return id, "demo fails on the unchanged tree\n" + r.stderr[-1500:]
        for file, old, new in edits:
            p = os.path.join(repo, "src/protosym", file)
            s = open(p).read()
            if s.count(old) != 1:
                return id, f"{s.count(old)} occurrences of {old!r} in {file}"
            open(p, "w").write(s.replace(old, new))
        diff = run(["git", "diff"], repo).stdout
        # removed lines must be of the original repository
        fixed = run(["git", "log", "--format=%H %s"], repo).stdout.splitlines()
        mine = {line.split()[0] for line in fixed if line.split(None, 1)[1].startswith("fix:")}
        removed = 0
        for file in {e[0] for e in edits}:
            path = "src/protosym/" + file
            blame = run(["git", "blame", "-l", "-s", "HEAD", "--", path], repo).stdout.splitlines()
            hunk = run(["git", "diff", "-U0", path], repo).stdout
            for line in hunk.splitlines():
                if line.startswith("@@"):
                    a = line.split()[1][1:]
                    start, _, count = a.partition(",")
                    for i in range(int(start), int(start) + int(count or 1)):
                        if not int(count or 1):
                            continue
                        if any(m.startswith(blame[i - 1].split()[0].lstrip("^")) for m in mine):
                            return id, f"changes a line of a fix: {path} {i}"
                        removed += 1
        if not removed:
            return id, "changes no original line"
        t = run(
            [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--benchmark-disable", "--xdoctest", "tests", "benchmarks", "src/protosym"],
            repo, 900, PYTHONPATH=os.path.join(repo, "src"),
        )  # fmt: skip
        if t.returncode:
            return id, "tests fail: " + " | ".join(x for x in t.stdout.splitlines() if x.startswith(("FAILED", "ERROR")))[:300]
        try:
            r = run(["bash", os.path.join(dd, "demo.sh")], repo, 60)
        except subprocess.TimeoutExpired:
            return id, "demo times out with the patch"
        if r.returncode == 0:
            return id, "demo passes with the patch"
        out = os.path.join(ROOT, "seeded", id)
        os.makedirs(out, exist_ok=True)
        for f in ("demo.sh", "demo.py"):
            shutil.copy(os.path.join(dd, f), out)
        with open(os.path.join(out, "patch.diff"), "w") as fh:
            fh.write(diff)
        with open(os.path.join(out, "meta.json"), "w") as fh:
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, fh, indent=1)
            fh.write("\n")
        return id, "kept: " + (r.stderr.strip().splitlines() or ["(no message)"])[-1][:150]
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
    todo = [b for b in bugs if not sys.argv[2:] or b[0] in sys.argv[2:]]
    with ThreadPoolExecutor(6) as pool:
        for id, result in pool.map(plant, todo):
            print(f"{id}: {result}", flush=True)
