"""Runner shared by all checks.

A check module provides

    LEVEL        evidence level
    prepare(tier)            optional: build shared tables before forking
    cases(tier)              deterministic iterable of JSON-able cases
    check_case(case, rec)    explore one case on the real code; raise Violation

Cases are dealt round robin to forked worker processes.  A case that raises
anything, kills its worker, or does not finish, is a violation: on a tree where
the property holds none of these happen.
"""

from __future__ import annotations

import faulthandler
import importlib
import importlib.machinery
import json
import mmap
import os
import resource
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
SRC = os.path.join(REPO, "src")

CASE_LIMIT = 300  # seconds of wall time for one case before it counts as a hang
TIER_LIMIT = {"quick": 780, "thorough": 6 * 3600}
MEM_LIMIT = 4 << 30


class Violation(Exception):
    """The property does not hold for a case."""

    def __init__(self, message, signature=None, **detail):
        super().__init__(message)
        self.message = message
        self.signature = signature
        self.detail = detail


class Hang(BaseException):
    """A case did not finish in time."""


class Rec:
    """Counts what a worker covered."""

    MAX_SAMPLES = 6
    MAX_OUTCOMES = 200_000

    def __init__(self):
        self.counts = {}
        self.maxima = {}
        self.samples = []
        self.outcomes = set()
        self.notes = set()
        self.known = []
        self.known_signatures = set()

    def add(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def maximum(self, name, n):
        if n > self.maxima.get(name, -1):
            self.maxima[name] = n

    def sample(self, obj):
        if len(self.samples) < self.MAX_SAMPLES:
            self.samples.append(obj)

    def outcome(self, obj):
        """Record a distinct observed outcome (to show that cases differ)."""
        if len(self.outcomes) < self.MAX_OUTCOMES:
            self.outcomes.add(hash(repr(obj)) & 0xFFFFFFFFFFFF)

    def note(self, text):
        self.notes.add(text)

    def fail(self, message, signature=None, **detail):
        """Raise, unless the signature is a listed known finding."""
        if signature is not None and signature in self.known_signatures:
            if signature not in self.known:
                self.known.append(signature)
            return
        raise Violation(message, signature=signature, **detail)


def forked(fn, rec):
    """Run fn(rec) in a forked child, so that what it leaves behind is freed."""
    reader, writer = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(reader)
            child = Rec()
            child.known_signatures = rec.known_signatures
            bad = None
            try:
                fn(child)
            except Violation as v:
                bad = [v.message, v.signature, {k: _jsonable(x) for k, x in v.detail.items()}]
            except Hang:
                bad = ["did not finish in time", None, {}]
            except BaseException as e:  # noqa
                bad = [f"unexpected {type(e).__name__}: {str(e)[:300]}", None, {"traceback": traceback.format_exc()[-3000:]}]
            signal.setitimer(signal.ITIMER_REAL, 0)
            data = json.dumps(
                [child.counts, child.maxima, [_jsonable(x) for x in child.samples], sorted(child.outcomes), sorted(child.notes), child.known, bad]
            ).encode()
            with os.fdopen(writer, "wb") as fh:
                fh.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(writer)
    try:
        with os.fdopen(reader, "rb") as fh:
            data = fh.read()
    except Hang:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        status = os.waitpid(pid, 0)[1]
    if status or not data:
        what = f"killed by signal {os.WTERMSIG(status)}" if os.WIFSIGNALED(status) else f"exited with {os.WEXITSTATUS(status)}"
        raise Violation(f"the process was {what}")
    counts, maxima, samples, outcomes, notes, known, bad = json.loads(data)
    for k, v in counts.items():
        rec.add(k, v)
    for k, v in maxima.items():
        rec.maximum(k, v)
    for s in samples:
        rec.sample(s)
    rec.outcomes.update(outcomes)
    rec.notes.update(notes)
    rec.known.extend(k for k in known if k not in rec.known)
    if bad is not None:
        raise Violation(bad[0], signature=bad[1], **bad[2])


_compiled = {}


class _SourceOnly(importlib.machinery.SourceFileLoader):
    """Loader that compiles the source as it is now, ignoring any bytecode."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        data = self.get_data(path)
        if (path, data) not in _compiled:
            _compiled[path, data] = self.source_to_code(data, path)
        return _compiled[path, data]


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.partition(".")[0] != "protosym":
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = _SourceOnly(name, spec.loader.path)
        return spec


def setup_import_path():
    """Import protosym from the sources in /repo/src only."""
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != SRC]
    sys.path.insert(0, SRC)
    sys.meta_path.insert(0, _Finder)


def assert_origin():
    import protosym

    where = os.path.realpath(protosym.__file__)
    if not where.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError(f"protosym imported from {where}, not {SRC}")


def known_findings(prop):
    """Signatures listed as recorded (not repaired) defects of a property."""
    found = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("finding:"):
                    parts = line.split(None, 3)
                    if parts[1] == f"property={prop}":
                        found[parts[2].removeprefix("signature=")] = parts[3]
    return found


def _jsonable(obj):
    try:
        json.dumps(obj)
        return obj
    except (TypeError, ValueError):
        return repr(obj)[:4000]


def _worker(mod, tier, shard, nshards, progress, outfile, known):
    rec = Rec()
    rec.known_signatures = set(known)
    result = {"violations": [], "finished": False}
    limit = getattr(mod, "CASE_LIMIT", CASE_LIMIT)

    def on_alarm(signum, frame):
        raise Hang()

    signal.signal(signal.SIGALRM, on_alarm)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    stop_after = getattr(mod, "STOP_AFTER", 1)
    for index, case in enumerate(mod.cases(tier)):
        if index % nshards != shard:
            continue
        progress[8 * shard : 8 * shard + 8] = struct.pack("<q", index)
        signal.setitimer(signal.ITIMER_REAL, limit)
        bad = None
        try:
            try:
                mod.check_case(case, rec)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Hang:
            bad = {"message": f"did not finish within {limit} s", "detail": {}}
        except Violation as v:
            bad = {
                "message": v.message,
                "signature": v.signature,
                "detail": {k: _jsonable(x) for k, x in v.detail.items()},
            }
        except BaseException as e:  # noqa - anything the code raises is a finding
            if isinstance(e, KeyboardInterrupt) and not getattr(mod, "INTERRUPTS", False):
                raise
            sys.setrecursionlimit(10000)
            bad = {
                "message": f"unexpected {type(e).__name__}: {str(e)[:300]}",
                "detail": {"traceback": traceback.format_exc()[-3000:]},
            }
        if bad is not None:
            bad.update(index=index, case=_jsonable(bad["detail"].pop("case", case)))
            result["violations"].append(bad)
            if len(result["violations"]) >= stop_after:
                break
        rec.add("cases")
    else:
        result["finished"] = True
    result.update(
        counts=rec.counts,
        maxima=rec.maxima,
        samples=[_jsonable(s) for s in rec.samples],
        outcomes=sorted(rec.outcomes),
        notes=sorted(rec.notes),
        known=rec.known,
    )
    with open(outfile + ".tmp", "w") as fh:
        json.dump(result, fh)
    os.rename(outfile + ".tmp", outfile)


def _case_at(mod, tier, index):
    for i, case in enumerate(mod.cases(tier)):
        if i == index:
            return _jsonable(case)
    return None


def run(prop, tier, seed, nshards=None):
    t0 = time.time()
    setup_import_path()
    mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    nshards = nshards or min(8, os.cpu_count() or 1)
    if hasattr(mod, "SHARDS"):
        nshards = min(nshards, mod.SHARDS)
    known = known_findings(prop)
    violations = []
    counts, maxima, samples, outcomes, notes, known_hit = {}, {}, [], set(), set(), []
    finished = True

    import_error = None
    try:
        import protosym  # noqa

        assert_origin()
        if hasattr(mod, "prepare"):
            mod.prepare(tier)
    except Violation as v:
        import_error = v.message
    except RuntimeError:
        raise
    except Exception:
        import_error = traceback.format_exc()[-3000:]
    if import_error is not None:
        violations.append({"index": -1, "case": None, "message": "set-up failed", "detail": {"error": import_error}})
    else:
        tmp = tempfile.mkdtemp(prefix=f"mc-{prop}-")
        try:
            progress = mmap.mmap(-1, 8 * nshards)
            for i in range(nshards):
                progress[8 * i : 8 * i + 8] = struct.pack("<q", -1)
            pids = {}
            sys.stdout.flush()
            sys.stderr.flush()
            for shard in range(nshards):
                pid = os.fork()
                if pid == 0:
                    code = 3
                    try:
                        log = os.open(os.path.join(tmp, f"log{shard}"), os.O_WRONLY | os.O_CREAT)
                        os.dup2(log, 1)
                        os.dup2(log, 2)
                        faulthandler.enable()
                        _worker(mod, tier, shard, nshards, progress, os.path.join(tmp, f"res{shard}"), known)
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        try:
                            sys.stdout.flush()
                            sys.stderr.flush()
                        except BaseException:
                            pass
                        os._exit(code)
                pids[pid] = shard
            limit = getattr(mod, "CASE_LIMIT", CASE_LIMIT)
            last = {s: (-2, time.time()) for s in range(nshards)}
            killed = {}
            deadline = t0 + TIER_LIMIT[tier]
            while pids:
                pid, status = os.waitpid(-1, os.WNOHANG)
                now = time.time()
                if pid == 0:
                    for p, s in list(pids.items()):
                        idx = struct.unpack("<q", progress[8 * s : 8 * s + 8])[0]
                        if idx != last[s][0]:
                            last[s] = (idx, now)
                        elif now - last[s][1] > limit * 1.5 + 30 and p not in killed:
                            killed[p] = "hang"
                            os.kill(p, signal.SIGKILL)
                        if now > deadline and p not in killed:
                            killed[p] = "cap"
                            os.kill(p, signal.SIGKILL)
                    time.sleep(0.02)
                    continue
                shard = pids.pop(pid)
                res = os.path.join(tmp, f"res{shard}")
                if os.path.exists(res):
                    with open(res) as fh:
                        r = json.load(fh)
                    violations.extend(r["violations"])
                    finished = finished and r["finished"]
                    for k, v in r["counts"].items():
                        counts[k] = counts.get(k, 0) + v
                    for k, v in r["maxima"].items():
                        maxima[k] = max(maxima.get(k, v), v)
                    samples.extend(r["samples"])
                    outcomes.update(r["outcomes"])
                    notes.update(r["notes"])
                    known_hit.extend(k for k in r["known"] if k not in known_hit)
                    continue
                finished = False
                index = struct.unpack("<q", progress[8 * shard : 8 * shard + 8])[0]
                with open(os.path.join(tmp, f"log{shard}"), errors="replace") as fh:
                    log = fh.read()[-3000:]
                if killed.get(pid) == "cap":
                    notes.add(f"time limit of {TIER_LIMIT[tier]} s reached in a worker at case {index}")
                    continue
                if killed.get(pid) == "hang":
                    message = "did not finish"
                elif os.WIFSIGNALED(status):
                    message = f"worker killed by signal {os.WTERMSIG(status)}"
                else:
                    message = f"worker exited with {os.WEXITSTATUS(status)}"
                violations.append(
                    {"index": index, "case": _case_at(mod, tier, index), "message": message, "detail": {"log": log}}
                )
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    violations.sort(key=lambda v: v["index"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    outdir = os.path.join(VERIF, "out")
    os.makedirs(outdir, exist_ok=True)
    coverage = {"exhaustive": bool(finished and not violations)}
    coverage.update(counts)
    coverage.update({f"max_{k}": v for k, v in maxima.items()})
    coverage["distinct_outcomes"] = len(outcomes)
    coverage["rule"] = getattr(mod, "RULE", "")
    coverage["bounds"] = mod.bounds(tier) if hasattr(mod, "bounds") else ""
    coverage["samples"] = samples[:: max(1, len(samples) // 8)][:8]
    if notes:
        coverage["notes"] = sorted(notes)
    for key in {
        "model_checking": ["states", "transitions", "traces_validated_against_impl"],
        "fault_enumeration": ["evaluations", "distinct_nontrivial"],
        "exploration": ["evaluations", "distinct_nontrivial"],
    }.get(mod.LEVEL, []):
        coverage.setdefault(key, 0)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(violations),
    }
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    with open(f"{path}.{os.getpid()}.tmp", "w") as fh:
        json.dump(evidence, fh, indent=1, sort_keys=True)
    os.rename(f"{path}.{os.getpid()}.tmp", path)

    for sig in known_hit:
        print(f"KNOWN-FINDING: property={prop} {known.get(sig, sig)}")
    for n, v in enumerate(violations[:3]):
        replay = os.path.join(outdir, f"{prop}-{n}.json")
        with open(replay, "w") as fh:
            json.dump({"property": prop, "tier": tier, **v}, fh, indent=1)
        print(f"{v['message']}: case {json.dumps(v['case'])[:600]}")
        for k, d in v.get("detail", {}).items():
            print(f"  {k}: {str(d)[-1200:]}")
        print(f"  (replay with: {VERIF}/replay {replay})")
        print(f"VIOLATION property={prop} replay={replay}")
    keys = ("cases", "states", "transitions", "traces_validated_against_impl", "evaluations", "schedules")
    summary = " ".join(f"{k}={counts[k]}" for k in keys if k in counts)
    verdict = "VIOLATED" if violations else "held on everything explored" + ("" if finished else " (capped)")
    print(f"{prop} {tier}: {verdict}; {summary} outcomes={len(outcomes)} wall={evidence['wall_s']}s")
    return 1 if violations else 0


def replay(path):
    """Re-run one recorded case in this process, without the explorer."""
    setup_import_path()
    with open(path) as fh:
        v = json.load(fh)
    mod = importlib.import_module(f"mc.checks.{v['property'].lower()}")
    if hasattr(mod, "prepare"):
        mod.prepare(v["tier"])
    rec = Rec()
    try:
        fn = getattr(mod, "replay_case", mod.check_case)
        fn(v["case"], rec)
    except Violation as e:
        print("reproduced:", e.message)
        for k, d in e.detail.items():
            print(f"  {k}: {d}")
        return 1
    print("not reproduced")
    return 0


def main(argv):
    cmd = argv[0]
    if cmd == "replay":
        return replay(argv[1])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return run(cmd, tier, seed)
