"""Runtime-monitoring harness: cases, monitors, verdicts and evidence.

A check module registers cases with @case. Each case drives the real code of /repo and reports what its
monitors observed through a Case object. The runner forks worker processes, gives each case a generator
that depends only on (VERIF_SEED, property, case name, index), and turns the observations into one verdict:

  held          exit 0
  violated      exit 1 and a line VIOLATION property=<id> replay=<path>
  inconclusive  exit 2 (a monitor was never reached, or the environment failed)
"""
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO_SRC = Path(os.environ.get("VF_REPO_SRC", "/repo/src")).resolve()
EVIDENCE_DIR = Path(os.environ.get("VF_EVIDENCE_DIR", VERIF / "evidence"))
REPLAY_DIR = Path(os.environ.get("VF_REPLAY_DIR", VERIF / "replays"))
KNOWN_FILE = VERIF / "known_findings.txt"

CPU_BUDGET_S = 120  # user CPU time of one case, about 50 times the slowest case on the unchanged tree
WALL_LIMIT_S = {"quick": 780, "thorough": 6 * 3600}


class StopCase(Exception):
    """The monitors have seen a violation after which the case cannot go on."""


class Inconclusive(Exception):
    """The environment, not the code under test, kept the case from being decided."""


class CpuBudgetExceeded(BaseException):
    pass


REGISTRY = {}


def case(quick, thorough=None, cpu=CPU_BUDGET_S):
    """Registers func(c) as a case that is run `quick` or `thorough` times with different seeds."""
    def deco(func):
        func.vf_quick, func.vf_thorough, func.vf_cpu = quick, thorough if thorough is not None else quick * 20, cpu
        REGISTRY.setdefault(func.__module__, []).append(func)
        return func
    return deco


class Case:
    def __init__(self, prop, name, index, seed, tier, scratch):
        import numpy as np
        self.prop, self.name, self.index, self.seed, self.tier = prop, name, index, seed, tier
        self.rng = np.random.default_rng([seed, zlib.crc32(f"{prop}/{name}".encode()), index])
        self.scratch = scratch
        self.counts = {}
        self.sigs = set()
        self.violations = []
        self.notes = {}
        self._tmp = 0

    # ---- observations
    def count(self, event, n=1):
        self.counts[event] = self.counts.get(event, 0) + int(n)

    def nontrivial(self, *sig):
        """Marks this execution as non-trivial, identified by the given features."""
        self.sigs.add(repr((self.name,) + sig))

    def note(self, **kw):
        self.notes.update({k: _jsonable(v) for k, v in kw.items()})

    def tmp(self):
        self._tmp += 1
        path = self.scratch / f"d{self._tmp}"
        path.mkdir()
        return path

    # ---- monitors
    def fail(self, key, msg, stop=False):
        if len(self.violations) < 10:
            self.violations.append({"key": key, "msg": str(msg)[:1500]})
        if stop:
            raise StopCase()

    def check(self, cond, key, msg="", stop=False):
        self.count("assertions")
        if not cond:
            self.fail(key, msg() if callable(msg) else msg, stop)
        return bool(cond)

    def same(self, got, want, key, msg="", rtol=1e-7, atol=1e-9, stop=False):
        """Monitors that two arrays have the same shape and the same values (nan equals nan)."""
        import numpy as np
        self.count("assertions")
        try:
            got, want = np.asarray(got), np.asarray(want)
            if got.shape != want.shape:
                self.fail(key, f"{msg}: shape {got.shape} instead of {want.shape}", stop)
                return False
            self.count("values_compared", got.size)
            if got.size == 0:
                return True
            ok = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
            if not np.all(ok):
                where = np.argwhere(~ok)
                i = tuple(int(v) for v in where[0])
                self.fail(key, f"{msg}: {len(where)} of {got.size} values differ, the first at {i}: "
                               f"{got[i]!r} instead of {want[i]!r}", stop)
                return False
        except TypeError as e:
            self.fail(key, f"{msg}: cannot be compared ({e})", stop)
            return False
        return True

    def raises(self, func, key, msg="", exc=Exception):
        self.count("assertions")
        try:
            func()
        except exc:
            return True
        self.fail(key, f"{msg}: was accepted")
        return False


def _jsonable(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        return v.tolist() if v.size <= 24 else f"ndarray{v.shape}"
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, dict):
        return {str(k): _jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set)):
        return [_jsonable(x) for x in v]
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return repr(v)


def _in_repo(tb):
    return any(Path(fr.filename).is_relative_to(REPO_SRC) for fr in traceback.extract_tb(tb))


def _on_cpu_budget(signum, frame):
    raise CpuBudgetExceeded()


def run_one(prop, func, index, seed, tier, scratch_root):
    """Runs one case in this process. Returns a plain dict with what was observed."""
    scratch = Path(tempfile.mkdtemp(prefix="case_", dir=scratch_root))
    name = func.__name__
    c = Case(prop, name, index, seed, tier, scratch)
    problem = None
    cwd = os.getcwd()
    signal.signal(signal.SIGVTALRM, _on_cpu_budget)
    signal.setitimer(signal.ITIMER_VIRTUAL, func.vf_cpu)
    try:
        func(c)
    except StopCase:
        pass
    except CpuBudgetExceeded as e:
        if _in_repo(e.__traceback__):
            c.fail("no-progress", f"no result within {func.vf_cpu} s of CPU time:\n" + traceback.format_exc()[-800:])
        else:
            problem = "case exceeded its CPU budget outside of the code under test"
    except (MemoryError, Inconclusive) as e:
        problem = f"{type(e).__name__}: {e}"
    except OSError as e:
        if e.errno in (28, 12, 24, 11):  # no space, memory, file handles or processes left
            problem = f"{type(e).__name__}: {e}"
        else:
            c.fail(f"unexpected-{type(e).__name__}", traceback.format_exc()[-1400:])
    except Exception as e:
        # Either the code under test raised, or it gave something of another form than specified
        kind = "crash" if _in_repo(e.__traceback__) else "unexpected-result"
        c.fail(f"{kind}-{type(e).__name__}", traceback.format_exc()[-1400:])
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    return {"case": f"{name}:{index}", "counts": c.counts, "sigs": sorted(c.sigs), "violations": c.violations,
            "notes": c.notes, "problem": problem}


def _worker(prop, todo, seed, tier, scratch_root, out_path):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    err = os.open(str(out_path) + ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(err, 2)
    with open(out_path, "a") as f:
        for func, index in todo:
            f.write(json.dumps({"start": f"{func.__name__}:{index}"}) + "\n")
            f.flush()
            res = run_one(prop, func, index, seed, tier, scratch_root)
            f.write(json.dumps(res) + "\n")
            f.flush()


def read_known():
    known = {}
    if KNOWN_FILE.exists():
        for line in KNOWN_FILE.read_text().splitlines():
            if line.startswith("known: "):
                fields = line[len("known: "):].split(" ", 2)
                prop, key = fields[0].removeprefix("property="), fields[1].removeprefix("key=")
                known[(prop, key)] = fields[2] if len(fields) > 2 else ""
    return known


def run_check(prop, module, tier, seed, only=None, procs=None, scale=1.0):
    t0 = time.time()
    funcs = REGISTRY[module.__name__]
    if only is not None:
        name, _, idx = only.partition(":")
        todo = [(f, i) for f in funcs if f.__name__ == name
                for i in ([int(idx)] if idx else range(f.vf_quick if tier == "quick" else f.vf_thorough))]
        if not todo:
            print(f"no such case: {only}")
            return 2
    else:
        todo = []
        for f in funcs:
            n = f.vf_quick if tier == "quick" else f.vf_thorough
            todo += [(f, i) for i in range(max(1, round(n * scale)))]
    if hasattr(module, "warm_up"):
        saved = os.dup(1)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        try:
            module.warm_up()
        except Exception:
            pass  # the same will be seen and judged in the cases
        finally:
            os.dup2(saved, 1)
            os.close(saved)
            os.close(devnull)
    scratch_root = Path(tempfile.mkdtemp(prefix=f"vf_{prop}_"))
    results, problems, died = [], [], []
    try:
        n_proc = max(1, min(procs or min(8, os.cpu_count() or 1), len(todo)))
        pids = {}
        for w in range(n_proc):
            out = scratch_root / f"worker{w}.jsonl"
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    _worker(prop, todo[w::n_proc], seed, tier, scratch_root, out)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    os._exit(code)
            pids[pid] = (w, out)
        deadline = t0 + WALL_LIMIT_S[tier]
        outs = dict(pids)
        while pids:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid in pids:
                w, out = pids.pop(pid)
                if status != 0:
                    died.append((w, status))
            elif time.time() > deadline:
                for p in pids:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                problems.append("watchdog: the workload did not end in time")
                break
            else:
                time.sleep(0.02)
        for w, out in outs.values():
            started = None
            if out.exists():
                for line in out.read_text().splitlines():
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if "start" in d:
                        started = d["start"]
                    else:
                        results.append(d)
                        started = None
            for dw, status in died:
                if dw == w:
                    err = Path(str(out) + ".err")
                    tail = err.read_text()[-500:] if err.exists() else ""
                    if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGFPE, signal.SIGABRT, signal.SIGBUS) and started:
                        results.append({"case": started, "counts": {}, "sigs": [], "notes": {}, "problem": None,
                                        "violations": [{"key": "process-died", "msg": f"signal {os.WTERMSIG(status)} {tail}"}]})
                    else:
                        problems.append(f"a worker ended with status {status} in case {started}: {tail}")
    finally:
        shutil.rmtree(scratch_root, ignore_errors=True)

    counts, sigs, violations = {}, set(), []
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        sigs.update(r["sigs"])
        if r["problem"]:
            problems.append(f"{r['case']}: {r['problem']}")
        for v in r["violations"]:
            violations.append({**v, "case": r["case"], "notes": r["notes"]})
    results.sort(key=lambda r: r["case"])

    known = read_known()
    new, found = [], {}
    for v in violations:
        if (prop, v["key"]) in known:
            found[v["key"]] = found.get(v["key"], 0) + 1
        else:
            new.append(v)
    for key, n in sorted(found.items()):
        print(f"KNOWN-FINDING: property={prop} {key}: {known[(prop, key)]} (seen {n} times)")

    if only is None:
        for event, least in getattr(module, "NEED", {}).items():
            least = 1 if scale < 1 else least
            if counts.get(event, 0) < least and not new:
                problems.append(f"only {counts.get(event, 0)} events '{event}' were observed, at least {least} are needed")
        if len(results) < len(todo) and not problems:
            problems.append(f"{len(todo) - len(results)} cases gave no result")
        sample_src = [r for r in results if r["notes"]]
        step = max(1, len(sample_src) // 4)
        evidence = {
            "property": prop, "tier": tier, "seed": seed, "level": getattr(module, "LEVEL", "exploration"),
            "coverage": {
                "evaluations": len(results),
                "distinct_nontrivial": len(sigs),
                "rule": module.RULE,
                "samples": [{"case": r["case"], **r["notes"]} for r in sample_src[::step][:4]],
                "events_observed": counts,
                "cases": {f.__name__: sum(r["case"].split(":")[0] == f.__name__ for r in results) for f in funcs},
                "known_findings_seen": found,
            },
            "assumptions": getattr(module, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(new),
        }
        if problems:
            evidence["coverage"]["inconclusive"] = problems[:10]
        EVIDENCE_DIR.mkdir(parents=True, exist_ok=True)
        (EVIDENCE_DIR / f"{prop}.json").write_text(json.dumps(evidence, indent=1) + "\n")

    if new:
        REPLAY_DIR.mkdir(parents=True, exist_ok=True)
        seen = set()
        for v in new:
            if v["key"] in seen or len(seen) >= 5:
                continue
            seen.add(v["key"])
            safe = "".join(ch if ch.isalnum() or ch in "-_." else "_" for ch in f"{prop}_{v['case']}_{v['key']}")[:120]
            path = REPLAY_DIR / f"{safe}.json"
            path.write_text(json.dumps({
                "property": prop, "case": v["case"], "seed": seed, "tier": tier, "key": v["key"], "message": v["msg"],
                "notes": v["notes"], "replay_cmd": f"cd /verif && VERIF_SEED={seed} ./run.sh {prop} --tier {tier} --case {v['case']}",
            }, indent=1) + "\n")
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  case {v['case']} [{v['key']}] {v['msg'][-700:]}")
        print(f"{len(new)} violations in {len({v['case'] for v in new})} of {len(results)} cases")
        return 1
    if problems:
        for p in problems[:10]:
            print("INCONCLUSIVE:", p)
        return 2
    print(f"{prop}: held on {len(results)} executions ({len(sigs)} distinct non-trivial), "
          f"{counts.get('assertions', 0)} monitor assertions, {time.time() - t0:.1f} s")
    return 0
