"""C24: an interrupted or concurrent session save never corrupts later simulations."""
import builtins
import copy
import errno
import hashlib
import io
import multiprocessing as mp
import os
import pickle
import shutil
import signal
import sys
import threading
import time
import traceback

import numpy as np

from vf.core import case, Inconclusive
from vf.simlib import *  # noqa: F403
from vf.checks.c15 import Plan, digest, run

LEVEL = "fault_enumeration"
RULE = ("A process that creates a simulator with a session folder is ended (os._exit, or an error or interrupt raised) at every file-system event in that folder which the "
        "interpreter's audit hook reports and in the middle of every write to a file in it; other processes are killed at random times, or save at the same time with "
        "delays injected at the file-system events. Monitored: bytes of the sessions that were there, success and signals of later simulations, that "
        "nothing but a whole session is loaded, that the next simulation finds a session, and that each survivor's session is whole and found exactly once. "
        "Non-trivial: distinct event, history and outcome of an interrupted save, and distinct orders of events of concurrent saves.")
ASSUMPTIONS = ["a crash is the end of the process: what it handed to the kernel survives (no loss of power)", "folder renames are atomic (POSIX, local file system)"]
NEED = {"crashes": 200, "crashes_at_event": 60, "crashes_in_write": 60, "errors_raised": 40, "later_simulations": 300, "loaded_after_crash": 8, "generated_after_crash": 60,
        "sessions_watched": 100, "signals_compared": 500, "concurrent_saves": 40, "killed_at_random": 12, "whole_sessions_loaded": 30, "events_logged": 300}
EVENTS = {"open", "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.listdir", "os.scandir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.utime",
          "shutil.copyfile", "shutil.move", "shutil.rmtree", "shutil.copytree", "tempfile.mkdtemp", "tempfile.mkstemp"}


def warm_up():
    warm_up_sim()


class Injector:
    """Sees each file-system event inside of a folder and each write to a file in it, in this process from now on."""

    def __init__(self, folder, on_point):
        self.folder, self.on_point, self.active, self.busy = str(folder), on_point, True, False
        self.own_open = builtins.open
        sys.addaudithook(self.hook)
        builtins.open = io.open = self.open

    def inside(self, arg):
        try:
            return os.fspath(arg).startswith(self.folder) if not isinstance(arg, (bytes, int)) else os.fsdecode(arg).startswith(self.folder) if isinstance(arg, bytes) else False
        except TypeError:
            return False

    def hook(self, event, args):
        if self.active and not self.busy and event in EVENTS and any(self.inside(a) for a in args):
            self.point(event, None)

    def point(self, what, partial):
        self.busy = True
        try:
            self.on_point(what, partial)
        finally:
            self.busy = False

    def open(self, file, mode="r", *a, **kw):
        f = self.own_open(file, mode, *a, **kw)
        if self.active and self.inside(file) and any(ch in mode for ch in "wxa+"):
            return Writer(f, self)
        return f


class Writer:
    """A file whose writes can be cut in the middle."""

    def __init__(self, f, injector):
        self.f, self.injector = f, injector

    def write(self, data):
        def partial():
            self.f.write(data[:len(data) // 2])
            self.f.flush()
        if self.injector.active:
            self.injector.point("write", partial)
        n = self.f.write(data)
        self.f.flush()
        return n

    def __enter__(self):
        self.f.__enter__()
        return self

    def __exit__(self, *a):
        return self.f.__exit__(*a)

    def __iter__(self):
        return iter(self.f)

    def __getattr__(self, name):
        return getattr(self.f, name)


def in_child(work, wall=150.0):
    """Runs work() in a fork. Returns the way it ended: an exit status, or minus a signal number."""
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_VIRTUAL, 60)
            code = work() or 0
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
        finally:
            os._exit(code)
    deadline = time.time() + wall
    while True:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            return os.waitstatus_to_exitcode(status)
        if time.time() > deadline:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            raise Inconclusive("a child process did not end in time")
        time.sleep(0.001)


def new_plan(rng):
    """A setup which is quick to simulate, more often than not with random paths, which tell sessions apart."""
    plan = Plan(rng)
    for a in plan.arrays.values():
        a["moves"] = None
    if rng.random() < 0.6:
        plan.types["s1", "m0"] = "random"
    return plan


def create(plan, folder, seed):
    np.random.seed(seed)
    return plan.build(folder).create_simulator()


def paths_of(plan, sim):
    return {p: np.array(sim.arrays.paths[p[0]][p[1]]) for p in plan.pairs()}


def same_paths(a, b):
    return set(a) == set(b) and all(a[p].shape == b[p].shape and np.array_equal(a[p], b[p]) for p in a)


def expected_paths(c, plan, paths, what):
    """The paths that do not depend on chance are those of a simulator without sessions; the others are finite."""
    clean = plan.build().create_simulator()
    for s, m in plan.pairs():
        want = np.array(clean.arrays.paths[s][m])
        if plan.type_of(s, m) == "random":
            c.check(paths[s, m].shape == want.shape and np.all(np.isfinite(paths[s, m])) and np.any(paths[s, m] != 0), "wrong-path", f"{s}->{m} {what}")
        else:
            c.same(paths[s, m], want, "wrong-path", f"{s}->{m} {plan.type_of(s, m)} {what}", rtol=1e-9, atol=1e-12)


def judge_signals(c, plan, sim, paths, what):
    clean = copy.deepcopy(plan)
    for p, h in paths.items():
        clean.paths[p] = h
    got, want = run(sim), run(clean.build().create_simulator())
    for k in want:
        c.same(got[k], want[k], "wrong-signals", f"{k} {what}", rtol=1e-9, atol=1e-10)
        c.count("signals_compared")


class Folder:
    """The session folder together with what a finished save of a setup leaves."""

    def __init__(self, c, path):
        self.c, self.path, self.refs = c, path, {}

    def reference(self, plan):
        """The files of a finished save of this setup, apart from its paths."""
        key = plan.key() + repr(sorted(plan.cfg.items()))
        if key not in self.refs:
            other = self.c.tmp()
            sim = create(plan, other, 1)
            found = [d for d in other.iterdir() if d.is_dir()]
            if len(found) != 1:
                self.c.fail("no-session-saved", f"{[d.name for d in other.iterdir()]} in an empty folder after creating a simulator", stop=True)
            self.refs[key] = {f.name: f.read_bytes() for f in found[0].iterdir()}, paths_of(plan, sim)
            shutil.rmtree(other)
        return self.refs[key]

    def whole(self, plan):
        """The sessions for this setup that have everything a finished save leaves: name -> paths."""
        ref, ref_paths = self.reference(plan)
        out = {}
        for d in sorted(self.path.iterdir()):
            if not d.is_dir() or not set(ref) <= {f.name for f in d.iterdir()}:
                continue
            if any((d / f).read_bytes() != v for f, v in ref.items() if f.endswith((".yaml", ".json"))):
                continue
            try:
                setup = SimulatorSetup()
                setup.load_from_path(d)
                paths = {p: np.array(setup.arrays.paths[p[0]][p[1]]) for p in plan.pairs()}
                at_home = all(np.array_equal(setup.arrays[n].pos, a["pos"]) for n, a in plan.arrays.items())
            except Exception:
                continue
            if at_home and {p: h.shape for p, h in paths.items()} == {p: h.shape for p, h in ref_paths.items()} and \
                    all(np.array_equal(h, ref_paths[p]) for p, h in paths.items() if plan.type_of(*p) != "random"):
                out[d.name] = paths
        return out


def later(c, folder, plan, seed, before, what, must_load=False, leftover=()):
    """A simulation after everything that happened. before: the bytes of the sessions that must not change.
    leftover: what interrupted saves left, which may be used if it is whole, or not."""
    whole_before = folder.whole(plan)
    try:
        sim = create(plan, folder.path if seed % 2 else str(folder.path), seed)
    except Exception as e:
        if isinstance(e, OSError) and e.errno in (28, 12, 24, 11):
            raise
        c.fail("later-simulation-fails", f"{what}: {traceback.format_exc()[-900:]}", stop=True)
    c.count("later_simulations")
    paths = paths_of(plan, sim)
    whole_after = folder.whole(plan)
    new = set(whole_after) - set(whole_before)
    c.check(set(whole_before) - set(leftover) <= set(whole_after), "session-lost", f"{what}: {sorted(whole_before)} became {sorted(whole_after)}")
    if new:
        c.check(len(new) == 1, "several-sessions-saved", f"{what}: {sorted(new)}")
        c.check(not must_load and not set(whole_before) - set(leftover), "session-not-used", f"{what}: there was {sorted(whole_before)}, but {sorted(new)} was saved")
        c.check(any(same_paths(paths, whole_after[n]) for n in new), "other-paths-saved", f"{what}: {sorted(new)}")
    else:
        c.check(len(whole_before) > 0, "partial-session-loaded", f"{what}: nothing was saved and there is no whole session among {sorted(d.name for d in folder.path.iterdir())}")
        c.check(not whole_before or any(same_paths(paths, v) for v in whole_before.values()), "not-the-saved-paths", f"{what}: {sorted(whole_before)}")
    expected_paths(c, plan, paths, what)
    judge_signals(c, plan, sim, paths, what)
    after = digest(folder.path)
    for f, h in before.items():
        c.check(after.get(f) == h, "session-changed", f"{what}: {f} was {'changed' if f in after else 'removed'}")
    c.count("sessions_watched", len({f.split("/")[0] for f in before}))
    return bool(new), paths


def interrupted_creation(plan, folder, seed, at, mode):
    """Work for a child: creates a simulator and is stopped at the given point. Writes what happened to stdout of the case."""
    def work():
        seen = [0]

        def on_point(what, partial):
            seen[0] += 1
            if seen[0] - 1 != at:
                return
            if partial is not None:
                partial()
            if mode == "exit":
                os._exit(77)
            injector.active = False
            raise OSError(errno.ENOSPC, "No space left on device") if mode == "nospace" else KeyboardInterrupt()
        injector = Injector(folder, on_point)
        try:
            create(plan, folder, seed)
        except BaseException:  # noqa: BLE001
            if seen[0] > at:
                return 78
            raise
        return 79 if seen[0] > at else 0
    return work


def all_points(c, plan, folder, seed):
    """The points at which this creation could be interrupted, seen by running it to its end in a copy of the folder."""
    copy_ = c.tmp() / "copy"
    shutil.copytree(folder, copy_)
    out = c.tmp() / "points"

    def work():
        points = []
        Injector(copy_, lambda what, partial: points.append(what))
        create(plan, copy_, seed)
        with open(out, "w") as f:
            f.write("\n".join(points))
    code = in_child(work)
    shutil.rmtree(copy_)
    if code == -signal.SIGVTALRM:
        c.fail("no-progress", "saving a session does not end", stop=True)
    c.check(code == 0, "saving-fails", f"a process that creates a simulator ended with {code}", stop=True)
    return out.read_text().split("\n")


@case(quick=32, thorough=500, cpu=300)
def crash_points(c):
    rng = c.rng
    plan, others = new_plan(rng), [new_plan(rng) for _ in range(int(rng.integers(0, 3)))]
    if rng.random() < 0.3:  # a setup that differs in a single value
        near = copy.deepcopy(plan)
        near.affecting(rng)
        if near.valid() and near.key() != plan.key() and not near.moving():
            others.append(near)
    template = c.tmp()
    for k, o in enumerate(others):
        create(o, template, k)
    has_match = c.index % 4 == 3
    if has_match:
        create(plan, template, 17)
    points = all_points(c, plan, template, 18)
    modes = ["exit", "exit", "nospace", "interrupt"]
    chosen = list(range(len(points)))
    if c.tier == "quick":
        events = [i for i in chosen if points[i] != "write"]
        writes = [i for i in chosen if points[i] == "write"]
        chosen = events + ([int(i) for i in rng.choice(writes, size=min(len(writes), 5), replace=False)] if writes else [])
        if len(chosen) > 18:
            chosen = [int(i) for i in rng.choice(chosen, size=18, replace=False)]
    before = digest(template)
    for at in chosen:
        path = c.tmp() / "sessions"
        shutil.copytree(template, path)
        folder = Folder(c, path)
        mode = modes[int(rng.integers(len(modes)))]
        what = f"after {mode} at point {at} ({points[at]}) of {len(points)} with {len(others)} other sessions{' and one that matches' if has_match else ''}"
        code = in_child(interrupted_creation(plan, path, int(rng.integers(1000)), at, mode))
        if code == -signal.SIGVTALRM:
            c.fail("no-progress", what, stop=True)
        c.check(code in (0, 77, 78, 79), "process-fails-otherwise", f"{what}: ended with {code}")
        if code == 0:  # this time it had fewer points
            continue
        c.count("crashes")
        c.count("crashes_in_write" if points[at] == "write" else "crashes_at_event")
        c.count("errors_raised", mode != "exit")
        if rng.random() < 0.3:  # the next process is interrupted as well
            again = all_points(c, plan, path, 3)
            second = int(rng.integers(len(again)))
            in_child(interrupted_creation(plan, path, int(rng.integers(1000)), second, "exit"))
            what += f" and exit at point {second} ({again[second]})"
            c.count("crashes")
        now = digest(path)
        for f, h in before.items():
            c.check(now.get(f) == h, "session-changed", f"{what}: {f} was {'changed' if f in now else 'removed'}")
        leftover = {d.name for d in path.iterdir()} - {d.name for d in template.iterdir()}
        saved, _ = later(c, folder, plan, int(rng.integers(1000, 2000)), before, what, must_load=has_match, leftover=leftover)
        c.count("generated_after_crash" if saved else "loaded_after_crash")
        now = {f: h for f, h in digest(path).items() if f.split("/")[0] not in leftover}
        saved, _ = later(c, folder, plan, int(rng.integers(2000, 3000)), now, "second simulation " + what, must_load=True, leftover=leftover)
        c.check(not saved, "session-not-used", f"second simulation {what}")
        if others and rng.random() < 0.4:
            o = others[int(rng.integers(len(others)))]
            later(c, folder, o, int(rng.integers(3000, 4000)), before, "simulation of an earlier setup " + what, must_load=True)
            c.count("earlier_setups_simulated")
        c.nontrivial("crash", points[at], mode, len(others), has_match, saved)
        shutil.rmtree(path)
    c.note(points=len(points), judged=len(chosen), events=sorted(set(points)), other_sessions=len(others), matching_session=has_match)


@case(quick=24, thorough=300, cpu=300)
def random_kills(c):
    """A process that saves one session after another is killed at any time."""
    rng = c.rng
    plans = [new_plan(rng)]
    for _ in range(6):
        nxt = copy.deepcopy(plans[-1])
        nxt.cfg["extra_delay"] += 1
        nxt.cfg["samplerate"] += 10
        plans.append(nxt)
    path = c.tmp()
    folder = Folder(c, path)
    t0 = time.perf_counter()
    create(plans[0], path, 1)
    took = time.perf_counter() - t0
    before = digest(path)
    sync_r, sync_w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(sync_r)
            os.write(sync_w, b"x")
            for k, p in enumerate(plans[1:]):
                create(p, path, k)
        finally:
            os._exit(0)
    os.close(sync_w)
    os.read(sync_r, 1)
    os.close(sync_r)
    time.sleep(float(rng.uniform(0.1, 3)) * took)
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    c.count("killed_at_random")
    now = digest(path)
    for f, h in before.items():
        c.check(now.get(f) == h, "session-changed", f"{f} by a process that was killed")
    done = sum(len(folder.whole(p)) > 0 for p in plans)
    for k in [int(v) for v in rng.permutation(len(plans))]:
        later(c, folder, plans[k], 100 + k, before, f"setup {k} after a kill with {done} of {len(plans)} saved", must_load=k == 0,
              leftover={d.name for d in path.iterdir()})
    for k in range(len(plans)):
        later(c, folder, plans[k], 200 + k, before, f"setup {k} again", must_load=True)
    c.nontrivial("kill", done, len(now) - len(before))


@case(quick=24, thorough=400, cpu=300)
def concurrent(c):
    rng = c.rng
    plans = [new_plan(rng) for _ in range(int(rng.integers(1, 4)))]
    path = c.tmp()
    folder = Folder(c, path)
    if c.index % 3 == 0:
        create(plans[0], path, 5)
    earlier = {k: folder.whole(p) for k, p in enumerate(plans)}
    before = digest(path)
    n = int(rng.integers(2, 7))
    own = [int(rng.integers(len(plans))) for _ in range(n)]
    victims = set(int(v) for v in rng.choice(n, size=int(rng.integers(0, 2)), replace=False)) if n > 2 else set()
    die_at = {v: int(rng.integers(4, 40)) for v in victims}
    barrier = mp.get_context("fork").Barrier(n)
    out = c.tmp()
    log = os.open(out / "log", os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    slow = float(rng.choice([0, 0.002, 0.01]))
    seeds = [int(v) for v in rng.integers(1 << 30, size=n)]

    def work(k):
        r, seen = np.random.default_rng([seeds[k], k]), [0]

        def on_point(what, partial):
            if what != "write":
                os.write(log, f"{k}{what} ".encode())
            seen[0] += 1
            if die_at.get(k) == seen[0] - 1:
                if partial is not None:
                    partial()
                os._exit(77)
            if slow and (what != "write" or r.random() < 0.05) and r.random() < 0.6:
                time.sleep(float(r.random()) * slow)
        try:
            barrier.wait(60)
        except threading.BrokenBarrierError:
            return 98
        Injector(path, on_point)
        sim = create(plans[own[k]], path, seeds[k] % (1 << 31))
        paths = paths_of(plans[own[k]], sim)
        sig = run(sim)
        with open(out / f"r{k}", "wb") as f:
            pickle.dump((paths, sig), f)
        return 0
    pids = []
    for k in range(n):
        pid = os.fork()
        if pid == 0:
            code = 99
            try:
                signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_VIRTUAL, 60)
                code = work(k)
            except BaseException:  # noqa: BLE001
                (out / f"e{k}").write_text(traceback.format_exc())
            finally:
                os._exit(code)
        pids.append(pid)
    codes = [os.waitstatus_to_exitcode(os.waitpid(p, 0)[1]) for p in pids]
    os.close(log)
    if 98 in codes:
        raise Inconclusive("a process did not get to the barrier")
    events = (out / "log").read_text()
    c.count("events_logged", events.count(" "))
    what = f"{n} processes at the same time with setups {own}" + (f" of which {sorted(victims)} die" if victims else "")
    results = {}
    for k, code in enumerate(codes):
        if k in victims and code == 77:
            c.count("crashes")
            continue
        c.check(code != -signal.SIGVTALRM, "no-progress", what, stop=True)
        err = (out / f"e{k}").read_text()[-900:] if (out / f"e{k}").exists() else ""
        if "No space left" in err or "Too many open" in err or "Cannot allocate" in err:
            raise Inconclusive(err)
        if c.check(code == 0, "concurrent-save-fails", f"{what}: process {k} ended with {code} {err}"):
            with open(out / f"r{k}", "rb") as f:
                results[k] = pickle.load(f)
            c.count("concurrent_saves")
    after = digest(path)
    for f, h in before.items():
        c.check(after.get(f) == h, "session-changed", f"{what}: {f}")
    whole = {i: folder.whole(p) for i, p in enumerate(plans)}
    for i, w in whole.items():
        c.count("whole_sessions_loaded", len(w))
        # with paths that depend on chance each of the sessions has an origin
        if any(plans[i].type_of(*p) == "random" for p in plans[i].pairs()):
            for k, (paths, _) in results.items():
                if own[k] == i:
                    found = [name for name, v in w.items() if same_paths(v, paths)]
                    c.check(len(found) == 1, "session-not-exactly-once", f"{what}: the paths of process {k} are in the sessions {found}")
        if any(own[k] == i for k in results):
            c.check(len(w) >= 1, "no-session-left", f"{what}: nothing for setup {i} among {sorted(d.name for d in path.iterdir())}")
            c.check(len(w) <= len(earlier[i]) + sum(o == i for o in own), "several-sessions-saved", f"{what}: {sorted(w)} for setup {i}")
            c.check(not earlier[i] or len(w) == len(earlier[i]), "session-not-used", f"{what}: {sorted(w)} although {sorted(earlier[i])} was there")
    for d in sorted(path.iterdir()):
        # nothing that looks like a session may be something else, apart from what a process that died left behind
        c.check(any(d.name in w for w in whole.values()) or victims, "session-not-whole", f"{what}: {d.name} has {sorted(f.name for f in d.iterdir()) if d.is_dir() else 'no files'}")
    for k, (paths, sig) in results.items():
        plan = plans[own[k]]
        expected_paths(c, plan, paths, f"of process {k} of {what}")
        clean = copy.deepcopy(plan)
        clean.paths.update(paths)
        want = run(clean.build().create_simulator())
        for name in want:
            c.same(sig[name], want[name], "wrong-signals", f"{name} of process {k} of {what}", rtol=1e-9, atol=1e-10)
            c.count("signals_compared")
    for i in sorted(set(own)):
        later(c, folder, plans[i], 7 + i, before, f"setup {i} after {what}", must_load=any(own[k] == i for k in results),
              leftover={d.name for d in path.iterdir()} if victims else ())
    order = hashlib.sha1(events.encode()).hexdigest()[:10]
    c.nontrivial("concurrent", order)
    c.note(processes=n, setups=own, died=sorted(victims), events=events[:200])
