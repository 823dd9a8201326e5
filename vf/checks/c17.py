"""C17: simulations never write into each other's output folder or pick the wrong file."""
import hashlib
import multiprocessing as mp
import os
import pathlib
import re
import threading
import time

import numpy as np

import aspsim.diagnostics.plot as dplot
import aspsim.fileutilities as futil
from vf.core import case, Inconclusive
from vf.simlib import *  # noqa: F403

RULE = ("Many processes, started from a barrier and delayed at random before and after each file-system call, create simulators or folders in one folder, which may "
        "already have files and folders with such names; threads do the same with the folder function. Monitors over the returned names: each exactly once, existing, "
        "consecutively numbered, everything that existed is unchanged, and what each simulator wrote is its own. The file utilities are compared with a "
        "model on random folders. Non-trivial: distinct numbers of processes, kinds of delay and contents of the folder.")
ASSUMPTIONS = ["numbers are consecutive within names of the same minute", "names of files that are numbered have no leading zeros"]
NEED = {"simulators_created": 40, "folders_created": 300, "contended_names": 20, "watched_files": 50, "lookups": 1500, "generated_names": 200}


def warm_up():
    warm_up_sim()


def digest(folder):
    out = {}
    for f in sorted(folder.rglob("*")):
        st = f.stat()
        out[str(f.relative_to(folder))] = (hashlib.sha1(f.read_bytes()).hexdigest(), st.st_mtime_ns) if f.is_file() else "folder"
    return out


def litter(rng, folder, prefix):
    """Existing things, some with the names that the simulator is about to use (now and in the next minute)."""
    first = futil.get_unique_folder_name(prefix, folder).name
    taken = set()
    stem = first[:-1]
    for k in rng.choice(8, size=int(rng.integers(0, 6)), replace=False):
        name = f"{stem}{int(k)}"
        taken.add(name)
        if rng.integers(2):
            (folder / name).mkdir()
            if rng.integers(2):
                (folder / name / "config.yaml").write_text("mine")
        else:
            (folder / name).write_text("mine")
    for name in ("notes.txt", "figs_old", prefix + "x"):
        if rng.integers(2):
            (folder / name).write_text("mine")
    return taken


def delays(seed, mode):
    """Delays around the calls in which processes can get into each other's way."""
    r = np.random.default_rng(seed)

    def slow(func, before, after):
        def wrapped(*a, **kw):
            if before and r.random() < 0.5:
                time.sleep(float(r.random() * 0.004))
            try:
                return func(*a, **kw)
            finally:
                if after and r.random() < 0.7:
                    time.sleep(float(r.random() * 0.006))
        return wrapped
    if mode == "none":
        return
    pathlib.Path.exists = slow(pathlib.Path.exists, False, True)
    os.stat = slow(os.stat, False, mode == "much")
    os.mkdir = slow(os.mkdir, True, False)
    os.listdir = slow(os.listdir, False, True)
    os.scandir = slow(os.scandir, False, True)


def in_processes(c, n, work):
    """Runs work(k, start) in n processes at the same time; start() waits for all. Returns their results."""
    barrier = mp.get_context("fork").Barrier(n)
    pipes = []
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    out = "ok\n" + "\n".join(work(k, lambda: barrier.wait(60)))
                except threading.BrokenBarrierError:
                    out = "late"
                except BaseException as e:  # noqa: BLE001
                    import traceback
                    out = "error\n" + "".join(traceback.format_exception(e))[-1500:]
                os.write(w, out.encode()[:60000])
            finally:
                os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    results = []
    for pid, r in pipes:
        data = b""
        while True:
            chunk = os.read(r, 65536)
            if not chunk:
                break
            data += chunk
        os.close(r)
        os.waitpid(pid, 0)
        results.append(data.decode())
    if any(x == "late" or not x for x in results):
        raise Inconclusive("a process did not get to the barrier")
    for x in results:
        c.check(not x.startswith("error"), "fails-when-concurrent", x[:1200])
    return [x.split("\n")[1:] if x.startswith("ok") else [] for x in results]


def judge_names(c, names, taken, folder, prefix, what):
    """names: all the folders that were created, by anyone."""
    c.check(len(set(names)) == len(names), "name-given-twice", f"{what}: {sorted(n for n in names if names.count(n) > 1)[:4]}")
    groups = {}
    for n in names:
        c.check((folder / n).is_dir(), "folder-missing", f"{what}: {n}")
        c.check(n not in taken, "existing-name-used", f"{what}: {n}")
        m = re.fullmatch(re.escape(prefix) + r"(.*)_(\d+)", n)
        if c.check(m is not None, "name-without-number", f"{what}: {n}"):
            groups.setdefault(m.group(1), []).append(int(m.group(2)))
    for minute, nums in groups.items():
        used = {int(t.rsplit("_", 1)[1]) for t in taken if t.startswith(f"{prefix}{minute}_")}
        free = [k for k in range(len(nums) + len(used) + 1) if k not in used][:len(nums)]
        c.check(sorted(nums) == free, "not-consecutive", f"{what}: {sorted(nums)} with {sorted(used)} taken")
    c.count("contended_names", max(0, max((len(g) for g in groups.values()), default=0) - 1))


def simple_setup(folder, mark):
    setup = configure(SimulatorSetup(folder), tot_samples=mark, plot_output="svg")
    setup.add_mics(f"mic{mark}", np.full((1, 3), float(mark)))
    setup.add_free_source("s", np.zeros((1, 3)), sources.Counter(1))
    return setup


@case(quick=8, thorough=150, cpu=300)
def simulators(c):
    """Each simulator created at the same time has a folder of its own, with what it wrote."""
    import json
    rng = c.rng
    folder = c.tmp()
    taken = litter(rng, folder, "figs_")
    before = digest(folder)
    n, each = int(rng.integers(3, 7)), int(rng.integers(1, 3))
    seed, mode = int(rng.integers(1 << 30)), ["none", "some", "much"][c.index % 3]

    def work(k, start):
        setups = [simple_setup(folder if k % 2 else str(folder), 10 * k + i + 1) for i in range(each)]
        delays([seed, k], mode)
        start()
        out = []
        for i, s in enumerate(setups):
            sim = s.create_simulator()
            sim.run_simulation()
            out.append(f"{sim.folder_path.name} {10 * k + i + 1} {sim.folder_path.parent}")
        return out
    results = [line.split(" ", 2) for r in in_processes(c, n, work) for line in r]
    names = [r[0] for r in results]
    c.check(len(names) == n * each, "simulators-missing", f"{len(names)} of {n * each}")
    judge_names(c, names, taken, folder, "figs_", f"{n} processes with {each} each")
    for name, mark, parent in results:
        c.check(parent == str(folder), "other-parent", f"{parent}")
        files = {f.name for f in (folder / name).iterdir()}
        c.check({"config.yaml", "array_pos.json", "array_pos.svg", "metadata_arrays.json", "metadata_paths.json"} <= files, "files-missing", f"{files}")
        pos = json.loads((folder / name / "array_pos.json").read_text())
        c.check(f"mic{mark}" in pos, "files-of-another", f"{name} of simulator {mark} has {sorted(pos)}")
        c.check(f"tot_samples: {mark}\n" in (folder / name / "config.yaml").read_text(), "files-of-another", f"{name} of simulator {mark}")
    after = digest(folder)
    for f, v in before.items():
        c.check(after.get(f) == v, "existing-touched", f)
    c.check({f.name for f in folder.iterdir()} == {f.split("/")[0] for f in before} | set(names), "unexpected-folders", f"{sorted(after)[:8]}")
    c.count("simulators_created", len(names))
    c.count("folders_created", len(names))
    c.count("watched_files", len(before))
    c.nontrivial("simulators", n, each, mode, len(taken))


@case(quick=24, thorough=400, cpu=300)
def processes(c):
    rng = c.rng
    folder = c.tmp()
    prefix = str(rng.choice(["figs_", "a b_", "session_", "x"]))
    taken = litter(rng, folder, prefix)
    before = digest(folder)
    n, each, detailed = int(rng.integers(2, 13)), int(rng.integers(1, 7)), bool(rng.random() < 0.2)
    seed, mode = int(rng.integers(1 << 30)), ["none", "some", "much"][c.index % 3]

    def work(k, start):
        delays([seed, k], mode)
        start()
        return [futil.create_unique_folder(prefix, folder, *([True] if detailed else [])).name for _ in range(each)]
    names = [x for r in in_processes(c, n, work) for x in r]
    c.check(len(names) == n * each, "folders-missing", f"{len(names)} of {n * each}")
    judge_names(c, names, taken, folder, prefix, f"{n} processes with {each} each")
    after = digest(folder)
    c.check(all(after.get(f) == v for f, v in before.items()), "existing-touched", f"{[f for f, v in before.items() if after.get(f) != v][:3]}")
    c.count("folders_created", len(names))
    c.count("watched_files", len(before))
    c.nontrivial("processes", n, each, mode, detailed, len(taken))


@case(quick=12, thorough=200)
def threads(c):
    rng = c.rng
    folder = c.tmp()
    taken = litter(rng, folder, "figs_")
    before = digest(folder)
    n, each = int(rng.integers(2, 9)), int(rng.integers(2, 9))
    out, start = [[] for _ in range(n)], threading.Barrier(n)
    errors = []
    real = os.mkdir
    r = np.random.default_rng(int(rng.integers(1 << 30)))
    pause = [float(v) for v in r.random(4096) * 0.002]

    def slow_mkdir(*a, **kw):
        time.sleep(pause[hash(threading.get_ident() + len(errors)) % 4096])
        return real(*a, **kw)

    def work(k):
        start.wait(60)
        try:
            for _ in range(each):
                out[k].append(futil.create_unique_folder("figs_", folder).name)
        except Exception as e:  # noqa: BLE001
            errors.append(repr(e))
    os.mkdir = slow_mkdir
    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        os.mkdir = real
    c.check(not errors, "fails-when-concurrent", f"{errors[:3]}")
    names = [x for o in out for x in o]
    judge_names(c, names, taken, folder, "figs_", f"{n} threads with {each} each")
    after = digest(folder)
    c.check(all(after.get(f) == v for f, v in before.items()), "existing-touched", "by threads")
    c.count("folders_created", len(names))
    c.count("watched_files", len(before))
    c.nontrivial("threads", n, each, len(taken))


@case(quick=16, thorough=200)
def one_after_another(c):
    """Many simulators of one setup within the same minute; with plots turned off nothing is created."""
    rng = c.rng
    folder = c.tmp()
    taken = litter(rng, folder, "figs_")
    before = digest(folder)
    setup = simple_setup(folder if c.index % 2 else str(folder), 5)
    n = int(rng.integers(2, 14))
    sims = [setup.create_simulator() for _ in range(n)]
    judge_names(c, [s.folder_path.name for s in sims], taken, folder, "figs_", f"{n} simulators")
    setup.sim_info.plot_output = "none"
    now = digest(folder)
    c.check(setup.create_simulator().folder_path is None and digest(folder) == now, "folder-although-off", "plot_output none")
    here = simple_setup(None, 5).create_simulator()
    c.check(here.folder_path is None, "folder-although-off", "no base_fig_path")
    c.check(all(now.get(f) == v for f, v in before.items()), "existing-touched", "by simulators")
    c.count("simulators_created", n)
    c.count("folders_created", n)
    c.count("watched_files", len(before))
    c.nontrivial("sequential", n, len(taken))


@case(quick=30, thorough=400)
def generated_names(c):
    rng = c.rng
    folder = c.tmp()
    prefix = str(rng.choice(["figs_", "a", "x_1_", "10_", ""]))
    for _ in range(20):
        n = int(rng.integers(1, 6))
        now = {f.name for f in folder.iterdir()}
        one = futil.get_unique_folder_name(prefix, folder)
        many = futil.get_multiple_unique_folder_names(prefix, folder, n)
        c.check(not one.exists() and one.parent == folder and one.name.startswith(prefix), "generated-name", f"{one}")
        c.check(len(set(many)) == len(many) == n and not any(f.exists() for f in many), "generated-names", f"{[f.name for f in many]}, there are {sorted(now)}")
        nums = [int(f.name.rsplit("_", 1)[1]) for f in many]
        stems = {f.name.rsplit("_", 1)[0] for f in many}
        c.check(nums == list(range(nums[0], nums[0] + n)) and len(stems) == 1 and all(f.parent == folder for f in many), "not-consecutive", f"{[f.name for f in many]}")
        c.check({f.name for f in folder.iterdir()} == now, "created-by-asking", f"{sorted(now)}")
        c.count("generated_names", n + 1)
        pick = many[int(rng.integers(n))] if rng.integers(2) else one
        if rng.integers(2):
            pick.mkdir()
        else:
            pick.write_text("")
    c.nontrivial("names", prefix)


STEMS = ["block1", "rec_3", "fig_", "fig", "fig_1_", "rec", "rec_mic_", "rec_mic_2_", "x10_", "figs_2024_01_02_10_", "", "sp ace_", "Ä_"]


@case(quick=60, thorough=1500)
def lookups(c):
    """The functions that look for numbered files, on random folders."""
    rng = c.rng
    folder = c.tmp()
    made = set()
    suffixes = [".pdf", ".npz", "", ".tar.gz", "npz"]
    for _ in range(int(rng.integers(0, 40))):
        stem, suf = str(rng.choice(STEMS)), str(rng.choice(suffixes))
        idx = str(rng.choice(["", "a", "-3", "1_0", "+4", " 5", "5 ", "2x", "x2"])) if rng.random() < 0.25 else str(int(rng.choice([0, 1, 2, 9, 10, 11, 99, 100, 101, 1000])))
        name = f"{stem}{idx}{suf}"
        if name in made or not name or name.startswith(".") and False:
            continue
        made.add(name)
        p = folder / name
        if rng.random() < 0.2:
            p.mkdir()
        else:
            p.write_text(name)
    for _ in range(14):
        prefix, suf = str(rng.choice(STEMS)), str(rng.choice(suffixes))
        match = {}
        for name in made:
            m = re.fullmatch(re.escape(prefix) + r"([0-9]+)" + re.escape(suf), name)
            if m:
                match[int(m.group(1))] = name
        got = futil.get_highest_numbered_file(folder, prefix, suf)
        want = match[max(match)] if match else None
        c.check((got.name if got is not None else None) == want and (got is None or got.parent == folder), "highest-numbered",
                f"{got} instead of {want} for {prefix!r} and {suf!r} in {sorted(made)}")
        c.count("lookups")
    for _ in range(14):
        stem, current = str(rng.choice([s for s in STEMS if s])), int(rng.choice([0, 1, 5, 10, 11, 100, 1001]))
        strict = bool(rng.integers(2))
        match = {}
        for name in made:
            m = re.fullmatch(re.escape(stem) + r"([0-9]+)", pathlib.Path(name).stem)
            if m:
                match.setdefault(int(m.group(1)), set()).add(name)
        want = set().union(*[v for k, v in match.items() if k < current]) if match else set()
        future = any(k > current for k in match)
        if stem.endswith("_") and rng.integers(2):
            call = lambda: futil.find_all_earlier_files(folder, stem[:-1], current, False, strict)  # noqa: E731
        else:
            call = lambda: futil.find_all_earlier_files(folder, f"{stem}{current}", current, True, strict)  # noqa: E731
        if strict and future:
            c.raises(call, "future-files-accepted", f"{stem} {current} in {sorted(made)}")
        else:
            got = call()
            c.check(sorted(f.name for f in got) == sorted(want), "earlier-files", f"{sorted(f.name for f in got)} instead of {sorted(want)} for {stem!r}, {current} in {sorted(made)}")
        c.count("lookups")
    for _ in range(10):
        k = int(rng.choice([0, 7, 10, 12345, 10 ** 12]))
        stem = str(rng.choice([s for s in STEMS if not s or not s[-1].isdigit()]))
        c.check(futil.find_index_in_name(f"{stem}{k}") == k, "index-in-name", f"{stem}{k}: {futil.find_index_in_name(f'{stem}{k}')}")
        none = f"{stem}{k}" + str(rng.choice(["a", "_", " ", ".", "-"]))
        c.check(futil.find_index_in_name(none) is None, "index-in-name", f"{none}: {futil.find_index_in_name(none)}")
        c.count("lookups", 2)
    c.nontrivial("lookups", len(made))


@case(quick=12, thorough=200)
def earlier_plots(c):
    """Removing the earlier plots of a diagnostic leaves those of all others."""
    rng = c.rng
    folder = c.tmp()
    names = [str(n) for n in rng.choice(["rec_", "rec_mic_", "rec_1_", "power", "mic_rec_"], size=3, replace=False)]
    idx = sorted(int(k) for k in rng.choice([0, 5, 10, 50, 100, 1000], size=4, replace=False))
    for n in names:
        for k in idx:
            (folder / f"{n}{k}").mkdir()
            for f in (f"{n}{k}.tex", f"{n}{k}-000.tsv", f"{n}{k}.pdf"):
                (folder / f"{n}{k}" / f).write_text(n)
    before = digest(folder)
    target = names[int(rng.integers(3))]
    dplot.delete_earlier_tikz_plot(folder, f"{target}{idx[-1]}")
    after = digest(folder)
    for f, v in before.items():
        top = f.split("/")[0]
        if top in [f"{target}{k}" for k in idx[:-1]]:
            c.check(f not in after, "earlier-plot-left", f"{f} with {names}")
        else:
            c.check(after.get(f) == v, "other-plot-removed", f"{f} with {names}, for {target}{idx[-1]}")
    for k in idx[:-1]:
        c.check((folder / f"{target}{k}.pdf").is_file(), "pdf-lost", f"{target}{k}.pdf")
    c.count("watched_files", len(before))
    c.count("lookups")
    c.nontrivial("earlier plots", tuple(names), target)
