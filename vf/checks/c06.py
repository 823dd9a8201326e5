"""C06: exports happen at exactly the requested indices with exactly the data until then."""
import json

import numpy as np
import soundfile as sf

import aspsim.diagnostics.diagnosticscollection as diacol
import aspsim.diagnostics.preprocessing as pp

from vf.core import case
from vf.simlib import *  # noqa: F403
from vf import simlib

RULE = ("Diagnostics of every kind with random export indices, intervals, export functions, preprocessing and names (some a prefix of another) "
        "run in random scenes. After the run the exact set of new files is compared with the one derived from the request, and the content of "
        "every file with the values before its index computed from the known samples. A processor notes when files appear, and may fail. Non-trivial: distinct combinations of kind, export "
        "functions and interval style.")
ASSUMPTIONS = ["export indices are increasing and at most tot_samples", "text exports are requested only at indices before which something is recorded",
               "keep_only_last_export is documented for and asserted on npz exports"]
NEED = {"watched_calls": 200, "runs": 100, "files_expected": 1000, "npz_files": 500, "wav_files": 30, "silent_wav_files": 5, "text_files": 50, "plot_files": 10, "state_exports": 50,
        "instant_exports": 30, "summary_exports": 20, "keep_last": 20, "preprocessed": 50, "silent_runs": 10}


def warm_up():
    warm_up_sim()


# Functions which do not commute, so that their order shows
def _plus(x):
    return x + 3


def _double(x):
    return 2 * x


def _reverse_channels(x):
    return x[::-1]


def _square(x):
    return x ** 2


def _every_other(x):
    return x[..., ::2]


PP = [_plus, _double, _reverse_channels, _square, _every_other]


class Stateful(AudioProcessor):
    """Has states which identify the number of processed blocks and are changed in place."""

    def __init__(self, sim_info, arrays, block_size):
        super().__init__(sim_info, arrays, block_size)
        self.name = "stateful"
        self.k = 0
        self.scalar = 0.0
        self.vec = np.zeros(3)
        self.store = {"mat": np.zeros((2, 2)), "list": [np.zeros(2), np.zeros(4)]}
        self.herm = np.zeros((3, 3))

    def process(self, num_samples):
        self.k += 1
        self.scalar = state(self.k, "scalar")
        self.vec[:] = state(self.k, "vec")
        self.store["mat"][:] = state(self.k, "store['mat']")
        self.store["list"][1][:] = state(self.k, "store['list'][1]")
        self.herm[:] = state(self.k, "herm")


STATES = {"scalar": (), "vec": (3,), "store['mat']": (2, 2), "store['list'][1]": (4,), "herm": (3, 3)}


def state(k, name):
    """The state after k blocks."""
    shape = STATES[name]
    if k == 0:
        return np.zeros(shape)
    v = k * 10.0 + 1 + np.arange(int(np.prod(shape, dtype=int))).reshape(shape)
    return v + v.T if name == "herm" else v


def _exports(rng, tot, least=1):
    """What to give as export_at, and the indices it means."""
    form = str(rng.choice(["number", "list", "tuple", "array", "dense"]))
    if form == "number" and tot >= 2:
        f = int(rng.integers(max(1, tot // 12), tot + 1))
        if rng.random() < 0.3:
            f = tot  # only once, at the end
        ks = list(range(f, tot + 1, f))
        if ks[0] >= least:
            return f, ks
    n = int(rng.integers(1, 5))
    if form == "dense":  # neighbouring indices
        a = int(rng.integers(least, tot + 1))
        ks = list(range(a, min(tot, a + n) + 1))
    else:
        ks = sorted(set(int(v) for v in rng.integers(least, tot + 1, size=n)))
    if rng.random() < 0.3 and tot not in ks:
        ks.append(tot)
    return {"tuple": tuple(ks), "array": np.array(ks)}.get(form, list(ks)), ks


def _intervals(rng, tot):
    n = min((tot + 1) // 2, int(rng.integers(1, 5)))
    pts = sorted(rng.choice(tot + 1, size=2 * n, replace=False).tolist())
    return [(int(a), int(b)) for a, b in zip(pts[::2], pts[1::2])]


def _preprocess(rng, rows, functions):
    """One list of functions for each export function, in one of the accepted forms."""
    lists = [[PP[int(i)] for i in rng.integers(len(PP), size=int(rng.integers(0, 4)))] for _ in functions]
    if len(functions) == 1 and len(lists[0]) == 1 and rng.random() < 0.5:
        return lists[0][0], lists
    if all(len(fs) == 1 for fs in lists) and rng.random() < 0.5:
        return [fs[0] for fs in lists], lists
    return lists, lists


def _apply(funcs, x):
    for f in funcs:
        x = f(x)
    return x


def _wav(values, samplerate):
    v = values / max(np.max(np.abs(values), initial=0), 1e-300)
    r = min(int(0.2 * samplerate), int(0.1 * v.shape[-1]))
    if r > 0:
        ramp = np.arange(r) / (r - 1) if r > 1 else np.zeros(1)
        v[:, :r] *= ramp
        v[:, -r:] *= 1 - ramp
    return v


NAMES = ["rec", "rec_1", "rec_10", "re", "rec_1_2", "a-b", "r.x", "x y", "REC", "rec1", "10", "_", "rec_"]


class Expected:
    """Files by name: how each is to be judged."""

    def __init__(self):
        self.files = {}

    def add(self, name, judge):
        assert name not in self.files, name
        self.files[name] = judge


def _npz(c, name, want):
    def judge(path):
        with np.load(path) as f:
            c.check(list(f.keys()) == [name], "npz-keys", f"{path.name}: {list(f.keys())}")
            c.same(f[name], want, "npz-content", f"{path.name}")
        c.count("npz_files")
    return judge


def _text(c, name, want):
    def judge(path):
        got = json.loads(path.read_text())
        c.check(list(got) == [name], "text-keys", f"{path.name}: {list(got)}")
        c.same(got[name], np.mean(want), "text-content", path.name)
        c.count("text_files")
    return judge


def _wavfile(c, want, samplerate):
    def judge(path):
        got, sr = sf.read(path, always_2d=True)
        c.check(sr == samplerate, "wav-samplerate", f"{path.name}: {sr}")
        c.count("silent_wav_files", not np.any(want))
        c.same(got.T, _wav(want, samplerate), "wav-content", path.name, rtol=0, atol=2.5 / 32768)
        c.count("wav_files")
    return judge


def _plot(c):
    def judge(path):
        head = path.read_bytes()[:200]
        c.check(head.startswith(b"%PDF") if path.suffix == ".pdf" else b"svg" in head.lower() or b"xml" in head, "plot-content", path.name)
        c.count("plot_files")
    return judge


def _world(c, block, plot_output="pdf", tot_max=150, **cfg):
    rng = c.rng
    t = timing(rng, block, tot_max=tot_max)
    scene = Scene(rng, ctrl="none", cfg=dict(t, samplerate=int(rng.choice([100, 1000, 8000])), **cfg))
    folder = c.tmp()
    setup = scene.build(folder, plot_output=plot_output)
    sim = setup.create_simulator()
    ref = {}
    for s in scene.srcs:
        ref[s["name"]] = simlib.table(s["num"], s["seed"])[:, :t["tot_samples"]]
    for m in scene.mics:
        ref[m["name"]] = sum(convolve(scene.path(s, m), ref[s["name"]]) for s in scene.srcs)
    return t, scene, sim, ref, folder


def _judge(c, sim, before, expected, proc):
    after = {p.name for p in sim.folder_path.iterdir()} - before - {"metadata_processor.json"}
    want = set(expected.files)
    c.check(not want - after, "file-missing", lambda: f"not written: {sorted(want - after)[:6]}, written {sorted(after)[:12]}")
    c.check(not after - want, "file-unexpected", lambda: f"written but not requested: {sorted(after - want)[:6]}")
    for name in sorted(after & want):
        expected.files[name](sim.folder_path / name)
    c.count("files_expected", len(want))
    c.count("runs")


def _add_signal(c, rng, sim, ref, t, name, exp, ext):
    """Adds a recording or power diagnostic with all its expected files."""
    tot, sr = t["tot_samples"], sim.sim_info.samplerate
    sig = str(rng.choice(sorted(ref)))
    kind = str(rng.choice(["record", "record", "power"]))
    full = ref[sig] if kind == "record" else np.mean(ref[sig] ** 2, axis=0, keepdims=True)
    ivs = [(0, tot)] if rng.random() < 0.35 else _intervals(rng, tot)
    kw = {} if ivs == [(0, tot)] and rng.integers(2) else {"save_at": diacore.IntervalCounter(ivs)}
    functions = [str(f) for f in rng.choice(["npz", "text", "wav", "npz", "plot" if rng.random() < 0.15 else "npz"],
                                            size=int(rng.integers(1, 4)))]
    functions = list(dict.fromkeys(functions))
    least = 1 if set(functions) <= {"npz", "wav"} else ivs[0][0] + 2
    if least > tot or (not set(functions) <= {"npz", "wav"} and ivs[0][1] < least):
        functions, least = ["npz"], 1
    export_at, ks = _exports(rng, tot, least)
    keep = functions == ["npz"] and rng.random() < 0.3
    if keep:
        kw["keep_only_last_export"] = True
        c.count("keep_last")
    lists = [[] for _ in functions]
    if rng.random() < 0.6:
        kw["preprocess"], lists = _preprocess(rng, full.shape[0], functions)
        c.count("preprocessed", sum(map(bool, lists)))
    mask = np.zeros(tot, dtype=bool)
    for a, b in ivs:
        mask[a:b] = True
    for func, pps in zip(functions, lists):
        if func == "plot" and _every_other in pps:
            pps.clear()
            kw["preprocess"] = lists  # a plot needs one value for each time index
    func_arg = functions[0] if len(functions) == 1 and rng.integers(2) else functions
    if func_arg != functions[0]:
        kw["export_kwargs"] = [{} for _ in functions]
    if kind == "record":
        d = dia.RecordSignal(sig, sim.sim_info, export_at, num_channels=full.shape[0], export_func=func_arg, **kw)
    else:
        d = dia.SignalPower(sig, sim.sim_info, export_at, export_func=func_arg, **kw)
    if rng.integers(2):
        sim.diag.add_diagnostic(name, d)
    else:
        sim.diag[name] = d
    c.check(name in sim.diag and sim.diag[name] is d, "diagnostic-lost", name)
    for func, pps in zip(functions, lists):
        for k in ks:
            if keep and k != ks[-1]:
                continue
            want = _apply(pps, full[:, :k][:, mask[:k]])
            if func == "npz":
                exp.add(f"{name}_{k}.npz", _npz(c, name, want))
            elif func == "text":
                exp.add(f"{name}_{k}.json", _text(c, name, want))
            elif func == "wav":
                exp.add(f"{name}_{name}_{k}.wav", _wavfile(c, want, sr))
            else:
                exp.add(f"{name}_{k}.{ext}", _plot(c))
    c.nontrivial("signal", kind, tuple(functions), len(ivs), keep, type(export_at).__name__)


@case(quick=70, thorough=3000)
def signals(c):
    rng = c.rng
    block = None if rng.integers(2) else int(rng.choice([1, 2, 5, 9]))
    ext = str(rng.choice(["pdf", "svg"]))
    t, scene, sim, ref, folder = _world(c, block, ext)
    if block:
        p = Probe(sim.sim_info, sim.arrays, block, {}, full_history=False)
        p.watch = []
        sim.add_processor(p)
    exp = Expected()
    names = [NAMES[i] for i in rng.permutation(len(NAMES))[:int(rng.integers(1, 6))]]
    names = [n for n in names if sum(n.lower() == m.lower() for m in names) == 1]
    for name in names:
        # The names of one diagnostic can look like an export of another one; then skip to keep the request unambiguous
        trial = Expected()
        _add_signal(c, rng, sim, ref, t, name, trial, ext)
        if name in sim.diag and set(trial.files) & set(exp.files):
            del sim.diag.diagnostics[name]
            continue
        exp.files |= trial.files
        if rng.random() < 0.3:
            # nothing is recorded in place of an earlier diagnostic
            c.raises(lambda: sim.diag.add_diagnostic(name, dia.SignalPower("s", sim.sim_info)), "name-taken-twice", name)
    c.check([n for n, d in sim.diag.items()] == [n for n in sim.diag.diagnostics] and all(sim.diag[n] is d for n, d in sim.diag.items()), "diagnostic-lost", f"{names}")
    c.check([id(d) for d in sim.diag] == [id(d) for n, d in sim.diag.items()], "diagnostic-lost", f"{names}")
    c.check("nothing at all" not in sim.diag, "diagnostic-lost", f"{names}")
    before = {p.name for p in sim.folder_path.iterdir()}
    sim.run_simulation()
    _judge(c, sim, before, exp, block)
    c.note(block=block, names=names, files=sorted(exp.files)[:20], **t)


@case(quick=40, thorough=1500)
def states_and_instants(c):
    rng = c.rng
    block = int(rng.choice([1, 2, 3, 4, 7, 16]))
    t, scene, sim, ref, folder = _world(c, block)
    tot = t["tot_samples"]
    proc = Stateful(sim.sim_info, sim.arrays, block)
    sim.add_processor(proc)
    exp = Expected()
    names = [NAMES[i] for i in rng.permutation(len(NAMES))[:5]]
    names = [n for n in names if sum(n.lower() == m.lower() for m in names) == 1]
    for name in names:
        keep = bool(rng.random() < 0.25)
        st = list(STATES)[int(rng.integers(len(STATES)))]
        dim = STATES[st]
        kind = str(rng.choice(["state", "power", "compare", "summary", "eig", "filter", "difference", "eigs"]))
        funcs = ["npz"]
        trial = Expected()
        kw = dict(keep_only_last_export=keep)
        if kind in ("filter", "difference", "eigs"):
            if rng.random() < 0.2:
                export_at, f = None, sim.sim_info.export_frequency
                ks = list(range(f, tot + 1, f))
            else:
                export_at, ks = _exports(rng, tot)
            if rng.integers(2):
                funcs = ["text"]
                kw["keep_only_last_export"] = keep = False
            if kind == "eigs":
                st = "herm"
                d = diacol.Eigenvalues(st, sim.sim_info, export_at, export_func=funcs, **kw)

                def val(n):
                    return np.linalg.eigvalsh(state(n, "herm"))[None, None, :]
            elif kind == "filter":
                d = dia.RecordFilter(st, sim.sim_info, export_at, export_func=funcs, **kw)

                def val(n, st=st):
                    return state(n, st)
            else:
                d = dia.RecordFilterDifference(st, "scalar", sim.sim_info, export_at, export_func=funcs, **kw)

                def val(n, st=st):
                    return state(n, st) - state(n, "scalar")
            pps = [[_plus, _double], [_double, _plus], []][int(rng.integers(3))]
            d.preprocess = [pps]
            for k in ks:
                if keep and k != ks[-1]:
                    continue
                want = _apply(pps, val(k // block))
                if funcs == ["text"]:
                    trial.add(f"{name}_{k}.json", _text(c, name, want))
                else:
                    trial.add(f"{name}_{k}.npz", _npz(c, name, want))
                c.count("instant_exports")
        else:
            f = int(rng.choice([1, 2, 3, 5, block, 2 * block, 7]))
            f = min(f, tot)
            export_at, ks = _exports(rng, tot)
            a = (sim.sim_info, export_at, f)
            if kind == "state":
                if st == "scalar":
                    dim = 1
                d = dia.RecordState(st, dim[0] if dim and dim != 1 and len(dim) == 1 and rng.integers(2) else dim, *a, export_func="npz", **kw)

                def val(n, st=st):
                    return np.atleast_1d(state(n, st))
            elif kind == "power":
                d = dia.StatePower(st, *a, export_func="npz", **kw)

                def val(n, st=st):
                    return np.mean(state(n, st) ** 2)[None]
            elif kind == "compare":
                d = dia.StateComparison(_distance, "vec", "scalar", *a, export_func="npz", **kw)

                def val(n):
                    return np.atleast_1d(_distance(state(n, "vec"), state(n, "scalar")))
            elif kind == "summary":
                d = dia.StateSummary(np.sum, st, *a, export_func="npz", **kw)

                def val(n, st=st):
                    return np.sum(state(n, st))[None]
            else:
                lo, hi = sorted(int(v) for v in rng.integers(0, 3, size=2))
                d = diacol.EigenvaluesOverTime("herm", (lo, hi), *a, export_func="npz", **kw)

                def val(n, lo=lo, hi=hi):
                    return np.linalg.eigvalsh(state(n, "herm"))[lo:hi + 1]
            for k in ks:
                if keep and k != ks[-1]:
                    continue
                when = [i for i in range(f, tot + 1, f) if i <= k]
                want = np.stack([val(i // block) for i in when], axis=-1) if when else np.zeros(np.shape(val(0)) + (0,))
                trial.add(f"{name}_{k}.npz", _npz(c, name, want))
                c.count("state_exports")
        if set(trial.files) & set(exp.files):
            continue
        if keep:
            c.count("keep_last")
        sim.diag.add_diagnostic(name, d)
        exp.files |= trial.files
        c.nontrivial(kind, st, keep, tuple(funcs))
    before = {p.name for p in sim.folder_path.iterdir()}
    sim.run_simulation()
    _judge(c, sim, before, exp, block)
    c.note(block=block, files=sorted(exp.files)[:20], **t)


def _distance(a, b):
    return float(np.sum(np.abs(a - b)))


@case(quick=30, thorough=1000)
def summaries(c):
    rng = c.rng
    block = None if rng.integers(2) else int(rng.choice([1, 2, 5, 9]))
    t, scene, sim, ref, folder = _world(c, block)
    tot = t["tot_samples"]
    if block:
        p = Probe(sim.sim_info, sim.arrays, block, {}, full_history=False)
        p.watch = []
        sim.add_processor(p)
    exp = Expected()
    for i in range(3):
        a = int(rng.integers(0, tot - 1))
        b = int(rng.integers(a + 1, tot + 1))
        sig = str(rng.choice(sorted(ref)))
        part = ref[sig][:, a:b]
        kind = str(rng.choice(["mean", "func", "field", "spectrum" if rng.random() < 0.3 else "field"]))
        name = f"sum{i}"
        if kind == "mean":
            sim.diag.add_diagnostic(name, diacol.SignalSummary(sig, sim.sim_info, (a, b)))
            exp.add(f"{name}_{b}.json", _text(c, name, np.sum(part) / (b - a)))
        elif kind == "func":
            sim.diag.add_diagnostic(name, diacol.SignalSummary(sig, sim.sim_info, (a, b), summary_func=_energy))
            exp.add(f"{name}_{b}.json", _text(c, name, np.sum(part ** 2) / (b - a)))
        elif kind == "spectrum":
            sim.diag.add_diagnostic(name, diacol.SignalPowerSpectrum(sig, sim.sim_info, (a, b), part.shape[0], 8))
            exp.add(f"{name}_{b}.pdf", _plot(c))
        else:
            pos = rand_pos(rng, part.shape[0])
            sim.diag.add_diagnostic(name, dia.SoundfieldPower(sig, pos, (a, b), sim.sim_info, export_func="npz", preprocess=_plus))
            exp.add(f"{name}_{b}.npz", _npz(c, name, np.mean(part ** 2, axis=-1) + 3))
        c.count("summary_exports")
        c.nontrivial("summary", kind, block is None)
    before = {p.name for p in sim.folder_path.iterdir()}
    sim.run_simulation()
    _judge(c, sim, before, exp, block)
    c.note(block=block, files=sorted(exp.files), **t)


def _energy(x):
    return np.sum(x ** 2)


@case(quick=12, thorough=300)
def plots_off(c):
    """With plots turned off nothing at all is written."""
    rng = c.rng
    block = int(rng.choice([1, 3]))
    t, scene, sim, ref, folder = _world(c, block, "none", tot_max=60)
    proc = Stateful(sim.sim_info, sim.arrays, block)
    sim.add_processor(proc)
    funcs = ["npz", "plot", "text", "wav"]
    sig = sorted(ref)[0]
    sim.diag.add_diagnostic("a", dia.RecordSignal(sig, sim.sim_info, 10, num_channels=ref[sig].shape[0], export_func=funcs, export_kwargs=[{}] * 4))
    sim.diag.add_diagnostic("b", dia.StatePower("vec", sim.sim_info, 10, 3))
    sim.diag.add_diagnostic("c", dia.RecordFilter("store['mat']", sim.sim_info, 7, export_func="matshow"))
    sim.diag.add_diagnostic("d", diacol.SignalSummary(sig, sim.sim_info, (1, 3)))
    cwd_before = set(folder.parent.rglob("*"))
    import os
    os.chdir(folder.parent)
    sim.run_simulation()
    c.check(sim.folder_path is None, "folder-created", f"{sim.folder_path}")
    c.check(set(folder.parent.rglob("*")) == cwd_before, "written-although-off", lambda: f"{sorted(set(folder.parent.rglob('*')) - cwd_before)}")
    c.count("silent_runs")
    c.nontrivial("silent", block)


@case(quick=6, thorough=60)
def all_plots(c):
    """Every plotting export writes its file."""
    rng = c.rng
    ext = ["pdf", "svg"][c.index % 2]
    t, scene, sim, ref, folder = _world(c, 2, ext, tot_max=40, export_frequency=10)
    tot = t["tot_samples"]
    proc = Stateful(sim.sim_info, sim.arrays, 2)
    proc.ir = rng.normal(size=(2, 3, 4))
    sim.add_processor(proc)
    sig = sorted(ref)[0]
    n = ref[sig].shape[0]
    grid = np.stack([a.ravel() for a in np.meshgrid(np.arange(n), [0.0])] + [np.zeros(n)], axis=-1)
    ks = list(range(10, tot + 1, 10))
    exp = Expected()

    def add(name, d, at):
        sim.diag.add_diagnostic(name, d)
        for k in at:
            exp.add(f"{name}_{k}.{ext}", _plot(c))

    add("sig", dia.RecordSignal(sig, sim.sim_info, num_channels=n), ks)
    add("pow", dia.SignalPower(sig, sim.sim_info, preprocess=[[pp.smooth(3), pp.db_power]]), ks)
    add("spec", dia.RecordSignal(sig, sim.sim_info, num_channels=n, export_func="spectrum"), ks)
    add("ratio", dia.SignalPowerRatio(sig, sig, sim.sim_info), ks)
    add("state", dia.RecordState("vec", 3, sim.sim_info, None, 2, label_suffix_channel=["x", "y", "z"]), ks)
    add("spow", dia.StatePower("vec", sim.sim_info, None, 2), ks)
    add("cmp", dia.StateComparison(_distance, "vec", "vec", sim.sim_info, None, 2), ks)
    add("ir", dia.RecordFilter("ir", sim.sim_info), ks)
    add("mat", dia.RecordFilter("store['mat']", sim.sim_info, export_func="matshow"), ks)
    add("eig", diacol.Eigenvalues("herm", sim.sim_info), ks)
    add("eigt", diacol.EigenvaluesOverTime("herm", (0, 1), sim.sim_info, None, 3, abs_value=True), ks)
    add("psd", diacol.SignalPowerSpectrum(sig, sim.sim_info, (0, tot - 1), n, 4), [tot - 1])
    if n > 1:
        add("field", dia.SoundfieldPower(sig, grid, (1, tot), sim.sim_info, plot_arrays=list(sim.arrays.sources())), [tot])
    before = {p.name for p in sim.folder_path.iterdir()}
    sim.run_simulation()
    _judge(c, sim, before, exp, 2)
    c.nontrivial("plots", ext)


class Watcher(AudioProcessor):
    """Notes at each call which files exist, and fails at the given call."""

    def __init__(self, sim_info, arrays, block_size, folder, fails_at):
        super().__init__(sim_info, arrays, block_size)
        self.name, self.folder, self.fails_at = "watcher", folder, fails_at
        self.seen = []

    def process(self, num_samples):
        self.seen.append({p.name for p in self.folder.iterdir()})
        if len(self.seen) == self.fails_at:
            raise RuntimeError("the processor gave up")


@case(quick=20, thorough=600)
def in_time(c):
    """Exports are written while the simulation goes on, so that they are there even if it does not come to its end."""
    rng = c.rng
    block, chunk = int(rng.choice([1, 2, 5])), int(rng.choice([5, 9, 20]))
    tot, folder = int(rng.integers(90, 140)), c.tmp()
    chunk = max(chunk, block)
    scene = Scene(rng, ctrl="none", cfg=dict(sim_chunk_size=chunk, tot_samples=tot, sim_buffer=int(rng.integers(2 * block, 60))))
    sim = scene.build(folder, plot_output="pdf").create_simulator()
    full = {}
    for s in scene.srcs:
        full[s["name"]] = simlib.table(s["num"], s["seed"])[:, :tot]
    names = {}
    for i in range(int(rng.integers(1, 4))):
        sig = str(rng.choice(sorted(full)))
        ks = sorted(set(int(k) for k in rng.integers(1, tot + 1, size=int(rng.integers(1, 5)))))
        d = dia.RecordSignal(sig, sim.sim_info, export_at=ks, num_channels=full[sig].shape[0], export_func="npz")
        sim.diag.add_diagnostic(f"rec{i}", d)
        for k in ks:
            names[f"rec{i}_{k}.npz"] = (k, f"rec{i}", full[sig][:, :k])
    fails_at = int(rng.integers(tot // 2, tot) // block) if rng.random() < 0.5 else None
    proc = Watcher(sim.sim_info, sim.arrays, block, sim.folder_path, fails_at)
    sim.add_processor(proc)
    if fails_at:
        c.raises(sim.run_simulation, "failure-hidden", "the processor failed")
    else:
        sim.run_simulation()
    slack = 2 * chunk + block
    for call, seen in enumerate(proc.seen):
        now = (call + 1) * block
        for name, (k, _, _) in names.items():
            if name in seen:
                c.check(k <= now, "export-too-early", f"{name} exists at {now}")
            elif k + slack <= now:
                c.fail("export-too-late", f"{name} does not exist at {now}, chunks of {chunk}")
        c.count("watched_calls")
    for name, (k, diag, want) in names.items():
        path = sim.folder_path / name
        if path.exists() or not fails_at:
            _npz(c, diag, want)(path)
    c.nontrivial("in time", block, chunk, bool(fails_at))
    c.count("exports_in_time", len(names))
    c.note(block=block, chunk=chunk, tot=tot, fails_at=fails_at, files=sorted(names))
