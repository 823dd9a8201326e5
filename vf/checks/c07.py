"""C07: derived diagnostics equal their definition over the full history."""
import json

import numpy as np
import scipy.signal as spsig

import aspsim.diagnostics.diagnosticscollection as diacol

from vf.core import case
from vf.simlib import *  # noqa: F403
from vf import simlib

RULE = ("All kinds of derived diagnostics observe the same run of a random scene with a processor whose states are random functions of the "
        "number of blocks, changed in place or replaced. Their outputs are compared with the definition computed offline from the complete "
        "known signals and states. Non-trivial: distinct combinations of kind, channel selection, intervals, wraps and block length.")
ASSUMPTIONS = ["sim_buffer >= 2 blocks, sim_chunk_size >= max(block, 2)", "the smoothing of a power ratio runs over the recorded samples",
               "summary functions of SignalSummary are additive over time"]
NEED = {"signal_values": 20000, "state_values": 2000, "instants": 200, "fields": 40, "ratios": 50, "spectra": 50, "chunk_wraps": 200}


def warm_up():
    warm_up_sim()


class Filter:
    def __init__(self, ir):
        self.ir = ir


class Adapting(AudioProcessor):
    """Its states after k blocks are state(seed, k); some are changed in place, some replaced."""

    def __init__(self, sim_info, arrays, block_size, seed, drive=None):
        super().__init__(sim_info, arrays, block_size)
        self.name = "adapting"
        self.seed = seed
        self.drive = drive or {}
        self.k = 0
        self.set()

    def set(self):
        v = states(self.seed, self.k)
        several = loose(self.seed, self.k)
        if self.k == 0:
            self.several = several
            self.vec, self.herm, self.count = v["vec"], v["herm"], v["count"]
            self.filt = Filter(v["filt.ir"])
            self.data = {"w": [v["data['w'][0]"], Filter(v["data['w'][1].ir"])]}
            self.vec2 = v["vec2"]
            self.cplx, self.phasor = v["cplx"], v["phasor"]
            self.turned, self.part = np.asfortranarray(v["turned"]), np.zeros((6, 4))[::2, 1::2]  # neither is stored row by row
            self.part[:] = v["part"]
            return
        for old, new in zip(flat(self.several), flat(several)):
            old[:] = new
        self.vec[:] = v["vec"]
        self.vec2 = v["vec2"]
        self.herm[:] = v["herm"]
        self.count = v["count"]
        self.cplx, self.phasor = v["cplx"], v["phasor"]
        self.turned[:], self.part[:] = v["turned"], v["part"]
        self.filt.ir[:] = v["filt.ir"]
        self.data["w"][0][:] = v["data['w'][0]"]
        self.data["w"][1].ir = v["data['w'][1].ir"]

    def process(self, num_samples):
        i, b = self.sig.idx, self.block_size
        for name, x in self.drive.items():
            self.sig[name][:, i:i + b] = x[:, (self.k + 1) * b:(self.k + 2) * b]
        self.k += 1
        self.set()


SHAPES = {"vec": (3,), "vec2": (3,), "herm": (4, 4), "count": (), "filt.ir": (2, 3, 5), "data['w'][0]": (2, 3), "data['w'][1].ir": (3,), "cplx": (2,), "phasor": (), "turned": (3, 4), "part": (3, 2)}


def states(seed, k):
    rng = np.random.default_rng([seed, k, 0])
    v = {n: rng.normal(size=s) * (1 + k % 7) for n, s in SHAPES.items()}
    v["herm"] = v["herm"] + v["herm"].T
    v["cplx"] = v["cplx"] + 1j * rng.normal(size=2)
    v["phasor"] = complex(v["phasor"], rng.normal())
    v["count"] = float(k)
    return v


def loose(seed, k):
    """A state made of several arrays of different shapes."""
    rng = np.random.default_rng([seed, k, 1])
    a, b = rng.normal(size=(2, 3)), rng.normal(size=4)
    return [[a, b], {"x": a, "y": [b]}, (a, b)][seed % 3]


def flat(v):
    return [v] if isinstance(v, np.ndarray) else [a for x in (v.values() if isinstance(v, dict) else v) for a in flat(x)]


def _world(c, with_proc, contrib=False, long=False):
    rng = c.rng
    block = int(rng.choice([1, 2, 3, 4, 7, 16, 30])) if with_proc else None
    t = timing(rng, block, tot_max=200)
    if long:
        t["tot_samples"] = int(rng.integers(2100, 5800))
        t["sim_chunk_size"] = max(t["sim_chunk_size"], int(rng.integers(40, 7000)))
    tot = t["tot_samples"]
    scene = Scene(rng, ctrl="one" if with_proc else "none", cfg=t)
    smoothing = int(rng.choice([1, 2, 5, 30]))
    sim = scene.build(output_smoothing=smoothing, save_source_contributions=contrib).create_simulator()
    seed = int(rng.integers(1 << 30))
    proc, drive, x = None, {}, {}
    for s in scene.srcs:
        tab = simlib.table(s["num"], s["seed"])
        x[s["name"]] = tab[:, :tot].copy()
        if s["kind"] == "ctrl":
            x[s["name"]][:] = 0
            if with_proc:
                drive[s["name"]] = tab
                x[s["name"]][:, block:] = tab[:, block:tot]
    if with_proc:
        proc = Adapting(sim.sim_info, sim.arrays, block, seed, drive)
        sim.add_processor(proc)
    ref = dict(x)
    for m in scene.mics:
        parts = {s["name"]: convolve(scene.path(s, m), x[s["name"]]) for s in scene.srcs}
        ref[m["name"]] = sum(parts.values())
        if contrib:
            ref |= {f"{k}~{m['name']}": v for k, v in parts.items()}
    c.count("chunk_wraps", tot // t["sim_chunk_size"])
    return block, t, sim, proc, seed, ref, smoothing


def _intervals(rng, tot):
    if rng.random() < 0.4:
        return None, np.arange(tot)
    n = min((tot + 1) // 2, int(rng.integers(1, 5)))
    pts = sorted(rng.choice(tot + 1, size=2 * n, replace=False).tolist())
    ivs = [(int(a), int(b)) for a, b in zip(pts[::2], pts[1::2])]
    return diacore.IntervalCounter(ivs), np.concatenate([np.arange(a, b) for a, b in ivs])


def _channels(rng, n):
    r = rng.random()
    if r < 0.4:
        return slice(None), np.arange(n)
    if r < 0.7:
        sel = [int(v) for v in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
        return sel, sel
    a = int(rng.integers(n))
    return slice(a, a + 1), np.array([a])


def _moving_mean(p, n):
    return np.convolve(p, np.ones(n) / n)[:len(p)]


@case(quick=60, thorough=2500)
def of_signals(c):
    rng = c.rng
    block, t, sim, proc, seed, ref, smoothing = _world(c, bool(rng.integers(2)), bool(rng.random() < 0.3))
    tot = t["tot_samples"]
    names = sorted(ref)
    todo = []
    for i in range(8):
        a, b = str(rng.choice(names)), str(rng.choice(names))
        ic, at = _intervals(rng, tot)
        kw = {} if ic is None else {"save_at": ic}
        kind = str(rng.choice(["power", "ratio"]))
        cha, wa = _channels(rng, ref[a].shape[0])
        chb, wb = _channels(rng, ref[b].shape[0])
        want = np.full(tot, np.nan)
        pa = np.mean(ref[a][wa][:, at] ** 2, axis=0)
        if kind == "power":
            skw = {} if isinstance(cha, slice) and cha == slice(None) and rng.integers(2) else {"sig_channels": cha}
            d = dia.SignalPower(a, sim.sim_info, export_func="npz", **skw, **kw)
            want[at] = pa
        else:
            d = dia.SignalPowerRatio(a, b, sim.sim_info, numerator_channels=cha, denom_channels=chb, export_func="npz", **kw)
            pb = np.mean(ref[b][wb][:, at] ** 2, axis=0)
            with np.errstate(all="ignore"):
                num, den = _moving_mean(pa, smoothing), _moving_mean(pb, smoothing)
                want[at] = num / den
                # a ratio of sums that should be 0 depends on rounding
                want[at[(den <= 1e-9 * np.max(pb, initial=1e-300))]] = np.inf
            c.count("ratios")
        sim.diag.add_diagnostic(f"d{i}", d)
        todo.append((kind, d, want, at, (a, b, ic is None)))
        c.nontrivial(kind, ic is None, len(wa), len(wb), tot > t["sim_chunk_size"], smoothing)
    sim.run_simulation()
    for kind, d, want, at, what in todo:
        got = np.array(d.get_output(), dtype=float)
        c.check(got.shape == want.shape, f"{kind}-shape", f"{got.shape}", stop=True)
        undecided = np.isinf(want)
        c.check(np.array_equal(np.isnan(got) & ~undecided, np.isnan(want)), f"{kind}-recorded", f"{what}: values at other indices than requested")
        ok = ~undecided & ~np.isnan(want)
        c.same(got[ok], want[ok], f"{kind}-value", f"{what}, smoothing {smoothing}, {t}", rtol=1e-6, atol=1e-9)
        c.count("signal_values", ok.sum())
    c.note(block=block, smoothing=smoothing, diagnostics=[(k, w) for k, _, _, _, w in todo], **t)


@case(quick=60, thorough=1500)
def over_ranges(c):
    rng = c.rng
    block, t, sim, proc, seed, ref, smoothing = _world(c, bool(rng.integers(2)), long=c.index % 10 == 9)
    tot = t["tot_samples"]
    todo = []
    for i in range(6):
        sig = str(rng.choice(sorted(ref)))
        a = int(rng.integers(0, tot - 1))
        b = int(rng.integers(a + 1, tot + 1))
        if i == 0:
            a, b = 0, tot
        elif i == 1 and tot > 2000:
            a, b = int(rng.integers(0, 200)), int(rng.integers(tot - 200, tot + 1))
        part = ref[sig][:, a:b]
        n = part.shape[0]
        kind = str(rng.choice(["summary", "summary_func", "field", "spectrum"])) if i > 1 else "spectrum"
        if kind == "summary":
            d = diacol.SignalSummary(sig, sim.sim_info, (a, b))
            want = np.sum(part) / (b - a)
        elif kind == "summary_func":
            d = diacol.SignalSummary(sig, sim.sim_info, (a, b), summary_func=_abs_sum)
            want = np.sum(np.abs(part)) / (b - a)
        elif kind == "field":
            d = dia.SoundfieldPower(sig, rand_pos(rng, n), (a, b), sim.sim_info, export_func="npz")
            want = np.mean(part ** 2, axis=-1)
            c.count("fields")
        else:
            nper = int(rng.integers(1, b - a + 1))
            ch, w = _channels(rng, n)
            d = diacol.SignalPowerSpectrum(sig, sim.sim_info, (a, b), len(w), nper, sig_channels=ch)
            want = np.mean(_welch(part[w], nper), axis=0)
            c.count("spectra")
        sim.diag.add_diagnostic(f"d{i}", d)
        todo.append((kind, d, want, (sig, a, b)))
        c.nontrivial(kind, tot > t["sim_chunk_size"], a // t["sim_chunk_size"] != (b - 1) // t["sim_chunk_size"])
    sim.run_simulation()
    for kind, d, want, what in todo:
        c.same(d.get_output(), want, f"{kind}-value", f"{what}, {t}", rtol=1e-6)
        c.count("signal_values", np.size(want))
    c.note(block=block, diagnostics=[(k, w) for k, _, _, w in todo], **t)


def _welch(x, nper):
    """Welch's averaged power spectrum: Hann window, half overlap, mean of each segment removed."""
    win = 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(nper) / nper) if nper > 1 else np.ones(1)
    step = nper - nper // 2
    segs = [x[:, i:i + nper] for i in range(0, x.shape[-1] - nper + 1, step)]
    acc = 0
    for s in segs:
        spec = np.abs(np.fft.rfft((s - s.mean(axis=-1, keepdims=True)) * win, axis=-1)) ** 2 / np.sum(win) ** 2
        if nper % 2:
            spec[:, 1:] *= 2
        else:
            spec[:, 1:-1] *= 2
        acc = acc + spec
    return acc / len(segs)


def _abs_sum(x):
    return np.sum(np.abs(x))


def _mse(a, b):
    return float(np.mean(np.abs(a - b) ** 2))


def _peak(a):
    return float(np.max(np.abs(a)))


@case(quick=70, thorough=3000)
def of_states(c):
    rng = c.rng
    block, t, sim, proc, seed, ref, smoothing = _world(c, True)
    tot = t["tot_samples"]
    todo = []
    for i in range(7):
        f = min(tot, int(rng.choice([1, 2, 3, 5, 10, block, 2 * block, 3 * block + 1, tot])))
        when = np.arange(f, tot + 1, f)
        st = str(rng.choice([n for n in SHAPES]))
        other = {"vec": "vec2", "vec2": "vec"}.get(st, "count")
        kind = str(rng.choice(["state", "power", "compare", "summary", "eig", "eigabs"]))
        a = (sim.sim_info, None, f)
        if kind == "state":
            if st in ("cplx", "phasor"):
                st = "turned"
            dim = SHAPES[st] or 1
            if dim != 1 and len(dim) == 1 and rng.integers(2):
                dim = dim[0]
            d = dia.RecordState(st, dim, *a, export_func="npz")

            def val(v, st=st):
                return np.atleast_1d(v[st])
        elif kind == "power":
            d = dia.StatePower(st, *a, export_func="npz")

            def val(v, st=st):
                return np.mean(np.abs(v[st]) ** 2)
        elif kind == "compare":
            d = dia.StateComparison(_mse, st, other, *a, export_func="npz")

            def val(v, st=st, other=other):
                return _mse(v[st], v[other])
        elif kind == "summary":
            d = dia.StateSummary(_peak, st, *a, export_func="npz")

            def val(v, st=st):
                return _peak(v[st])
        else:
            lo, hi = sorted(int(v) for v in rng.integers(0, 4, size=2))
            st = "herm"
            d = diacol.EigenvaluesOverTime("herm", [(lo, hi), [lo, hi], np.array([lo, hi])][int(rng.integers(3))], *a,
                                           abs_value=kind == "eigabs", export_func="npz")

            def val(v, lo=lo, hi=hi, kind=kind):
                e = np.sort(np.linalg.eigvalsh(v["herm"]))[lo:hi + 1]
                return np.abs(e) if kind == "eigabs" else e
        sim.diag.add_diagnostic(f"d{i}", d)
        todo.append((kind, d, val, when, st, f))
        c.nontrivial(kind, st, f % block == 0, tot > t["sim_chunk_size"])
    sim.run_simulation()
    for kind, d, val, when, st, f in todo:
        got = np.asarray(d.get_output())
        want = np.stack([val(states(seed, int(n) // block)) for n in when], axis=-1)
        n = len(when)
        msg = f"{kind} of {st} every {f}, block {block}, {t}"
        c.check(got.shape[-1] >= n, f"{kind}-count", f"{msg}: {got.shape[-1]} values instead of {n}", stop=True)
        c.same(got[..., :n], want, f"{kind}-value", msg, rtol=1e-7)
        c.check(np.all(np.isnan(got[..., n:])), f"{kind}-count", f"{msg}: more than {n} values")
        c.same(d.time_indices[:n], when - 1, f"{kind}-time", msg)
        out, times = d.get_processed_output(tot, [])
        c.same(times, when - 1, f"{kind}-time", msg + " (processed)")
        c.same(out, np.reshape(want, np.atleast_2d(want).shape), f"{kind}-value", msg + " (processed)")
        c.count("state_values", want.size)
    c.note(block=block, diagnostics=[(k, st, f) for k, _, _, _, st, f in todo], **t)


@case(quick=50, thorough=2000)
def of_instants(c):
    """What is kept of an instant is what the processor had then, whatever it does to it later."""
    rng = c.rng
    block, t, sim, proc, seed, ref, smoothing = _world(c, True)
    tot = t["tot_samples"]
    todo = []
    for i in range(6):
        st = str(rng.choice(list(SHAPES)))
        if rng.integers(2):
            at = int(rng.integers(1, tot + 1))
            ks = list(range(at, tot + 1, at))
        else:
            ks = sorted(set(int(v) for v in rng.integers(1, tot + 1, size=int(rng.integers(1, 4)))))
            at = [list(ks), tuple(ks), np.array(ks)][int(rng.integers(3))]
        kind = str(rng.choice(["filter", "filter", "several", "difference", "difference", "eig", "eigabs"]))
        if kind == "filter":
            d = dia.RecordFilter(st, sim.sim_info, at, export_func="npz")

            def val(v, st=st):
                return v[st]
        elif kind == "several":
            st = "several"
            d = dia.RecordFilter(st, sim.sim_info, at, export_func="npz")
            val = None
        elif kind == "difference":
            other = {"vec": "vec2", "vec2": "vec"}.get(st, "count")
            d = dia.RecordFilterDifference(st, other, sim.sim_info, at, export_func="npz")

            def val(v, st=st, other=other):
                return v[st] - v[other]
        else:
            d = diacol.Eigenvalues("herm", sim.sim_info, at, abs_value=kind == "eigabs", export_func="npz")

            def val(v, kind=kind):
                e = np.sort(np.linalg.eigvalsh(v["herm"]))[None, None, :]
                return np.abs(e) if kind == "eigabs" else e
        sim.diag.add_diagnostic(f"d{i}", d)
        todo.append((kind, d, val, ks, st))
        c.nontrivial(kind, st, all(k % block == 0 for k in ks), tot > t["sim_chunk_size"])
    # what was kept last is watched during the whole run
    seen = {i: {} for i in range(len(todo))}
    orig = proc.process

    def process(n):
        orig(n)
        for i, (kind, d, *_r) in enumerate(todo):
            out = d.get_output()
            if out is not None:
                seen[i][proc.k] = [a.copy() for a in flat(out)] if kind == "several" else np.array(out, copy=True)

    proc.process = process
    sim.run_simulation()
    for i, (kind, d, val, ks, st) in enumerate(todo):
        msg = f"{kind} of {st} at {ks[:6]}, block {block}, {t}"
        out = d.get_output()
        if kind == "several":
            c.check(isinstance(out, type(loose(seed, 0))), "several-type", f"{type(out)}", stop=True)
            out = flat(out)

        def want_at(k, kind=kind, val=val):
            return flat(loose(seed, k // block)) if kind == "several" else [val(states(seed, k // block))]

        def compare(got, k, key, msg, kind=kind, want_at=want_at):
            want = want_at(k)
            got = got if kind == "several" else [got]
            c.check(len(got) == len(want), key, f"{msg}: {len(got)} arrays", stop=True)
            for g, w in zip(got, want):
                c.same(g, w, key, msg)

        compare(out, ks[-1], f"{kind}-value", msg)
        for call, got in seen[i].items():
            before = [k for k in ks if k <= call * block - 1]
            # at the time of call number `call`, times up to call*block-1 have passed
            if before:
                compare(got, before[-1], f"{kind}-changed-later", msg + f" read in call {call}")
                c.count("instants")
    c.note(block=block, diagnostics=[(k, st, ks[:5]) for k, _, _, ks, st in todo], **t)


@case(quick=16, thorough=400)
def chunk_invariance(c):
    """The same run with other buffer and chunk lengths records and exports the same values, bit for bit where nothing is summed."""
    rng = c.rng
    block = int(rng.choice([1, 2, 5, 8]))
    tot = int(rng.integers(20, 120))
    scene = Scene(rng, ctrl="one")
    drive = {s["name"]: simlib.table(s["num"], s["seed"]) for s in scene.ctrl()}
    seed = int(rng.integers(1 << 30))
    f, exp = int(rng.integers(1, 9)), int(rng.integers(5, tot + 1))
    a = int(rng.integers(0, tot - 1))
    b = int(rng.integers(a + 1, tot + 1))
    mic = scene.mics[0]["name"]
    src = scene.srcs[0]["name"]
    runs = []
    sizes = [(4 * tot, 4 * tot), (2 * block, max(block, 2))] + [(2 * block + int(rng.integers(30)), max(2, block) + int(rng.integers(30))) for _ in range(2)]
    for buf, chunk in sizes:
        folder = c.tmp()
        sim = scene.build(folder, plot_output="pdf", tot_samples=tot, sim_buffer=buf, sim_chunk_size=chunk, output_smoothing=7,
                          export_frequency=exp).create_simulator()
        sim.add_processor(Adapting(sim.sim_info, sim.arrays, block, seed, drive))
        ds = {"pow": dia.SignalPower(mic, sim.sim_info, export_func="npz"),
              "ratio": dia.SignalPowerRatio(mic, src, sim.sim_info, export_func="npz", save_at=diacore.IntervalCounter(((a, b),))),
              "state": dia.RecordState("vec", 3, sim.sim_info, None, f, export_func="npz"),
              "spow": dia.StatePower("herm", sim.sim_info, None, f, export_func="npz"),
              "eig": diacol.EigenvaluesOverTime("herm", (0, 3), sim.sim_info, None, f, export_func="npz"),
              "filt": dia.RecordFilter("filt.ir", sim.sim_info, export_func="npz"),
              "field": dia.SoundfieldPower(mic, rand_pos(rng, scene.mics[0]["num"]), (a, b), sim.sim_info, export_func="npz"),
              "sum": diacol.SignalSummary(mic, sim.sim_info, (a, b))}
        for k, d in ds.items():
            sim.diag.add_diagnostic(k, d)
        sim.run_simulation()
        files = {}
        for p in sim.folder_path.iterdir():
            if p.suffix == ".npz" and p.stem.split("_")[0] in ds:
                with np.load(p) as z:
                    files[p.name] = {k: z[k] for k in z.files}
            elif p.suffix == ".json" and p.stem.startswith("sum_"):
                files[p.name] = json.loads(p.read_text())
        runs.append((files, {k: np.array(d.get_output(), copy=True) for k, d in ds.items()}))
    for (files, outs), size in zip(runs[1:], sizes[1:]):
        c.check(set(files) == set(runs[0][0]), "files-differ", lambda: f"{size}: {sorted(set(files) ^ set(runs[0][0]))[:5]}")
        for name in set(files) & set(runs[0][0]):
            for k in runs[0][0][name]:
                w, got = np.asarray(runs[0][0][name][k]), np.asarray(files[name].get(k))
                big = ~(np.abs(w) > 1e6) if name.startswith("ratio") and np.shape(w) == np.shape(got) else ...
                c.same(got[big], w[big], "chunk-dependent-export", f"{name} with buffer and chunk {size}", rtol=1e-6)
        for k, v in outs.items():
            w = runs[0][1][k]
            big = ~(np.abs(w) > 1e6) if k == "ratio" else ...
            c.same(v[big], w[big], "chunk-dependent", f"{k} with buffer and chunk {size}", rtol=1e-6)
        c.nontrivial("chunks", size[0] // block, size[1] // block)
    c.note(block=block, tot=tot, sizes=sizes, save_frequency=f, export_frequency=exp)
