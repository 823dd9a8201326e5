"""C25: figures show exactly the recorded values, positions and geometry."""
import math
import pathlib

import matplotlib
matplotlib.use("Agg")
import matplotlib.colors as mcol  # noqa: E402
import matplotlib.figure as mfig  # noqa: E402
import matplotlib.patches as mpatches  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402

import aspsim.diagnostics.diagnosticscollection as diacol  # noqa: E402
import aspsim.diagnostics.preprocessing as pp  # noqa: E402

from vf.core import case  # noqa: E402
from vf.simlib import *  # noqa: F403,E402
from vf.checks import c07, c23  # noqa: E402

RULE = ("Each figure that a simulation saves is intercepted at Figure.savefig and judged by what it contains: the curves of signal and state diagnostics against the known "
        "signals and states at the time indices before the export, impulse responses and matrices against the state at the export, sound field maps by the colour value "
        "at the place of each microphone, and the overview of the arrays by positions, trajectories, regions and the room. Legends must name every curve once and "
        "with its colour. Non-trivial: distinct combinations of kind, number of channels, intervals, export and chunk wraps.")
ASSUMPTIONS = ["the time axis of states may count from 0 or from 1", "an underscore of a name may be shown escaped"]
NEED = {"figures": 100, "curves": 250, "curve_values": 8000, "legend_entries": 250, "shown_values": 150, "drawn_arrays": 100, "regions": 20, "matrices": 15, "long_figures": 3}

NAMES = ["power", "mic_0", "a_b_c", "e", "error_signal", "x__y", "_hidden"[1:], "m-1", "åäö", "Power", "E", "M-1"]


def warm_up():
    warm_up_sim()


class Figures:
    """Keeps what is saved instead of drawing it."""

    def __enter__(self):
        self.saved = {}
        self.orig = mfig.Figure.savefig
        keep = self.saved

        def savefig(fig, fname, *a, **kw):
            path = pathlib.Path(str(fname))
            assert path not in keep, path
            keep[path] = fig
            path.write_bytes(b"figure")

        mfig.Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        mfig.Figure.savefig = self.orig
        plt.close("all")

    def take(self, c, stem):
        found = [f for p, f in self.saved.items() if p.stem == stem]
        if not c.check(len(found) == 1, "figure-missing", f"{len(found)} figures are called {stem}: {sorted(p.stem for p in self.saved)}"):
            return None
        c.count("figures")
        return found[0]


def plain(text):
    return text.replace("\\_", "_").replace("$", "")


def curves(ax):
    return [ln for ln in ax.get_lines() if not ln.get_label().startswith("_child")]


def judge_legend(c, ax, what):
    """Each name once, shown with the look of a curve that has this name."""
    leg = ax.get_legend()
    labels = []
    for h, lab in zip(*ax.get_legend_handles_labels()):
        if lab not in labels:
            labels.append(lab)
    if not labels:
        return
    if not c.check(leg is not None, "no-legend", what):
        return
    texts = [plain(t.get_text()) for t in leg.get_texts()]
    c.check(sorted(texts) == sorted(set(texts)), "legend-repeated", f"{texts} in {what}")
    c.check(set(texts) == set(plain(v) for v in labels), "legend-names", f"{texts} instead of {labels} in {what}")
    c.count("legend_entries", len(texts))
    for text, handle in zip(texts, leg.legend_handles):
        if hasattr(handle, "get_color"):
            colours = [mcol.to_hex(h.get_color()) for h, lab in zip(*ax.get_legend_handles_labels()) if plain(lab) == text and hasattr(h, "get_color")]
            c.check(mcol.to_hex(handle.get_color()) in colours, "legend-colour", f"{text} in {what}")


def names(rng, n):
    return [str(v) for v in rng.choice(NAMES, size=n, replace=False)]


PRE = {"none": [], "power": [np.abs, np.square], "double": [lambda v: 2 * v], "smooth": [pp.smooth(3)], "clip": [pp.clip(-0.5, 0.7)], "db": [np.abs, lambda v: v + 1e-3, pp.db_amplitude],
       "tail": [lambda v: np.where(np.arange(v.shape[-1]) < v.shape[-1] * 2 / 3, v, 0)], "several": [lambda v: v + 3, np.abs, pp.natural_log]}


def apply(pre, v):
    for f in PRE[pre]:
        v = f(v)
    return v


def distance_between(a, b):
    return float(np.sum(np.abs(np.sum(a) - np.sum(b))))


def largest_entry(a):
    return float(np.max(np.abs(a)))


def exports(rng, tot):
    """Export indices, and how they are given."""
    if rng.random() < 0.3:
        f = int(rng.integers(max(1, tot // 4), tot + 1))
        return f, list(range(f, tot + 1, f))
    ks = sorted(set(int(v) for v in rng.integers(1, tot + 1, size=int(rng.integers(1, 4)))))
    return ks, ks


@case(quick=40, thorough=900)
def over_time(c, long=False):
    rng = c.rng
    with Figures() as figs:
        folder = c.tmp()
        sim, block, t, proc, seed, ref = plotted_world(c, folder, bool(rng.integers(2)), long)
        tot = t["tot_samples"]
        todo = []
        for name in names(rng, 4):
            at, ks = exports(rng, tot)
            pre = str(rng.choice(list(PRE)))
            common = dict(export_at=at, preprocess=[PRE[pre]] if PRE[pre] or rng.integers(2) else None)
            kind = str(rng.choice(["record", "record", "signal_power", "spectrum", "ratio", "state", "state", "state_power", "eig", "eigabs", "compare", "summary"] if proc is not None else ["record", "record", "signal_power", "spectrum", "ratio"]))
            told = ""
            labels = [name]
            offsets = (0,)
            if kind in ("record", "signal_power", "spectrum", "ratio"):
                sig = str(rng.choice(sorted(ref)))
                ic, when = c07._intervals(rng, tot)
                kw = {} if ic is None else {"save_at": ic}
                if kind == "ratio":
                    den = str(rng.choice(sorted(ref)))
                    ch, w = c07._channels(rng, ref[sig].shape[0])
                    ch2, w2 = c07._channels(rng, ref[den].shape[0])
                    d = dia.SignalPowerRatio(sig, den, sim.sim_info, numerator_channels=ch, denom_channels=ch2, **common, **kw)
                    val = np.full((1, tot), np.nan)
                    at_, n_ = np.asarray(when), sim.sim_info.output_smoothing
                    p1, p2 = (c07._moving_mean(np.mean(ref[s][x][:, at_] ** 2, axis=0), n_) for s, x in ((sig, w), (den, w2)))
                    with np.errstate(all="ignore"):
                        val[0, at_] = p1 / p2
                    # the quotient of sums that should be 0 depends on rounding, and so does what is made of it
                    unsure = np.any(p2 <= 1e-9 * max(1e-300, np.max(np.mean(ref[den][w2] ** 2, axis=0)))) or np.any(p1 <= 1e-9 * max(1e-300, np.max(np.mean(ref[sig][w] ** 2, axis=0))))
                    if unsure:
                        continue
                elif kind == "signal_power":
                    ch, w = c07._channels(rng, ref[sig].shape[0])
                    d = dia.SignalPower(sig, sim.sim_info, sig_channels=ch, **common, **kw)
                    val = np.mean(ref[sig][w] ** 2, axis=0, keepdims=True)
                else:
                    w = [int(v) for v in rng.permutation(ref[sig].shape[0])[:int(rng.integers(1, ref[sig].shape[0] + 1))]]
                    if rng.random() < 0.15:  # many curves
                        w = [int(v) for v in rng.integers(ref[sig].shape[0], size=int(rng.integers(17, 26)))]
                    f = "plot" if kind == "record" else "spectrum"
                    if kind == "record" and rng.integers(2):
                        kw["export_func"] = f
                    if kind == "spectrum":
                        kw["export_func"] = f
                    d = dia.RecordSignal(sig, sim.sim_info, num_channels=len(w), channel_idx=w, **common, **kw)
                    val = ref[sig][w]
                times = np.asarray(when)
                val = val[:, times]
            else:
                f = min(tot, int(rng.choice([1, 2, 3, 5, 10, block, 2 * block, 3 * block + 1])))
                times = np.arange(f, tot + 1, f)
                offsets = (0, 1)
                st = [c07.states(seed, int(k) // block) for k in times]
                if kind == "state":
                    which = str(rng.choice(["vec", "vec2", "count", "data['w'][1].ir"]))
                    dim = c07.SHAPES[which]
                    n = dim[0] if dim else 1
                    suffix = [None, [f"p{(7 * i + 3) % 5}" for i in range(n)], ["same"] * n][int(rng.integers(3))]
                    if suffix is not None:
                        labels = [f"{name}_{s}" for s in suffix]
                    d = dia.RecordState(which, n, sim.sim_info, save_frequency=f, label_suffix_channel=suffix, **common)
                    val = np.stack([np.atleast_1d(v[which]) for v in st], axis=1)
                elif kind == "state_power":
                    d = dia.StatePower("filt.ir", sim.sim_info, save_frequency=f, **common)
                    val = np.array([[np.mean(v["filt.ir"] ** 2) for v in st]])
                elif kind == "compare":
                    d = dia.StateComparison(distance_between, "vec", "data['w'][0]", sim.sim_info, save_frequency=f, **common)
                    val = np.array([[distance_between(v["vec"], v["data['w'][0]"]) for v in st]])
                    told = "distance_between"
                elif kind == "summary":
                    d = dia.StateSummary(largest_entry, "herm", sim.sim_info, save_frequency=f, **common)
                    val = np.array([[largest_entry(v["herm"]) for v in st]])
                    told = "largest_entry"
                else:
                    size = kind == "eigabs"
                    d = diacol.EigenvaluesOverTime("herm", (1, 2), sim.sim_info, save_frequency=f, abs_value=size, **common)
                    val = np.stack([np.linalg.eigvalsh(v["herm"])[1:3] for v in st], axis=1)
                    val = np.abs(val) if size else val
                    told = "Size of Eigenvalues" if size else "Eigenvalues"
            sim.diag.add_diagnostic(name, d)
            todo.append((name, kind, d, times, val, pre, ks, labels, offsets, told))
            c.nontrivial(kind, pre, val.shape[0], tot > t["sim_chunk_size"], len(ks))
        sim.run_simulation()
        for name, kind, d, times, val, pre, ks, labels, offsets, told in todo:
            for k in ks:
                what = f"{kind} {name} at {k}, {pre}, {t}"
                # a sample or state is part of the figure if it was recorded before the index
                sel = times < k if offsets == (0,) else times <= k
                with np.errstate(all="ignore"):
                    want = apply(pre, val[:, sel])
                fig = figs.take(c, f"{name}_{k}")
                if fig is None:
                    continue
                if not c.check(len(fig.axes) == 1, "axes", what):
                    continue
                ax = fig.axes[0]
                got = curves(ax)
                if not c.check(len(got) == want.shape[0], "curves", f"{len(got)} curves instead of {want.shape[0]} in {what}"):
                    continue
                lab = labels if len(labels) == len(got) else labels * len(got)
                for ch, ln in enumerate(got):
                    y = np.asarray(ln.get_ydata(), dtype=float)
                    x = np.asarray(ln.get_xdata(), dtype=float)
                    c.check(plain(ln.get_label()) == lab[ch], "curve-name", f"{ln.get_label()} instead of {lab[ch]} in {what}")
                    if c.check(y.shape == want[ch].shape, "curve-values", f"{y.shape} values instead of {want[ch].shape} in {what}"):
                        c.same(y, want[ch], "curve-values", f"channel {ch} of {what}", rtol=1e-7, atol=1e-9)
                        if kind != "spectrum":
                            c.check(any(np.array_equal(x + o, times[sel]) for o in offsets), "curve-time", f"{x[:5]} instead of {times[sel][:5]} in {what}")
                        c.count("curve_values", y.size)
                    c.count("curves")
                judge_legend(c, ax, what)
                if kind != "spectrum":
                    title = plain(ax.get_title())
                    c.check(name in title and told in title and (kind != "eig" or "Size" not in title), "title", f"{title} in {what}")
                    c.check(ax.get_xlabel() == "Samples", "axis-name", f"{ax.get_xlabel()} in {what}")
                    c.check(ax.get_xscale() == "linear" and ax.get_yscale() == "linear", "axis-scale", what)
    c.note(block=block, diagnostics=[(v[0], v[1], v[5], v[6]) for v in todo], **t)


@case(quick=5, thorough=100, cpu=240)
def many_values(c):
    """Signals with thousands of values are drawn with all of them."""
    over_time(c, long=True)
    c.count("long_figures")


def plotted_world(c, folder, with_proc, long=False, **cfg):
    """The scene of C07 with plotting turned on."""
    made = {}
    build = Scene.build

    def with_plots(scene, base=None, **kw):
        setup = build(scene, folder, **{**kw, "plot_output": str(c.rng.choice(["pdf", "svg"])), **cfg})
        made["setup"] = setup
        return setup

    Scene.build = with_plots
    try:
        block, t, sim, proc, seed, ref, smoothing = c07._world(c, with_proc, long=long)
    finally:
        Scene.build = build
    return sim, block, t, proc, seed, ref


@case(quick=24, thorough=500)
def of_instants(c):
    rng = c.rng
    with Figures() as figs:
        folder = c.tmp()
        sim, block, t, proc, seed, ref = plotted_world(c, folder, True)
        tot = t["tot_samples"]
        todo = []
        for name in names(rng, 4):
            ks = sorted(set(int(v) for v in rng.integers(1, tot + 1, size=int(rng.integers(1, 3)))))
            kind = str(rng.choice(["ir", "ir", "eig", "matrix", "both"]))
            pre = str(rng.choice(["none", "power", "double", "clip", "db", "tail"]))
            kw = dict(save_at=list(ks), preprocess=[PRE[pre]])
            if kind == "ir":
                st = "filt.ir"
                d = dia.RecordFilter(st, sim.sim_info, **kw)
            elif kind == "eig":
                st = "herm"
                d = diacol.Eigenvalues(st, sim.sim_info, **kw)
            elif kind == "matrix":
                st = str(rng.choice(["herm", "data['w'][0]", "part"]))
                d = dia.RecordFilter(st, sim.sim_info, export_func="matshow", **kw)
            else:
                st = "data['w'][0]"
                d = dia.RecordFilter(st, sim.sim_info, save_at=list(ks), export_func=["npz", "matshow"], preprocess=[[], PRE[pre]], export_kwargs=[{}, {}])
            sim.diag.add_diagnostic(name, d)
            todo.append((name, kind, st, pre, ks))
            c.nontrivial(kind, st, pre, tot > t["sim_chunk_size"])
        sim.run_simulation()
        for name, kind, st, pre, ks in todo:
            for k in ks:
                what = f"{kind} of {st}, {name} at {k}, block {block}, {pre}, {t}"
                v = c07.states(seed, k // block)[st]
                if kind == "eig":
                    v = np.linalg.eigvalsh(v)[None, None]
                want = apply(pre, v)
                fig = figs.take(c, f"{name}_{k}")
                if fig is None:
                    continue
                axes = [a for a in fig.axes if a.get_label() != "<colorbar>"]
                if kind in ("ir", "eig"):
                    if not c.check(len(axes) == want.shape[1], "axes", f"{len(axes)} for {want.shape} in {what}"):
                        continue
                    for col, ax in enumerate(axes):
                        got = curves(ax)
                        if not c.check(len(got) == want.shape[0], "curves", f"{len(got)} curves instead of {want.shape[0]} in {what}"):
                            continue
                        for s, ln in enumerate(got):
                            c.same(np.asarray(ln.get_ydata()), want[s, col], "curve-values", f"source {s}, microphone {col} of {what}", rtol=1e-7, atol=1e-9)
                            c.check(np.array_equal(ln.get_xdata(), np.arange(want.shape[-1])), "curve-time", what)
                            c.check(plain(ln.get_label()) == name, "curve-name", f"{ln.get_label()} in {what}")
                            c.count("curves")
                            c.count("curve_values", want.shape[-1])
                        judge_legend(c, ax, what)
                else:
                    if not c.check(len(axes) == 1 and len(axes[0].get_images()) == 1, "axes", f"{len(axes)} in {what}"):
                        continue
                    im = axes[0].get_images()[0]
                    judge_matrix(c, im, axes[0], want, what)
                    c.check(name in plain(axes[0].get_title()), "title", f"{axes[0].get_title()} in {what}")
                    bars = [a for a in fig.axes if a.get_label() == "<colorbar>"]
                    c.check(len(bars) == 1, "colour-bar", f"{len(bars)} in {what}")
    c.note(block=block, diagnostics=todo, **t)


def judge_matrix(c, im, ax, want, what):
    """Row 0 is uppermost, column 0 leftmost."""
    a = np.asarray(im.get_array())
    if not c.check(a.shape == want.shape, "matrix-values", f"{a.shape} instead of {want.shape} in {what}"):
        return
    left, right, bottom, top = im.get_extent()
    y0, y1 = ax.get_ylim()  # from the lowest to the uppermost place on paper
    x0, x1 = ax.get_xlim()
    down = im.origin == "upper" and (bottom > top) == (y0 > y1) or im.origin == "lower" and (bottom > top) != (y0 > y1)
    c.check(down and (left < right) == (x0 < x1), "matrix-turned", f"{im.get_extent()}, {im.origin}, {(x0, x1, y0, y1)} in {what}")
    c.same(a, want, "matrix-values", what, rtol=1e-7, atol=1e-9)
    if want.min() < want.max():
        c.same(np.array(im.get_clim()), np.array([want.min(), want.max()]), "colour-limits", what, rtol=1e-7, atol=1e-9)
    c.count("matrices")


@case(quick=20, thorough=400)
def fields(c):
    rng = c.rng
    with Figures() as figs:
        folder = c.tmp()
        while True:
            pos, row, col, ny, nx, dim = c23.grid(rng, noise=False, even=True)
            if 1 < ny and 1 < nx and ny * nx <= 40 and dim == 3:
                break
        tot = int(rng.integers(20, 120))
        setup = configure(SimulatorSetup(folder), tot_samples=tot, sim_chunk_size=int(rng.integers(2, 80)), plot_output=str(rng.choice(["pdf", "svg"])))
        seed = int(rng.integers(1 << 30))
        setup.add_free_source("src", rand_pos(rng, 2), TraceSource(2, seed))
        setup.add_mics("map", pos.copy())
        h = rng.normal(size=(2, ny * nx, 4))
        setup.set_path("src", "map", h.copy())
        sim = setup.create_simulator()
        y = convolve(h, table(2, seed)[:, :tot])
        todo = []
        for name in names(rng, 2):
            a = int(rng.integers(0, tot - 1))
            b = int(rng.integers(a + 1, tot + 1))
            arrays = c23.some_arrays(rng) if rng.integers(2) else None
            db = bool(rng.integers(2))
            d = dia.SoundfieldPower("map", pos.copy(), (a, b), sim.sim_info, plot_arrays=arrays, **(dict(preprocess=pp.db_power) if db else {}))
            sim.diag.add_diagnostic(name, d)
            todo.append((name, a, b, arrays, db))
        sim.run_simulation()
        for name, a, b, arrays, db in todo:
            what = f"{name} of {ny} rows and {nx} columns from {a} to {b}"
            fig = figs.take(c, f"{name}_{b}")
            if fig is None:
                continue
            want = np.mean(y[:, a:b] ** 2, axis=-1)
            if db:
                want = 10 * np.log10(want)
            ax = fig.axes[0]
            im = c23.judge_image(Near(c, want), ax, pos, want, what)
            if im is not None:
                c.same(np.array(im.get_clim()), np.array([want.min(), want.max()]), "colour-limits", what, rtol=1e-6, atol=1e-9)
            c.check(plain(ax.get_title()) == name, "title", f"{ax.get_title()} in {what}")
            if arrays:
                c23.judge_arrays(c, ax, arrays, what)
                judge_legend(c, ax, what)
                c.count("drawn_arrays", len(arrays))
        c.nontrivial("fields", ny, nx, len(todo))


class Near:
    """Passes on to a case, with values of a map compared up to rounding."""

    def __init__(self, c, want):
        self.c, self.tol = c, 1e-7 * max(1.0, float(np.abs(want).max()))

    def check(self, cond, key, msg, stop=False):
        if key == "shown-elsewhere" and not cond:
            shown, want = (float(v) for v in msg.split(" at ")[0].replace("np.float64(", "").replace(")", "").split(" instead of "))
            cond = abs(shown - want) <= self.tol
        return self.c.check(cond, key, msg, stop)

    def count(self, *a):
        self.c.count(*a)


def some_region(rng, center):
    kind = str(rng.choice(["cuboid", "rectangle", "disc", "ball", "cylinder"]))
    a, b, h = rng.uniform(0.3, 1.2, size=3)
    ctr = tuple(float(v) for v in center)
    if kind == "cuboid":
        return region.Cuboid((a, b, h), ctr, (0.25, 0.25, 0.25)), ("box", ctr, a, b)
    if kind == "rectangle":
        return region.Rectangle((a, b), ctr, (0.25, 0.25)), ("box", ctr, a, b)
    if kind == "disc":
        return region.Disc(a, ctr, (0.25, 0.25)), ("round", ctr, a, a)
    if kind == "ball":
        return region.Ball(a, ctr, (0.3, 0.3, 0.3)), ("round", ctr, a, a)
    return region.Cylinder(a, h, ctr, (0.3, 0.3, 0.3)), ("round", ctr, a, a)


@case(quick=50, thorough=900)
def array_overview(c):
    rng = c.rng
    with Figures() as figs:
        folder = c.tmp()
        room = rng.uniform(4, 6, size=3)
        mid = rng.uniform(-2, 2, size=3)
        ism = bool(rng.integers(2))
        sr = 1000
        tot = int(rng.choice([5, 60, 400, 1500]))
        setup = configure(SimulatorSetup(folder), tot_samples=tot, plot_output=str(rng.choice(["pdf", "svg"])), room_size=room.tolist(), room_center=mid.tolist(),
                          rt60=0.3 if ism and rng.integers(2) else 0.0, array_update_freq=100000)
        arrays, expect = [], []
        lo, hi = mid - room / 2 + 0.3, mid + room / 2 - 0.3
        all_names = names(rng, 6)
        for i, name in enumerate(all_names[:int(rng.integers(2, 7))]):
            is_src = i == 0 or i > 1 and bool(rng.integers(2))
            shape = str(rng.choice(["static", "static", "linear", "circular", "several"])) if is_src or i > 1 and rng.integers(2) else str(rng.choice(["static", "region", "regions", "linear"]))
            if shape == "region" or shape == "regions":
                n = 1 if shape == "region" else 2
                ctr = [lo + (hi - lo) * f for f in ([0.5] if n == 1 else [0.1, 0.9])]
                if n == 2 and np.all(hi - lo > 1.6) and rng.integers(2):  # in four corners
                    ctr += [np.array([lo[0], hi[1], lo[2]]), np.array([hi[0], lo[1], hi[2]])]
                made = [some_region(rng, v) for v in ctr]
                regs = [m[0] for m in made]
                if n == 1 and rng.integers(2):
                    regs = regs[0]
                a = ar.RegionArray(name, regs)
                expect.append((name, "regions", [m[1] for m in made]))
            else:
                if shape == "static":
                    pos = rng.uniform(lo, hi, size=(int(rng.integers(1, 5)), 3))
                    expect.append((name, "static", pos.copy()))
                else:
                    trs = []
                    for _ in range(2 if shape == "several" else 1):
                        if shape == "linear" or shape == "several" and rng.integers(2):
                            trs.append(tr.LinearTrajectory([rng.uniform(lo, hi) for _ in range(int(rng.integers(2, 5)))], float(rng.uniform(0.05, 1.0)), sr,
                                                           str(rng.choice(["constant_speed", "constant_time"]))))
                        else:
                            r = float(rng.uniform(0.4, 1))
                            trs.append(tr.CircularTrajectory((r * 0.5, r), tuple(mid), float(rng.uniform(0.1, 2)), float(rng.uniform(0.1, 2)), sr))
                    pos = trs[0] if len(trs) == 1 else tr.TrajectoryCollection(trs)
                    expect.append((name, "moving", trs))
                a = ar.FreeSourceArray(name, pos, sources.WhiteNoiseSource(len(trs) if shape != "static" else len(pos), 1, rng=np.random.default_rng(1))) if is_src and rng.integers(2) else \
                    ar.ControllableSourceArray(name, pos) if is_src else ar.MicArray(name, pos)
            setup.add_array(a)
            arrays.append((a, is_src))
        pairs = [(s.name, m.name) for s, i in arrays for m, j in arrays if i and not j]
        default_ism = ism and bool(rng.integers(2))
        setup.sim_info.reverb = "ism" if default_ism else str(rng.choice(["none", "random"]))
        types = {p: str(rng.choice(["ism", "none", "random"] if ism else ["none", "random"])) for p in pairs if rng.random() < 0.4}
        for (s, m), v in types.items():
            setup.arrays.set_path_types({s: {m: v}})
        room_drawn = any(types.get(p, setup.sim_info.reverb) == "ism" for p in pairs)
        sim = setup.create_simulator()
        fig = figs.take(c, "array_pos")
        if fig is None:
            return
        what = f"{[(e[0], e[1]) for e in expect]}, room {room} at {mid}"
        ax = fig.axes[0]
        lines, patch = {}, {}
        for ln in ax.get_lines():
            lines.setdefault(plain(ln.get_label()), []).append(ln)
        for p in ax.patches:
            patch.setdefault(plain(p.get_label()), []).append(p)
        free = [p for k, v in patch.items() for p in v if k not in all_names]
        for name, kind, e in expect:
            if kind == "static":
                if c.check(len(lines.get(name, [])) == 1, "array-not-drawn", f"{name} in {what}"):
                    c.same(lines[name][0].get_xydata(), e[:, :2], "array-position", f"{name} in {what}")
                    c.check(lines[name][0].get_marker() not in ("", "None", None), "array-not-visible", f"{name} in {what}")
            elif kind == "regions":
                got = patch.get(name, [])
                if c.check(len(got) == len(e), "region-not-drawn", f"{len(got)} of {len(e)} regions of {name} in {what}"):
                    for (form, ctr, a, b), p in zip(e, got):
                        if form == "box":
                            judge_box(c, p, ctr, a, b, f"{name} in {what}")
                        elif c.check(isinstance(p, mpatches.Circle), "region-form", f"{p} for {name} in {what}"):
                            c.same(np.array([*p.get_center(), p.get_radius()]), np.array([ctr[0], ctr[1], a]), "region-place", f"{name} in {what}")
                        c.count("regions")
            else:
                got = lines.get(name, [])
                if c.check(len(got) == len(e), "array-not-drawn", f"{len(got)} of {len(e)} trajectories of {name} in {what}"):
                    for ln, traj in zip(got, e):
                        judge_trajectory(c, ln.get_xydata(), traj, tot, f"{name} in {what}")
            c.count("drawn_arrays")
        if c.check(len(free) == (1 if room_drawn else 0), "room", f"{len(free)} outlines in {what}, with {setup.sim_info.reverb} and {types}") and room_drawn:
            judge_box(c, free[0], mid, room[0], room[1], "the room")
            c.check(not free[0].get_fill() or mcol.to_rgba(free[0].get_facecolor())[3] == 0, "room", "the room covers the arrays")
        judge_legend_all(c, ax, [e[0] for e in expect], what)
        c.check(ax.get_aspect() in (1.0, "equal"), "not-to-scale", f"{ax.get_aspect()} in {what}")
    c.nontrivial("overview", tuple(sorted(e[1] for e in expect)), ism)


def judge_legend_all(c, ax, wanted, what):
    leg = ax.get_legend()
    if c.check(leg is not None, "no-legend", what):
        texts = {plain(t.get_text()) for t in leg.get_texts()}
        c.check(texts == set(wanted), "legend-names", f"{sorted(texts)} instead of {wanted} in {what}")
        c.count("legend_entries", len(texts))


def judge_box(c, p, ctr, a, b, what):
    if c.check(isinstance(p, mpatches.Rectangle) and p.get_angle() == 0, "region-form", f"{p} for {what}"):
        c.same(np.array([*p.get_xy(), p.get_width(), p.get_height()]), np.array([ctr[0] - a / 2, ctr[1] - b / 2, a, b]), "region-place", what, atol=1e-9)


def judge_trajectory(c, pts, traj, tot, what):
    """Every drawn point is one which is passed, and every corner passed until the end is drawn."""
    if isinstance(traj, tr.LinearTrajectory):
        length = float(traj.period * traj.samplerate)
        until = min(float(tot), length)
    else:
        until = max(traj.radial_period, traj.angle_period) * traj.samplerate
    t = np.concatenate([np.arange(0, math.ceil(until)), [until * (1 - 1e-12)]])
    way = np.array([traj.current_pos(v)[0, :2] for v in t])
    step = np.max(np.linalg.norm(np.diff(way, axis=0), axis=1)) + 1e-9
    dist = np.min(np.linalg.norm(pts[:, None] - way[None], axis=-1), axis=1)
    c.check(np.all(dist <= step), "trajectory-drawn-elsewhere", f"{pts[np.argmax(dist)]} is {dist.max()} away from the trajectory of {what}")
    c.check(np.linalg.norm(pts[0] - way[0]) <= 1e-9, "trajectory-start", f"{pts[0]} instead of {way[0]} in {what}")
    # straight lines between drawn points follow what was passed until the last of them
    if isinstance(traj, tr.LinearTrajectory) and tot >= length or not isinstance(traj, tr.LinearTrajectory):
        seg = np.array([min(dist_to_segment(w, p, q) for p, q in zip(pts[:-1], pts[1:])) for w in way[::max(1, len(way) // 60)]])
        tol = step * (1 if isinstance(traj, tr.LinearTrajectory) else max(1, until // 1000) * 2)
        c.check(np.all(seg <= tol), "trajectory-not-drawn", f"a place {seg.max()} away from the drawing is passed in {what}")
    elif len(pts) > 1:
        # the corners passed until now are drawn: what comes after the last of them is a straight line
        near = np.flatnonzero(np.linalg.norm(way - pts[-1], axis=1) <= step)
        k = int(near[-1]) if near.size else 0
        rest = way[k:]
        off = max([dist_to_segment(w, pts[-1], rest[-1]) for w in rest], default=0)
        c.check(off <= step, "trajectory-not-drawn", f"a corner {off} away from the drawing is passed in {what}")
    c.count("trajectories")


def dist_to_segment(w, p, q):
    d = q - p
    s = 0 if d @ d == 0 else min(1.0, max(0.0, float((w - p) @ d / (d @ d))))
    return float(np.linalg.norm(w - p - s * d))
