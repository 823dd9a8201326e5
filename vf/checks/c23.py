"""C23: sound field maps and preprocessing keep each value at its own position."""
import copy
import math

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402

import aspsim.diagnostics.core as diacore  # noqa: E402
import aspsim.diagnostics.preprocessing as pp  # noqa: E402
import aspsim.diagnostics.soundfieldplot as sfp  # noqa: E402
from vf.core import case  # noqa: E402
from vf.simlib import *  # noqa: F403,E402

RULE = ("Random rectangular grids in random order, with offsets, uneven spacing, rounding noise, two and three coordinates and unique values are sorted; drawn maps are judged by the "
        "colour index that is shown at the place of each position, found from the extent and origin of the image. Preprocessing functions are compared with term by term "
        "definitions on signals of several scales, lengths and smoothing lengths, and reading of nested attributes with direct access on random trees of objects, lists "
        "and dictionaries. Values up to an index are judged on signals with missing parts. Non-trivial: distinct shapes, orders and lengths.")
ASSUMPTIONS = ["grids are rectangular up to the number of decimals, which separate neighbouring rows", "keys have no apostrophes", "missing values are missing in all channels at once"]
NEED = {"map_values": 5000, "shown_values": 1500, "samples": 30000, "attributes": 2000, "selected": 2000, "maps_drawn": 25}


def grid(rng, decimals=5, noise=True, even=False):
    """Positions of a rectangular grid in random order, with their row (from the bottom) and column."""
    ny, nx = [int(v) for v in rng.choice([1, 2, 3, 5, 8, 13], size=2)]
    step = 10.0 ** -decimals if decimals < 4 else 10.0 ** -int(rng.integers(0, 3))
    axes = []
    for n in (nx, ny):
        gaps = rng.integers(1, 4, size=n) if not even and rng.integers(2) else np.full(n, int(rng.integers(1, 4)))
        axes.append((np.cumsum(gaps) + int(rng.integers(-20, 20))) * step)
    x, y = axes
    order = rng.permutation(nx * ny)
    row, col = order // nx, order % nx
    dim = int(rng.choice([2, 3]))
    pos = np.stack([x[col], y[row]] + ([np.full(nx * ny, float(np.round(rng.uniform(-1, 1), 3)))] if dim == 3 else []), axis=1)
    if noise and rng.integers(2):
        pos[:, :2] += rng.uniform(-0.1, 0.1, size=(nx * ny, 2)) * 10.0 ** -max(decimals, 5)
    return pos, row, col, ny, nx, dim


@case(quick=150, thorough=4000)
def sorting(c):
    rng = c.rng
    decimals = int(rng.choice([5, 5, 1, 2, 3]))
    pos, row, col, ny, nx, dim = grid(rng, decimals)
    sd = int(rng.integers(1, 4))
    sig = rng.normal(size=(ny * nx, sd))
    if rng.random() < 0.3:
        sig = sig + 1j * rng.normal(size=sig.shape)
    elif rng.random() < 0.2:
        sig = np.arange(ny * nx * sd).reshape(ny * nx, sd)
    elif rng.random() < 0.3:  # not known everywhere
        sig[rng.random(sig.shape) < 0.2] = np.nan
    keep = pos.copy(), sig.copy()
    args = {} if decimals == 5 and rng.integers(2) else dict(pos_decimals=decimals)
    ps, ss = sfp.sort_for_imshow(pos, sig, **args)
    what = f"{ny} rows and {nx} columns, {decimals} decimals"
    c.check(ps.shape == (ny, nx, dim) and ss.shape == (ny, nx, sd), "form", f"{ps.shape} and {ss.shape} for {what}", stop=True)
    c.check(ss.dtype == sig.dtype, "type", f"{ss.dtype} instead of {sig.dtype}")
    want = np.zeros((ny, nx, sd), sig.dtype)
    want[ny - 1 - row, col] = sig  # the first row of an image is the uppermost
    c.check(np.array_equal(ss, want, equal_nan=True), "value-at-other-position", what)
    grid_pos = np.zeros((ny, nx, dim))
    grid_pos[row, col] = pos
    c.check(np.array_equal(ps, grid_pos) or np.array_equal(ps, grid_pos[::-1]), "positions", what)
    c.check(np.array_equal(pos, keep[0]) and np.array_equal(sig, keep[1], equal_nan=True), "argument-changed", what)
    c.check(tuple(sfp.get_num_pixels(pos, **args)) == (ny, nx), "pixels", f"{sfp.get_num_pixels(pos, **args)} for {what}")
    if dim == 3 and ny * nx > 1:
        off = pos.copy()
        off[0, 2] += 0.5
        c.raises(lambda: sfp.sort_for_imshow(off, sig), "not-planar", what)
    c.count("map_values", ss.size)
    c.nontrivial("sorting", ny, nx, dim, sd, decimals)


def judge_image(c, ax, pos, values, what):
    """What the picture shows at each position."""
    ims = ax.get_images()
    if not c.check(len(ims) == 1, "no-image", f"{len(ims)} images in {what}"):
        return None
    im = ims[0]
    a = np.asarray(im.get_array())
    a = a.reshape(a.shape[:2])
    left, right, bottom, top = im.get_extent()
    rows, cols = a.shape
    for (x, y), v in zip(pos[:, :2], values):
        j = 0 if cols == 1 else min(cols - 1, max(0, int(math.floor((x - left) / (right - left) * cols + 1e-9))))
        i = 0 if rows == 1 else min(rows - 1, max(0, int(math.floor((y - bottom) / (top - bottom) * rows + 1e-9))))
        shown = a[rows - 1 - i if im.origin == "upper" else i, j]
        c.check(shown == v, "shown-elsewhere", f"{shown} instead of {v} at {(x, y)} in {what}")
        c.count("shown_values")
    c.check(abs(left - pos[:, 0].min()) <= abs(right - left) / cols and abs(right - pos[:, 0].max()) <= abs(right - left) / cols, "extent", f"{im.get_extent()} in {what}")
    c.check(abs(bottom - pos[:, 1].min()) <= abs(top - bottom) / rows and abs(top - pos[:, 1].max()) <= abs(top - bottom) / rows, "extent", f"{im.get_extent()} in {what}")
    return im


def some_arrays(rng):
    arrays = [ar.MicArray("mic", rand_pos(rng, 3)), ar.ControllableSourceArray("src", rand_pos(rng, 2)), ar.RegionArray("reg", region.Disc(0.7, (0, 0, 0), (0.3, 0.3)))]
    return [arrays[i] for i in rng.permutation(3)[:int(rng.integers(1, 4))]]


def judge_arrays(c, ax, arrays, what):
    lines = {ln.get_label(): ln.get_xydata() for ln in ax.get_lines()}
    for a in arrays:
        if isinstance(a, ar.RegionArray):
            c.check(len(ax.patches) >= 1, "array-not-drawn", f"{a.name} in {what}")
        elif c.check(a.name in lines, "array-not-drawn", f"{a.name} in {what}"):
            c.same(lines[a.name], a.pos[:, :2], "array-position", f"{a.name} in {what}")


@case(quick=40, thorough=500)
def drawing(c):
    rng = c.rng
    while True:
        pos, row, col, ny, nx, dim = grid(rng, noise=False, even=True)
        if ny > 1 and nx > 1:
            break
    what = f"{ny} rows and {nx} columns"
    try:
        if rng.integers(2):
            sig = rng.normal(size=(ny * nx, 1))
            ps, ss = sfp.sort_for_imshow(pos, sig)
            fig, ax = plt.subplots(1, 1)
            arrays = some_arrays(rng) if rng.integers(2) else []
            lim = None if rng.integers(2) else (-5.0, 7.0)
            form = None if not arrays else arrays if rng.integers(2) else {a.name: a for a in arrays}
            if len(arrays) == 1 and rng.integers(2):
                form = arrays[0]
            if arrays and rng.random() < 0.3:
                form = ar.ArrayCollection()
                for a in arrays:
                    form.add_array(a)
            sfp.sf_plot(ax, ps, ss if rng.integers(2) else ss[..., 0], "a title", form, **({} if lim is None else dict(vminmax=lim)))
            im = judge_image(c, ax, pos, sig[:, 0], what)
            if im is not None:
                want = lim if lim is not None else (sig.min(), sig.max())
                c.same(np.array(im.get_clim()), np.array(want), "colour-limits", what)
            c.check(ax.get_title() == "a title", "title", ax.get_title())
            judge_arrays(c, ax, arrays, what)
        else:
            algos, each = int(rng.integers(1, 4)), int(rng.integers(1, 4))
            sig = [rng.normal(size=(each, ny * nx)) for _ in range(algos)]
            arrays = [a for a in some_arrays(rng)] if rng.integers(2) else []
            labels = [f"algo{i}" for i in range(algos)], [f"row{j}" for j in range(each)]
            sfp.compare_soundfields(pos, sig, *labels, **({} if not arrays else dict(arrays_to_plot={a.name: a for a in arrays})))
            axes = [a for a in plt.gcf().axes if a.get_title()]
            c.check(len(axes) == algos * each, "number-of-maps", f"{len(axes)} for {algos} times {each}", stop=True)
            for i in range(algos):
                for j in range(each):
                    ax = [a for a in axes if labels[0][i] in a.get_title() and labels[1][j] in a.get_title()]
                    if c.check(len(ax) == 1, "number-of-maps", f"{len(ax)} maps for {i} and {j}"):
                        judge_image(c, ax[0], pos, sig[i][j], what + f", map {i} {j} of {algos} {each}")
                        judge_arrays(c, ax[0], arrays, what)
        c.count("maps_drawn")
    finally:
        plt.close("all")
    c.nontrivial("drawing", ny, nx)


@case(quick=100, thorough=2000)
def extents(c):
    rng = c.rng
    for _ in range(10):
        arrays = [rng.normal(size=(int(rng.integers(1, 6)), int(rng.choice([2, 3]))) if rng.random() < 0.7 else (2, 3, 2)) * 10.0 ** rng.integers(-2, 3) for _ in range(int(rng.integers(1, 4)))]
        arrays = [a + rng.normal(size=a.shape[-1]) for a in arrays]
        every = np.concatenate([a.reshape(-1, a.shape[-1])[:, :2] for a in arrays])
        want = [max(p[k] for p in every) - min(p[k] for p in every) for k in (0, 1)]
        got = sfp.size_of_2d_plot(arrays if rng.integers(2) else tuple(arrays))
        c.check(np.shape(got) == (2,), "form", f"{np.shape(got)}", stop=True)
        c.same(got, want, "extent", f"{[a.shape for a in arrays]}")
        c.count("map_values", 2)
    c.nontrivial("extents", len(arrays))


@case(quick=120, thorough=3000)
def functions(c):
    rng = c.rng
    ch, n = int(rng.integers(1, 5)), int(rng.choice([1, 2, 3, 10, 100, 700]))
    x = rng.normal(size=(ch, n)) * 10.0 ** rng.integers(-3, 4)
    keep = x.copy()
    what = f"{ch} channels, {n} samples"
    low, high = sorted(float(v) for v in rng.normal(size=2) * np.abs(x).max())
    if rng.random() < 0.3:
        low = [-np.inf, None][int(rng.integers(2))]
    got = pp.clip(low, high)(x)
    c.same(got, [[min(max(v, -math.inf if low is None else low), high) for v in r] for r in x], "clip", what, rtol=0, atol=0)
    length = int(rng.choice([1, 2, 3, 7, 50, n, n + 1, 2 * n + 5]))
    sm = pp.smooth(length)
    got = sm(x)
    pad = np.concatenate([np.zeros((ch, length)), x], axis=1)
    cs = np.cumsum(pad, axis=1)
    want = (cs[:, length:] - cs[:, :-length]) / length
    scale = np.abs(x).max()
    c.same(got / scale, want / scale, "smooth", f"{what}, length {length}", atol=1e-10)
    c.same(sm(x[:, :max(1, n // 2)]) / scale, want[:, :max(1, n // 2)] / scale, "smooth-twice", f"{what}, length {length}", atol=1e-10)
    pos = np.abs(x) + 1e-12
    for name, func, ref in [("db_power", pp.db_power, lambda v: 10 * math.log10(v)), ("db_amplitude", pp.db_amplitude, lambda v: 20 * math.log10(v)),
                            ("natural_log", pp.natural_log, math.log), ("linear", pp.linear, lambda v: v)]:
        c.same(func(pos), [[ref(float(v)) for v in r] for r in pos], name, what, rtol=1e-10, atol=1e-10)
        c.count("samples", pos.size)
    cube = np.abs(rng.normal(size=(2, 3, 4))) + 0.1
    c.same(pp.db_power(cube), 10 * np.log10(cube), "db_power", "three dimensions")
    whole = rng.integers(-9, 9, size=(2, 5))
    c.same(pp.clip(-2.5, 3.75)(whole), np.minimum(np.maximum(whole, -2.5), 3.75), "clip", "whole numbers between others", rtol=0, atol=0)
    c.same(pp.clip(0.2, 0.5)(cube), np.minimum(np.maximum(cube, 0.2), 0.5), "clip", "three dimensions")
    c.check(np.array_equal(x, keep), "argument-changed", what)
    c.count("samples", 3 * x.size)
    c.nontrivial("functions", ch, n, length)


class Thing:
    pass


NAMES = ["a", "filt", "_x", "sig1", "ABC", "ä"]
KEYS = ["k", "error", "mic.1", "a b", "0", "12", "", "x[1]", "Ä", "b]", "_"]


def tree(rng, depth):
    """A value with random nesting, and the expression and direct value of everything inside."""
    kind = int(rng.integers(4)) if depth > 0 else 3
    if kind == 0:
        t, found = Thing(), []
        for name in rng.choice(NAMES, size=int(rng.integers(1, 4)), replace=False):
            v, sub = tree(rng, depth - 1)
            setattr(t, str(name), v)
            found.append((f".{name}", v))
            found += [(f".{name}" + e, w) for e, w in sub]
        return t, found
    if kind == 1:
        out, found = [], []
        n = int(rng.integers(1, 13))
        for k in range(n):
            v, sub = tree(rng, depth - 1 if k < 3 else 0)
            out.append(v)
            i = k if rng.random() < 0.8 else k - n
            found.append((f"[{i}]", v))
            found += [(f"[{i}]" + e, w) for e, w in sub]
        return (tuple(out) if rng.integers(2) else out), found
    if kind == 2:
        out, found = {}, []
        for key in rng.choice(KEYS, size=int(rng.integers(1, 5)), replace=False):
            v, sub = tree(rng, depth - 1)
            out[str(key)] = v
            found.append((f"['{key}']", v))
            found += [(f"['{key}']" + e, w) for e, w in sub]
        return out, found
    return [object(), np.zeros(2), float(rng.random()), "text"][int(rng.integers(4))], []


@case(quick=100, thorough=2500)
def attributes(c):
    rng = c.rng
    root, found = Thing(), []
    for name in NAMES[:3]:
        v, sub = tree(rng, 3)
        setattr(root, name, v)
        found.append((name, v))
        found += [(name + e, w) for e, w in sub]
    for i in rng.permutation(len(found))[:80]:
        expr, want = found[i]
        get = diacore.attritemgetter(expr)
        c.check(get(root) is want, "other-attribute", expr)
        c.count("attributes")
    # a getter reads the present state, of any object
    get = diacore.attritemgetter("state.value[1]['key']")
    for k in range(3):
        t = Thing()
        t.state = Thing()
        t.state.value = [None, {"key": k}]
        c.check(get(t) == k, "other-attribute", "of several objects")
        t.state.value = [None, {"key": k + 10}]
        c.check(get(t) == k + 10, "old-attribute", "after a change")
    for expr in ("nothing", "state.value[7]", "state.value[1]['none']"):
        c.raises(lambda: diacore.attritemgetter(expr)(t), "missing-accepted", expr)
    c.nontrivial("attributes", len(found))


@case(quick=150, thorough=3000)
def values(c):
    rng = c.rng
    ch, n = int(rng.integers(1, 4)), int(rng.integers(1, 60))
    x = rng.normal(size=(ch, n))
    miss = np.zeros(n, bool)
    for _ in range(int(rng.integers(0, 3))):
        a = int(rng.integers(0, n))
        miss[a:a + int(rng.integers(1, 20))] = True
    x[:, miss] = np.nan
    keep = copy.deepcopy(x)
    for _ in range(6):
        top = int(rng.integers(0, n + 1)) if rng.random() < 0.8 else n
        got, idx = diacore.get_values_up_to_idx(x, top)
        exp = [t for t in range(top) if not miss[t]]
        c.check(list(idx) == exp, "indices", f"{list(idx)[:9]} instead of {exp[:9]} up to {top}")
        c.same(got, keep[:, exp], "values", f"up to {top}", rtol=0, atol=0)
        times = np.sort(rng.choice(np.arange(0, 4 * n), size=n, replace=False))
        top = int(rng.choice([0, times[0], times[-1], times[-1] + 1, 4 * n, int(rng.integers(0, 4 * n))]))
        shape = (ch, n) if rng.integers(2) else (2, ch, n)
        y = np.broadcast_to(x, shape).copy() * (np.arange(shape[0]) + 1).reshape([-1] + [1] * (len(shape) - 1))
        got, when = diacore.get_values_from_selection(y, times, top)
        exp = [t for t in range(n) if not miss[t] and times[t] < top]
        c.check(list(when) == list(times[exp]), "indices", f"{list(when)[:9]} instead of {list(times[exp])[:9]} before {top}")
        c.same(got, y[..., exp], "values", f"selection before {top}", rtol=0, atol=0)
        c.count("selected", 2 * len(exp) + 1)
    one = diacore.get_values_up_to_idx(x[0], n)[0]
    c.same(one, keep[:1][:, ~miss], "values", "one dimension", rtol=0, atol=0)
    c.check(np.array_equal(x, keep, equal_nan=True), "argument-changed", "")
    c.nontrivial("values", ch, int(miss.sum()), n)
