"""C19: regions agree with their geometry in membership, grid, sampling and volume."""
import itertools
import math

import numpy as np
import scipy.stats as st

import aspsim.room.region as region
from vf.core import case

RULE = ("Random cuboids, rectangles, discs, balls, cylinders and combinations of them, with sizes that are and are not multiples of the spacing, in two and three "
        "dimensions. Monitors: membership of each of many coordinates (inside, outside, near each face, out of plane, together and alone) against the "
        "geometric definition; the grid against the set of all points of the centred lattice that are inside, and the widths of the margins; the sampled points for number, "
        "membership, reproducibility and, by Kolmogorov-Smirnov, chi-square and correlation tests with p below 1e-9, for uniform distribution; the volume "
        "against that of the shape and the share of sampled points in it. Non-trivial: distinct shapes, dimensions and kinds of size.")
ASSUMPTIONS = ["coordinates within 1e-9 of a face are not judged", "combined regions whose parts overlap by less than a fifth of a part are not judged"]
NEED = {"coordinates": 20000, "grid_points": 20000, "distribution_tests": 400, "combined": 20, "overlaps": 20, "samples": 100000, "samples_few_at_a_time": 50000}
SHAPES = ["cuboid", "rectangle", "disc", "ball", "cylinder"]


class Model:
    """A region by its geometric definition: signed distance like quantity below zero inside."""

    def __init__(self, shape, dim, center, size, spacing):
        self.shape, self.dim, self.center, self.size, self.spacing = shape, dim, np.array(center, float), size, spacing

    def depth(self, x):
        """Positive inside, negative outside, and small near faces only (not counting the plane of planar ones)."""
        d = np.asarray(x, float) - self.center
        if self.shape in ("cuboid", "rectangle"):
            k = len(self.size)
            return np.min(np.array(self.size) / 2 - np.abs(d[:, :k]), axis=1)
        if self.shape == "ball":
            return self.size - np.sqrt((d ** 2).sum(axis=1))
        if self.shape == "disc":
            return self.size - np.sqrt((d[:, :2] ** 2).sum(axis=1))
        return np.minimum(self.size[0] - np.hypot(d[:, 0], d[:, 1]), self.size[1] / 2 - np.abs(d[:, 2]))

    def planar(self):
        return self.shape in ("rectangle", "disc") and self.dim == 3

    def volume(self):
        if self.shape in ("cuboid", "rectangle"):
            return math.prod(self.size)
        return {"ball": lambda: 4 / 3 * math.pi * self.size ** 3, "disc": lambda: math.pi * self.size ** 2,
                "cylinder": lambda: math.pi * self.size[0] ** 2 * self.size[1]}[self.shape]()

    def half(self):
        """Half of the extent on each axis."""
        if self.shape in ("cuboid", "rectangle"):
            return np.array(self.size) / 2
        if self.shape == "ball":
            return np.full(3, self.size)
        if self.shape == "disc":
            return np.full(2, self.size)
        return np.array([self.size[0], self.size[0], self.size[1] / 2])

    def uniform(self, p):
        """Maps points in the region to independent variables, uniform in [0,1] for a uniform distribution."""
        d = p - self.center
        if self.shape in ("cuboid", "rectangle"):
            k = len(self.size)
            return d[:, :k] / np.array(self.size) + 0.5
        angle = np.arctan2(d[:, 1], d[:, 0]) / (2 * math.pi) + 0.5
        if self.shape == "ball":
            r = np.sqrt((d ** 2).sum(axis=1))
            return np.stack([(r / self.size) ** 3, (d[:, 2] / r + 1) / 2, angle], axis=1)
        rad = self.size if self.shape == "disc" else self.size[0]
        u = [(d[:, 0] ** 2 + d[:, 1] ** 2) / rad ** 2, angle]
        if self.shape == "cylinder":
            u.append(d[:, 2] / self.size[1] + 0.5)
        return np.stack(u, axis=1)


def some_size(rng, spacing, most):
    """A length, often a (nearly) exact multiple of the spacing."""
    n = int(rng.integers(1, most))
    kind = int(rng.integers(4))
    if kind == 0:
        return max(round(n * spacing, 6), spacing)
    if kind == 1:
        return n * spacing
    return float((n + rng.random()) * spacing)


def make(rng, shape=None, center=None, seed=None, dim=None, like=None):
    shape = shape or str(rng.choice(SHAPES))
    if dim is None:
        dim = int(rng.choice([2, 3])) if shape in ("rectangle", "disc") else 3
    k = 2 if shape in ("rectangle", "disc") else 3
    spacing = [float(rng.choice([0.1, 0.2, 0.05, 0.25, 0.3, 1.0, 0.7])) if rng.integers(2) else float(rng.uniform(0.05, 1)) for _ in range(k)]
    if rng.integers(2):
        spacing = [spacing[0]] * k
    if center is None:
        center = [float(v) for v in np.round(rng.uniform(-4, 4, size=dim), int(rng.integers(0, 5)))]
    seed = int(rng.integers(1 << 30)) if seed is None else seed
    gen = np.random.default_rng(seed)
    cen = [tuple, list, np.array][int(rng.integers(3))](center)
    spc = [tuple, list, np.array][int(rng.integers(3))](spacing)
    if shape in ("cuboid", "rectangle"):
        size = [some_size(rng, s, 9 if k == 3 else 20) for s in spacing]
        given = [tuple, list, np.array][int(rng.integers(3))](size)
        if shape == "cuboid":
            reg = region.Cuboid(given, cen, spc, gen)
        else:
            reg = region.Rectangle(given, cen, spc, dim, gen)
    elif shape == "disc":
        size = some_size(rng, max(spacing), 10)
        reg = region.Disc(size, cen, spc, dim, gen)
    elif shape == "ball":
        size = some_size(rng, max(spacing), 5)
        reg = region.Ball(size, cen, spc, gen)
    else:
        size = [some_size(rng, max(spacing[:2]), 5), some_size(rng, spacing[2], 9)]
        reg = region.Cylinder(size[0], size[1], cen, spc, gen)
    return reg, Model(shape, dim, center, size, spacing), seed


def clone(model, seed):
    gen = np.random.default_rng(seed)
    m = model
    if m.shape == "cuboid":
        return region.Cuboid(m.size, m.center, m.spacing, rng=gen)
    if m.shape == "rectangle":
        return region.Rectangle(m.size, m.center, m.spacing, spatial_dim=m.dim, rng=gen)
    if m.shape == "disc":
        return region.Disc(m.size, m.center, m.spacing, spatial_dim=m.dim, rng=gen)
    if m.shape == "ball":
        return region.Ball(m.size, m.center, m.spacing, rng=gen)
    return region.Cylinder(m.size[0], m.size[1], m.center, m.spacing, rng=gen)


def describe(m):
    return f"{m.shape} of size {m.size} at {m.center.tolist()} with spacing {m.spacing}"


def coordinates(rng, m, n=120):
    """Coordinates in and around the region, also off its plane and near its faces."""
    half = m.half()
    k = len(half)
    x = np.tile(m.center, (n, 1))
    x[:, :k] += rng.uniform(-1.3, 1.3, size=(n, k)) * half
    near = rng.random((n, k)) < 0.15
    face = rng.choice([-1, 1], size=(n, k)) * half * (1 + rng.choice([-1, 1], size=(n, k)) * rng.choice([1e-6, 1e-3, 0.05], size=(n, k)))
    x[:, :k] = np.where(near, m.center[:k] + face, x[:, :k])
    one = rng.random(n) < 0.3  # on an axis through the centre, where only one condition decides
    axis = rng.integers(0, k, size=n)
    keep = np.arange(k)[None, :] == axis[:, None]
    x[:, :k] = np.where(one[:, None] & ~keep, m.center[:k], x[:, :k])
    off = np.zeros(n, bool)
    if m.planar():
        off = rng.random(n) < 0.3
        x[off, 2] += rng.choice([-1, 1], size=off.sum()) * rng.choice([5e-4, 0.01, 0.3, 5], size=off.sum())
    return x, off


def judge_membership(c, reg, m, rng):
    x, off = coordinates(rng, m)
    depth = m.depth(x)
    want = (depth > 0) & ~off
    sure = np.abs(depth) > 1e-9
    got = reg.is_in_region(x)
    c.check(isinstance(got, np.ndarray) and got.shape == (len(x),) and got.dtype == bool, "membership-form", f"{type(got)} {np.shape(got)}", stop=True)
    bad = np.flatnonzero(sure & (got != want))
    c.check(len(bad) == 0, "membership", lambda: f"{x[bad[0]]} {'in' if got[bad[0]] else 'not in'} the {describe(m)}, depth {depth[bad[0]]}")
    for i in rng.choice(len(x), size=12):  # the same alone and in other company
        if sure[i]:
            c.check(bool(reg.is_in_region(x[i:i + 1])[0]) == want[i], "membership-alone", f"{x[i]} in the {describe(m)}")
            j = np.concatenate([[i], rng.integers(0, len(x), size=3)])
            c.check(bool(reg.is_in_region(x[j])[0]) == want[i], "membership-company", f"{x[i]} in the {describe(m)}")
    if m.shape == "cylinder":
        i = int(rng.integers(len(x)))
        if sure[i]:
            c.check(np.array(reg.is_in_region(x[i])).item() == want[i], "membership-one", f"{x[i]} in the {describe(m)}")
    if m.shape in ("cuboid", "rectangle"):
        pad = rng.uniform(0, 0.5, size=(1, len(m.size)))
        wide = Model(m.shape, m.dim, m.center, (np.array(m.size) + 2 * pad[0]).tolist(), m.spacing)
        wd = wide.depth(x)
        got = reg.is_in_region(x, padding=pad)
        bad = np.flatnonzero((np.abs(wd) > 1e-9) & (got != ((wd > 0) & ~off)))
        c.check(len(bad) == 0, "membership-padded", lambda: f"{x[bad[0]]} with {pad} of the {describe(m)}")
    c.count("coordinates", len(x))
    c.count("inside", want.sum())


def judge_grid(c, reg, m, grid=None, spacing=None):
    p = reg.equally_spaced_points() if grid is None else grid
    d = np.array(m.spacing if spacing is None else spacing, float)
    c.check(p.ndim == 2 and p.shape[1] == m.dim and len(p) > 0, "grid-form", f"{p.shape} for {describe(m)}", stop=True)
    half = m.half()
    k = len(half)
    c.check(bool(np.all(m.depth(p) > -1e-9)), "grid-outside", f"{p[np.argmin(m.depth(p))]} for {describe(m)}")
    if m.planar():
        c.check(bool(np.all(p[:, 2] == m.center[2])), "grid-off-plane", f"{describe(m)}")
    deep = m.depth(p) > 1e-9
    c.check(bool(np.all(reg.is_in_region(p)[deep])), "grid-not-in-region", f"{describe(m)}")
    # On the lattice with the spacing, centred: multiples of the spacing, or of the spacing and a half, from the centre
    u = (p[:, :k] - m.center[:k]) / d
    parity = []
    for a in range(k):
        whole, mid = np.abs(u[:, a] - np.round(u[:, a])).max(), np.abs(u[:, a] - 0.5 - np.round(u[:, a] - 0.5)).max()
        if not c.check(min(whole, mid) < 1e-6, "grid-irregular", f"axis {a} of {describe(m)}: {np.unique(np.round(p[:, a], 6))[:6]}"):
            return
        parity.append(0.0 if whole < mid else 0.5)
    idx = np.round(u - parity).astype(int)
    have = set(map(tuple, idx.tolist()))
    c.check(len(have) == len(p), "grid-repeated", f"{len(p)} points, {len(have)} different, for {describe(m)}")
    span = [np.arange(-math.ceil(h / s) - 1, math.ceil(h / s) + 2) for h, s in zip(half, d)]
    lattice = np.array(list(itertools.product(*span)))
    pts = np.tile(m.center, (len(lattice), 1))
    pts[:, :k] += (lattice + parity) * d
    inside = m.depth(pts) > 1e-9
    missing = set(map(tuple, lattice[inside].tolist())) - have
    c.check(not missing, "grid-gap", lambda: f"{len(missing)} of {int(inside.sum())} lattice points inside are missing for {describe(m)}")
    # Nowhere along an axis is a strip as wide as the spacing without points
    for a in range(k):
        if m.shape in ("cuboid", "rectangle"):
            low, high = p[:, a].min() - (m.center[a] - half[a]), m.center[a] + half[a] - p[:, a].max()
            c.check(abs(low - high) < 1e-9, "grid-not-centred", f"margins {low} and {high} on axis {a} of {describe(m)}")
            c.check(max(low, high) < d[a] * (1 - 1e-11), "grid-margin", f"margin {low} on axis {a} of {describe(m)}")
    c.count("grid_points", len(p))


def judge_uniform(c, u, what):
    """u: independent uniform variables, one column each."""
    n = len(u)
    c.check(bool(np.all((u > -1e-9) & (u < 1 + 1e-9))), "sample-outside", f"{what}")
    for a in range(u.shape[1]):
        pval = st.kstest(u[:, a], "uniform").pvalue
        c.check(pval > 1e-9, "not-uniform", lambda: f"variable {a} of {what}: p={pval}, deciles {np.quantile(u[:, a], np.arange(0.1, 1, 0.1)).round(3)}")
        c.count("distribution_tests")
        # independent of the previous point
        r = st.spearmanr(u[:-1, a], u[1:, a]).statistic
        c.check(abs(r) * math.sqrt(n) < 6.5, "dependent-points", f"variable {a} of {what}: correlation {r} of successive points")
        c.count("distribution_tests")
    for a, b in itertools.combinations(range(u.shape[1]), 2):
        cells = np.floor(np.clip(u[:, a], 0, 0.999999) * 6).astype(int) * 6 + np.floor(np.clip(u[:, b], 0, 0.999999) * 6).astype(int)
        pval = st.chisquare(np.bincount(cells, minlength=36)).pvalue
        c.check(pval > 1e-9, "not-uniform-jointly", f"variables {a} and {b} of {what}: p={pval}")
        c.count("distribution_tests")


def judge_samples(c, reg, m, seed, rng):
    twin = clone(m, seed)
    nums = [int(v) for v in rng.choice([1, 2, 3, 7, 50], size=2)] + [3000]
    c.check(reg.sample_points(0).shape == (0, m.dim), "sample-form", f"no points of {describe(m)}")
    twin.sample_points(0)
    pts = []
    for n in nums:
        p, q = reg.sample_points(n), twin.sample_points(n)
        c.check(p.shape == (n, m.dim), "sample-form", f"{p.shape} for {n} of {describe(m)}", stop=True)
        c.check(bool(np.array_equal(p, q)), "not-reproducible", f"{describe(m)} with the same generator")
        c.check(bool(np.all(m.depth(p) > -1e-9)), "sample-outside", f"{describe(m)}")
        if m.planar():
            c.check(bool(np.all(p[:, 2] == m.center[2])), "sample-off-plane", f"{describe(m)}")
        deep = m.depth(p) > 1e-9
        c.check(bool(np.all(reg.is_in_region(p)[deep])), "sample-not-in-region", f"{describe(m)}")
        pts.append(p)
        c.count("samples", n)
    c.check(len(np.unique(np.concatenate(pts), axis=0)) == sum(nums), "repeated-samples", f"{describe(m)}")
    judge_uniform(c, m.uniform(pts[-1]), describe(m))
    few = np.concatenate([reg.sample_points(int(k)) for k in rng.integers(1, 4, size=400)])
    c.check(bool(np.all(m.depth(few) > -1e-9)), "sample-outside", f"{describe(m)}")
    judge_uniform(c, m.uniform(few), f"{describe(m)}, few points at a time")
    c.count("samples_few_at_a_time", len(few))
    other = clone(m, seed + 1).sample_points(5)
    c.check(not np.array_equal(other, clone(m, seed).sample_points(5)), "generator-ignored", f"{describe(m)}")


@case(quick=400, thorough=4000)
def single(c):
    rng = c.rng
    shape = SHAPES[c.index % len(SHAPES)]
    reg, m, seed = make(rng, shape)
    c.note(region=describe(m))
    c.check(abs(reg.volume - m.volume()) < 1e-9 * max(1, m.volume()), "volume", f"{reg.volume} instead of {m.volume()} for {describe(m)}")
    judge_membership(c, reg, m, rng)
    judge_grid(c, reg, m)
    if shape == "cuboid":
        if rng.integers(2):
            d = float(min(m.size)) / float(rng.integers(2, 5))
            judge_grid(c, reg, m, reg.equally_spaced_points(d), [d] * 3)
            judge_grid(c, reg, m, reg.equally_spaced_points(point_dist=[d, 2 * d, d / 2] if min(m.size) > 2 * d else [d] * 3),
                       [d, 2 * d, d / 2] if min(m.size) > 2 * d else [d] * 3)
    judge_samples(c, reg, m, seed, rng)
    judge_grid(c, reg, m)
    exact = [abs(2 * h / s - round(2 * h / s)) < 1e-9 for h, s in zip(m.half(), m.spacing)]
    c.nontrivial("single", shape, m.dim, all(exact), any(exact), len(set(m.spacing)) == 1)


def disjoint(rng, n, dim=None):
    """Regions beside each other, far enough apart; all of the same kind of volume."""
    kinds = ["cuboid", "ball", "cylinder"] if rng.integers(2) else ["rectangle", "disc"]
    dim = int(rng.choice([2, 3])) if kinds[0] == "rectangle" else 3
    out, at = [], float(rng.uniform(-3, 3))
    plane = float(np.round(rng.uniform(-1, 1), 3))
    for _ in range(n):
        while True:
            shape = str(rng.choice(kinds))
            reg, m, seed = make(rng, shape, center=[0.0] * dim, dim=dim)
            half = m.half()
            center = [at + half[0] + 0.01, float(rng.uniform(-0.2, 0.2)), plane][:dim]
            m = Model(shape, dim, center, m.size, m.spacing)
            seed = int(rng.integers(1 << 30))
            if 0.01 < m.volume() < 500:
                break
        at = center[0] + half[0] + float(rng.choice([0.01, 0.5]))
        out.append((clone(m, seed), m, seed))
    order = rng.permutation(n)
    return [out[i] for i in order]


@case(quick=120, thorough=1500)
def combined(c):
    rng = c.rng
    parts = disjoint(rng, int(rng.integers(1, 5)))
    models = [p[1] for p in parts]
    seed = int(rng.integers(1 << 30))
    what = " and ".join(describe(m) for m in models)
    reg = region.CombinedRegion([p[0] for p in parts], np.random.default_rng(seed))
    twin = region.CombinedRegion([clone(m, s) for _, m, s in parts], rng=np.random.default_rng(seed))
    vols = np.array([m.volume() for m in models])
    c.check(abs(reg.volume - vols.sum()) < 1e-9 * max(1, vols.sum()), "volume", f"{reg.volume} instead of {vols.sum()} for {what}")
    x = np.concatenate([coordinates(rng, m, 60)[0] for m in models])

    def inside(x, tol=0.0):
        on = [(m.depth(x) > tol) & (np.abs(x[:, 2] - m.center[2]) < 1e-6 if m.planar() else True) for m in models]
        return np.array(on)
    want = inside(x).any(axis=0)
    sure = np.all([np.abs(m.depth(x)) > 1e-9 for m in models], axis=0)
    got = reg.is_in_region(x)
    c.check(got.shape == want.shape, "membership-form", f"{got.shape}", stop=True)
    bad = np.flatnonzero(sure & (got != want))
    c.check(len(bad) == 0, "membership-combined", lambda: f"{x[bad[0]]} {'in' if got[bad[0]] else 'not in'} {what}")
    grid = reg.equally_spaced_points()
    parts_grid = np.concatenate([clone(m, 0).equally_spaced_points() for m in models])
    c.check(grid.shape == parts_grid.shape and np.allclose(sorted(map(tuple, grid.tolist())), sorted(map(tuple, parts_grid.tolist())), rtol=0, atol=1e-9), "grid-combined", f"{what}")
    n = 4000
    for k in [0, int(rng.integers(1, 40)), n]:
        p = reg.sample_points(k)
        c.check(np.array_equal(p, twin.sample_points(k)), "not-reproducible", f"{what}")
        c.check(p.shape == (k, models[0].dim), "sample-form", f"{p.shape} for {k}", stop=True)
        on = inside(p, -1e-9)
        c.check(bool(np.all(on.sum(axis=0) == 1)), "sample-outside", f"{what}")
    num = on.sum(axis=1)
    if len(models) > 1:
        for j, (a, v) in enumerate(zip(num, vols)):
            pval = st.binomtest(int(a), n, v / vols.sum()).pvalue
            c.check(pval > 1e-9, "not-in-proportion", f"{a} of {n} points in part {j} with {v / vols.sum():.4f} of the volume of {what}")
            c.count("distribution_tests")
    for j, m in enumerate(models):
        if num[j] > 400:
            judge_uniform(c, m.uniform(p[on[j]]), f"part {j} of {what}")
    most = int(rng.choice([1, 2, 5, 12]))
    p = np.concatenate([reg.sample_points(int(k)) for k in rng.integers(1, most + 1, size=500)])
    on = inside(p, -1e-9)
    c.check(bool(np.all(on.sum(axis=0) == 1)), "sample-outside", f"{what}, few points at a time")
    for j, v in enumerate(vols):
        share = v / vols.sum()
        if len(models) > 1:
            pval = st.binomtest(int(on[j].sum()), len(p), share).pvalue
            c.check(pval > 1e-9, "not-in-proportion", f"{on[j].sum()} of {len(p)} points, up to {most} at a time, in part {j} with {share:.4f} of the volume of {what}")
            c.count("distribution_tests")
    c.count("samples_few_at_a_time", len(p))
    c.count("samples", n)
    c.count("coordinates", len(x))
    c.count("grid_points", len(grid))
    c.count("combined")
    c.nontrivial("combined", tuple(sorted(m.shape for m in models)), models[0].dim)


@case(quick=120, thorough=1500)
def overlapping(c):
    """Two regions of which at least a fifth of one is in the other are refused, in any order and among others."""
    rng = c.rng
    few, most = bool(c.index % 2), 1.4 if c.index % 2 else 0.9
    for _ in range(60):
        kinds = ["cuboid", "ball", "cylinder"] if rng.integers(2) else ["rectangle", "disc"]
        dim = 2 if kinds[0] == "rectangle" else 3
        a = make(rng, str(rng.choice(kinds)), dim=dim)
        b = make(rng, str(rng.choice(kinds)), dim=dim, center=(a[1].center + rng.uniform(-most, most, dim) * a[1].half()).tolist())
        t = np.random.default_rng(1)
        in_b = np.mean(b[1].depth(a[0].sample_points(400)) > 0)
        in_a = np.mean(a[1].depth(b[0].sample_points(400)) > 0)
        if few and (a[1].depth(b[1].center[None])[0] > 0 or b[1].depth(a[1].center[None])[0] > 0):
            continue
        if max(in_a, in_b) > 0.22:
            break
    else:
        return
    far = make(rng, str(rng.choice(kinds)), dim=dim, center=[500.0] * dim)
    if few:  # the fixed points do not tell
        for r in (a, b):
            r[1].spacing = [20.0] * len(r[1].spacing)
    regs = [clone(r[1], int(t.integers(1 << 30)) + c.index) for r in (a, b, far)][:2 + int(rng.integers(2))]
    regs = [regs[i] for i in rng.permutation(len(regs))]
    c.raises(lambda: region.CombinedRegion(regs), "overlap-accepted", f"{describe(a[1])} and {describe(b[1])}, shares {in_a} and {in_b}")
    c.count("overlaps")
    c.nontrivial("overlap", a[1].shape, b[1].shape, len(regs), in_a > 0.4, in_b > 0.4, a[1].spacing[0] > 10)
