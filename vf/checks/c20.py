"""C20: generated point patterns have the documented count, spacing and position."""
import itertools
import math

import numpy as np
from scipy.sparse import csr_matrix
from scipy.sparse.csgraph import maximum_bipartite_matching
from scipy.spatial.distance import cdist

import aspsim.room.generatepoints as gp
from vf.core import case

RULE = ("Every generator and conversion is called with random numbers of points, sizes, offsets, angles and heights, including the limits (offset 0 and 1, one point, corners, "
        "axes, the origin, height 0). Monitors: the number of points and a one-to-one matching with an independently calculated pattern (positions along the perimeter, "
        "angles, radii, lattices, heights), angle conventions and inverse conversions, reproducibility with equal generators, and unchanged arguments. "
        "Non-trivial: distinct generators, numbers of points and options.")
ASSUMPTIONS = ["patterns on several circles have at least one point for each circle", "where the documentation gives no order of the points, only the set is judged",
               "which points are moved out by extra_side_lengths is judged within each side"]
NEED = {"points": 20000, "conversions": 10000, "patterns": 900}


def match(c, got, want, key, msg, tol=1e-7):
    """One-to-one: every point wanted, and no other, in any order. want: array or list of arrays of alternatives."""
    alts = want if isinstance(want, list) else [want]
    n = len(alts[0])
    if not c.check(got.shape == (n, alts[0].shape[1]), "count", lambda: f"{msg}: shape {got.shape} instead of {(n, alts[0].shape[1])}"):
        return False
    c.count("points", n)
    c.count("patterns")
    if n == 0:
        return True
    ok = np.any([cdist(got, a) < tol for a in alts], axis=0)
    pairs = maximum_bipartite_matching(csr_matrix(ok), perm_type="column")
    bad = np.flatnonzero(pairs < 0)
    return c.check(len(bad) == 0, key, lambda: f"{msg}: {len(bad)} of {n} points are elsewhere, such as {got[bad[0]]}")


def perimeter(sides, at):
    """Points at distances `at` clockwise from the upper left corner, and the outward normals (two for corners)."""
    sx, sy = sides
    corners = np.array([[-sx / 2, sy / 2], [sx / 2, sy / 2], [sx / 2, -sy / 2], [-sx / 2, -sy / 2]])
    lengths, normals = [sx, sy, sx, sy], np.array([[0, 1], [1, 0], [0, -1], [-1, 0]], float)
    pts, n1, n2, side = [], [], [], []
    for a in at:
        a = a % (2 * (sx + sy))
        for s in range(4):
            if a <= lengths[s] or s == 3:
                d = (corners[(s + 1) % 4] - corners[s]) / lengths[s]
                pts.append(corners[s] + d * a)
                n1.append(normals[s])
                tol = 1e-9 * (sx + sy)
                n2.append(normals[(s + 1) % 4] if a > lengths[s] - tol else normals[(s - 1) % 4] if a < tol else normals[s])
                side.append(s if tol <= a <= lengths[s] - tol else -1)
                break
            a -= lengths[s]
    return np.array(pts).reshape(-1, 2), np.array(n1).reshape(-1, 2), np.array(n2).reshape(-1, 2), np.array(side)


def rectangle_options(sides, n, offset):
    """The pattern for each corner that may be the first, in each direction."""
    circ = 2 * sum(sides)
    at = (np.arange(n) + offset) * circ / n
    starts = [0, sides[0], sum(sides), sides[0] + sum(sides)]
    return [(s + sign * at) % circ for s in starts for sign in (1, -1)]


def judge_rectangle(c, got, sides, n, offset, extra, msg):
    if not c.check(got.shape == (n, 2), "count", f"{msg}: shape {got.shape}"):
        return
    ex = np.array(extra, float)
    for at in rectangle_options(sides, n, offset):
        base, n1, n2, side = perimeter(sides, at)
        alts = [base, base + n1 * ex / 2, base + n2 * ex / 2]
        ok = np.any([cdist(got, a) < 1e-7 for a in alts], axis=0)
        if np.all(maximum_bipartite_matching(csr_matrix(ok), perm_type="column") >= 0):
            break
    else:
        c.fail("rectangle-position", f"{msg}: {got[:8].tolist()}")
        return
    if np.all(ex > 1e-6) and min(sides) > 1e-3:
        out = ~(cdist(got, base) < 1e-7).any(axis=1)
        c.check(out.sum() == n // 2, "extra-share", f"{msg}: {out.sum()} of {n} points are moved out")
        dist = cdist(got, base + 0 * n1)
        owner = np.argmin(np.minimum(dist, np.minimum(cdist(got, alts[1]), cdist(got, alts[2]))), axis=1)
        for s in range(4):
            mine = [k for k in range(n) if side[owner[k]] == s]
            mine.sort(key=lambda k: base[owner[k]] @ np.array([1.0, 1.0]))
            flags = [bool(out[k]) for k in mine]
            c.check(all(a != b for a, b in zip(flags, flags[1:])), "extra-alternation", f"{msg}: side {s} has {flags}")
    c.count("points", n)
    c.count("patterns")


def same_form(rng, v):
    return [tuple, list, np.array][int(rng.integers(3))](v)


@case(quick=400, thorough=4000)
def rectangles(c):
    rng = c.rng
    for _ in range(4):
        n = int(rng.choice([1, 2, 3, 4, 5, 8, 12, 13, 16, 24, 31, 48, 60]))
        sides = [float(v) for v in (np.round(rng.uniform(0.2, 6, 2), int(rng.integers(0, 4))) + 0.1)]
        if rng.random() < 0.4:
            sides = [sides[0]] * 2
        elif rng.random() < 0.2:
            sides = [1, 2] if rng.integers(2) else [3, 1]
        offset = float(rng.choice([0, 0.5, 1, 0.25, 0.999999999])) if rng.integers(2) else float(rng.random())
        extra, arg = [0, 0], {}
        kind = int(rng.integers(4))
        if kind == 1:
            e = float(rng.choice([0.3, 1, 2.0]))
            extra, arg = [e, e], dict(extra_side_lengths=e)
        elif kind == 2:
            extra = [float(rng.uniform(0.05, 1)) for _ in range(2)]
            arg = dict(extra_side_lengths=same_form(rng, extra))
        z = None if rng.integers(2) else float(rng.choice([0, 0.0, 1.3, -0.5]))
        given = same_form(rng, sides)
        args = dict(arg, **({} if z is None else dict(z=z)), **({} if offset == 0.5 and rng.integers(2) else dict(offset=offset)))
        msg = f"{n} points, sides {sides}, {args}"
        got = gp.equidistant_rectangle(n, given, **args)
        if z is not None:
            c.check(got.ndim == 2 and got.shape[1] == 3, "height", f"{msg}: {got.shape}", stop=True)
            c.check(bool(np.all(got[:, 2] == z)), "height", f"{msg}: {got[:, 2]}")
            got = got[:, :2]
        judge_rectangle(c, got, sides, n, offset, extra, msg)
        c.check(list(given) == sides, "argument-changed", msg)
        c.nontrivial("rectangle", n, kind, z is None, sides[0] == sides[1], offset in (0, 1))


@case(quick=400, thorough=4000)
def circles(c):
    rng = c.rng
    n = int(rng.choice([1, 2, 3, 4, 7, 16, 33]))
    inner = float(rng.uniform(0.1, 3))
    outer = inner + float(rng.uniform(0.1, 2))
    ring = bool(rng.integers(2))
    start = float(rng.choice([0, math.pi, -1, 7, 100.5])) if rng.integers(2) else float(rng.uniform(-7, 7))
    z = None if rng.integers(2) else float(rng.choice([0.0, 1.3, -0.5]))
    radius = (inner, outer) if ring else (inner if rng.integers(2) else int(math.ceil(inner)))
    seed = int(rng.integers(1 << 30))
    args = {} if z is None else dict(z=z)
    got = gp.equiangular_circle(n, radius, start, rng=np.random.default_rng(seed), **args)
    msg = f"{n} points, radius {radius}, start {start}, z {z}"
    c.check(got.shape == (n, 2 if z is None else 3), "count", f"{msg}: {got.shape}", stop=True)
    c.check(z is None or bool(np.all(got[:, 2] == z)), "height", msg)
    r = np.hypot(got[:, 0], got[:, 1])
    if ring:
        c.check(bool(np.all((r >= inner - 1e-9) & (r <= outer + 1e-9))), "ring", f"{msg}: {r}")
        c.check(n < 3 or len(np.unique(r)) == n, "ring-radii", f"{msg}: {r}")
        c.same(gp.equiangular_circle(n, list(radius), start, rng=np.random.default_rng(seed), **args), got, "not-reproducible", msg)
        other = gp.equiangular_circle(n, radius, start, rng=np.random.default_rng(seed + 1), **args)
        c.check(not np.array_equal(other, got), "generator-ignored", msg)
        many = gp.equiangular_circle(2000, radius, start, rng=np.random.default_rng(seed))
        import scipy.stats as st
        u = (np.hypot(many[:, 0], many[:, 1]) - inner) / (outer - inner)
        c.check(st.kstest(u, "uniform").pvalue > 1e-9, "ring-not-uniform", f"{msg}: deciles {np.quantile(u, np.arange(0.1, 1, 0.1)).round(3)}")
    else:
        c.same(r, np.full(n, float(radius)), "radius", msg)
    # The k-th point is at the k-th angle, the first at the start angle
    want = start + 2 * math.pi * np.arange(n) / n
    c.same(got[:, :2] / r[:, None], np.stack([np.cos(want), np.sin(want)], axis=1), "angle", msg)
    c.count("points", n)
    c.count("patterns")
    c.nontrivial("circle", n, ring, z is None, start == 0)


@case(quick=250, thorough=3000)
def stacks(c):
    """Several circles or rectangles, with heights centred around zero."""
    rng = c.rng
    num = int(rng.integers(1, 6))
    n = num + int(rng.integers(0, 30))
    dz = None if rng.random() < 0.3 else float(rng.choice([0.1, 0.5, 1.0]))
    radius = float(rng.uniform(0.3, 3))
    mode = str(rng.choice(["distribute", "same", "random", "almostSame"]))
    args = {} if mode == "distribute" and rng.integers(2) else dict(angle_offset=mode)
    got = gp.concentrical_circles(n, num, radius, dz, **args)
    msg = f"{n} points on {num} circles, radius {radius}, distance {dz}, {mode}"
    c.check(got.shape == (n, 2 if dz is None else 3), "count", f"{msg}: {got.shape}", stop=True)
    c.same(np.hypot(got[:, 0], got[:, 1]), np.full(n, radius), "radius", msg)
    each = [n // num + (k < n % num) for k in range(num)]
    if dz is not None:
        want = (np.arange(num) - (num - 1) / 2) * dz
        levels, counts = np.unique(np.round(got[:, 2], 9), return_counts=True)
        c.same(levels, want, "heights", msg)
        c.check(sorted(counts.tolist()) == sorted(each), "points-per-level", f"{msg}: {counts}")
    at = 0
    for k in range(num):  # in the order of the circles
        ang = np.arctan2(got[at:at + each[k], 1], got[at:at + each[k], 0])
        c.same(np.exp(1j * (ang - ang[0])), np.exp(2j * math.pi * np.arange(each[k]) / each[k]), "angle", msg)
        section = 2 * math.pi / each[0]
        first = ang[0] % (2 * math.pi)
        if mode == "same":
            c.same(np.exp(1j * first), 1.0 + 0j, "first-angle", msg)
        elif mode == "distribute":
            c.same(np.exp(1j * first), np.exp(1j * section * k / num), "first-angle", msg)
        elif mode == "almostSame":
            c.check(first <= section / 10 + 1e-9 or first >= 2 * math.pi - 1e-9, "first-angle", f"{msg}: {first}")
        at += each[k]
    c.count("points", n)
    c.count("patterns")

    sides = [float(v) for v in rng.uniform(0.5, 4, 2)]
    num, n, dz = int(rng.integers(1, 5)), int(rng.integers(1, 40)), float(rng.choice([0.2, 1.0]))
    got = gp.stacked_equidistant_rectangles(n, num, same_form(rng, sides), dz)
    msg = f"{n} points on {num} rectangles {sides}, distance {dz}"
    c.check(got.shape == (n, 3), "count", f"{msg}: {got.shape}", stop=True)
    at = 0
    for k in range(num):
        m = n // num + (k < n % num)
        c.same(got[at:at + m, 2], np.full(m, (k - (num - 1) / 2) * dz), "heights", msg)
        judge_rectangle(c, got[at:at + m, :2], sides, m, (2 * k + 1) / (2 * num), [0, 0], msg + f" number {k}")
        at += m

    n, side, off, low, high = int(rng.integers(1, 60)), float(rng.uniform(1, 4)), float(rng.uniform(0.05, 0.4)), float(rng.uniform(-1, 0)), float(rng.uniform(0.1, 1))
    got = gp.four_equidistant_rectangles(n, side, off, low, high)
    msg = f"{n} points on four rectangles of {side}, offset {off}"
    c.check(got.shape == (n, 3), "count", f"{msg}: {got.shape}", stop=True)
    ex = [2 * off, 2 * off]
    judge_rectangle(c, got[:, :2], [side, side], n, 0.5, ex, msg)
    outer = np.abs(got[:, :2]).max(axis=1) > side / 2 + off / 2
    four = [int(((got[:, 2] == z) & (outer == o)).sum()) for z in (low, high) for o in (False, True)]
    c.check(sum(four) == n, "heights", f"{msg}: {four}")
    c.check(max(four) - min(four) <= 1, "points-per-level", f"{msg}: {four}")
    c.nontrivial("stack", num, mode, dz, n % 4)


@case(quick=250, thorough=3000)
def filled(c):
    rng = c.rng
    # sunflower: the k-th point at the k-th multiple of the golden angle, with equal areas
    n, radius, off = int(rng.integers(1, 80) if rng.random() < 0.8 else rng.integers(80, 700)), float(rng.uniform(0.2, 4)), 0 if rng.integers(2) else float(rng.uniform(-7, 7))
    got = gp.sunflower_pattern(n, radius, off) if off else gp.sunflower_pattern(n, radius)
    msg = f"{n} points in radius {radius}, offset {off}"
    c.check(got.shape == (n, 2), "count", f"{msg}: {got.shape}", stop=True)
    r = np.hypot(got[:, 0], got[:, 1])
    c.check(bool(np.all(r <= radius * (1 + 1e-12))), "sunflower-outside", f"{msg}: {r.max()}")
    c.same(np.sort(r) ** 2 / radius ** 2 * (n - 0.5), np.arange(1, n + 1) - 0.5, "sunflower-radius", msg)
    golden = 2 * math.pi / ((1 + math.sqrt(5)) / 2) ** 2
    u = (got[:, 0] + 1j * got[:, 1]) / r
    c.same(u[1:] / u[:-1], np.full(n - 1, np.exp(1j * golden)), "sunflower-angle", msg, atol=1e-7)
    zero = gp.sunflower_pattern(n, radius)
    c.same(u / ((zero[:, 0] + 1j * zero[:, 1]) / np.hypot(zero[:, 0], zero[:, 1])), np.full(n, np.exp(1j * off)), "sunflower-offset", msg, atol=1e-7)

    # square grid in a rectangle
    m = int(rng.integers(1, 12))
    z = None if rng.integers(2) else float(rng.choice([0.0, 0.7]))
    kind = int(rng.integers(3))
    if kind == 0:
        lim, x, y = None, (-2.4, 2.4), (-2.4, 2.4)
    elif kind == 1:
        a, b = float(rng.uniform(-3, 0)), float(rng.uniform(0.5, 3))
        lim, x, y = (a, b), (a, b), (a, b)
    else:
        a = rng.uniform(-3, 0, 2).tolist() + rng.uniform(0.5, 3, 2).tolist()
        lim, x, y = tuple(a), (a[0], a[2]), (a[1], a[3])
    args = dict(**({} if z is None else dict(z_axis=z)), **({} if lim is None else dict(lim=lim)))
    got = gp.uniform_filled_rectangle(m * m, **args)
    want = np.array(list(itertools.product(np.linspace(*x, m), np.linspace(*y, m), *([[z]] if z is not None else []))))
    match(c, got, want, "filled-rectangle", f"{m * m} points, {args}")
    if m > 1:
        c.raises(lambda: gp.uniform_filled_rectangle(m * m + 1, **args), "not-a-square", f"{m * m + 1}")

    # cells of a cuboid
    m, k = int(rng.integers(1, 7)), int(rng.integers(1, 6))
    dims = rng.uniform(0.5, 4, 3).tolist()
    args = {} if k == 4 else dict(z_num_points=k)
    got = gp.uniform_filled_cuboid(m * m * k, same_form(rng, dims), **args)
    axes = [(np.arange(q) + 0.5) / q * d - d / 2 for q, d in zip((m, m, k), dims)]
    match(c, got, np.array(list(itertools.product(*axes))), "filled-cuboid", f"{m}x{m}x{k} points in {dims}")

    # square grid in a disc: symmetric, regular, complete
    radius, num = float(rng.uniform(0.3, 3)), int(rng.integers(2, 25))
    dist = 2 * radius / (num + (0.0 if rng.random() < 0.2 else float(rng.uniform(0.01, 0.99))))
    got = gp.uniform_disc(dist, radius, **({} if z is None else dict(z_axis=z)))
    msg = f"distance {dist} in radius {radius}"
    c.check(got.shape[1] == (2 if z is None else 3) and (z is None or bool(np.all(got[:, 2] == z))), "height", f"{msg}: {got.shape}")
    if len(got) > 0 and num > 2:
        v = np.unique(np.round(got[:, :2].ravel(), 8))
        gaps = np.diff(v)
        step = gaps.min() if len(gaps) else dist
        c.check(bool(np.allclose(gaps, step, rtol=0, atol=1e-7)), "disc-irregular", f"{msg}: {v}")
        c.check(dist * (1 - 1e-6) <= step <= dist * (num + 1) / (num - 2) + 1e-6 if num > 3 else True, "disc-distance", f"{msg}: {step}")
        rad = np.hypot(got[:, 0], got[:, 1])
        c.check(bool(np.all(rad <= radius * (1 + 1e-9))), "disc-outside", f"{msg}: {rad.max()}")
        parity = 0.0 if np.abs(v).min() < 1e-6 else 0.5
        count = math.ceil(radius / step) + 1
        lat = (np.arange(-count, count + 1) + parity) * step
        pts = np.array(list(itertools.product(lat, lat)))
        sure = pts[np.hypot(pts[:, 0], pts[:, 1]) <= radius - 1e-6]
        have = got[rad <= radius - 1e-6][:, :2]
        match(c, have, sure, "disc-grid", msg, tol=1e-6)

    # planes of a cylinder
    n, radius, height = int(rng.integers(4, 60)), float(rng.uniform(0.3, 3)), float(rng.uniform(0.3, 3))
    got = gp.uniform_cylinder(n, radius, height)
    msg = f"{n} points in radius {radius}, height {height}"
    c.check(got.shape == (n // 4 * 4, 3), "count", f"{msg}: {got.shape}", stop=True)
    c.check(bool(np.all(np.hypot(got[:, 0], got[:, 1]) <= radius * (1 + 1e-9))), "cylinder-outside", msg)
    levels, counts = np.unique(np.round(got[:, 2], 9), return_counts=True)
    c.same(levels, height * np.array([-0.3, -0.1, 0.1, 0.3]), "heights", msg)
    c.check(bool(np.all(counts == n // 4)), "points-per-level", f"{msg}: {counts}")
    for lev in levels:
        p = got[np.abs(got[:, 2] - lev) < 1e-6]
        c.same(np.sort(np.hypot(p[:, 0], p[:, 1])) ** 2 / radius ** 2 * (len(p) - 0.5), np.arange(1, len(p) + 1) - 0.5, "sunflower-radius", msg)
    c.count("points", len(got) + n)
    c.count("patterns", 3)
    c.nontrivial("filled", kind, z is None, m, k)


@case(quick=300, thorough=3000)
def conversions(c):
    rng = c.rng
    n = int(rng.choice([1, 2, 3, 50]))
    x = rng.normal(size=(n, 3)) * 10.0 ** rng.integers(-3, 4)
    special = rng.random((n, 3)) < 0.25
    x[special] = 0.0
    before = x.copy()
    r, ang = gp.cart2spherical(x)
    c.check(np.shape(ang) == (n, 2) and np.size(r) == n, "form", f"{np.shape(r)} {np.shape(ang)}", stop=True)
    rr = np.reshape(r, n)
    scale = np.abs(x).max() + 1e-12
    c.same(rr, np.sqrt((x ** 2).sum(axis=1)), "radius", "cart2spherical")
    c.check(bool(np.all((ang[:, 1] >= 0) & (ang[:, 1] <= math.pi + 1e-12))), "zenith-range", f"{ang[:, 1]}")
    theta, phi = ang[:, 0], ang[:, 1]
    want = np.stack([rr * np.cos(theta) * np.sin(phi), rr * np.sin(theta) * np.sin(phi), rr * np.cos(phi)], axis=1)
    c.same(want / scale, x / scale, "spherical-angles", "cart2spherical", atol=1e-9)
    for form in (r, rr, rr[:, None]):
        c.same(gp.spherical2cart(form, ang) / scale, x / scale, "spherical-inverse", f"shape {np.shape(form)}", atol=1e-9)
    rad = rng.uniform(0.1, 5, size=n)
    a = np.stack([rng.uniform(-math.pi, math.pi, n), rng.uniform(0.01, math.pi - 0.01, n)], axis=1)
    cart = gp.spherical2cart(rad if rng.integers(2) else rad[:, None], a)
    c.check(np.shape(cart) == (n, 3), "form", f"{np.shape(cart)}", stop=True)
    c.same(cart, np.stack([rad * np.cos(a[:, 0]) * np.sin(a[:, 1]), rad * np.sin(a[:, 0]) * np.sin(a[:, 1]), rad * np.cos(a[:, 1])], axis=1), "spherical-cart", "spherical2cart")
    r2, a2 = gp.cart2spherical(cart)
    c.same(np.reshape(r2, n), rad, "spherical-inverse", "radius")
    c.same(np.exp(1j * a2), np.exp(1j * a), "spherical-inverse", "angles", atol=1e-7)
    # documented directions
    for v, t, p in [((2, 0, 0), 0, 90), ((0, 2, 0), 90, 90), ((-2, 0, 0), 180, 90), ((0, -2, 0), -90, 90), ((0, 0, 2), None, 0), ((0, 0, -2), None, 180)]:
        _, w = gp.cart2spherical(np.array([v], float))
        c.check((t is None or abs(math.degrees(w[0, 0]) - t) < 1e-9) and abs(math.degrees(w[0, 1]) - p) < 1e-9, "direction", f"{v}: {np.degrees(w)}")
    pr, pa = gp.cart2pol(x[:, 0], x[:, 1])
    c.same(pr, np.sqrt(x[:, 0] ** 2 + x[:, 1] ** 2), "polar-radius", "cart2pol")
    c.same(pr * np.cos(pa) / scale, x[:, 0] / scale, "polar-angle", "cart2pol")
    c.same(pr * np.sin(pa) / scale, x[:, 1] / scale, "polar-angle", "cart2pol")
    bx, by = gp.pol2cart(pr, pa)
    c.same(np.stack([bx, by]) / scale, x[:, :2].T / scale, "polar-inverse", "pol2cart")
    one = gp.pol2cart(2.0, math.pi / 6)
    c.same(np.array(one), [math.sqrt(3), 1.0], "polar-scalar", "pol2cart")
    c.check(np.array_equal(x, before), "argument-changed", "cart2spherical")
    c.count("conversions", 6 * n)
    c.nontrivial("conversion", n, bool(special.any()))
