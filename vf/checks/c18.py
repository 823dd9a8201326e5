"""C18: trajectories follow their documented geometry for every time index."""
import math
from fractions import Fraction

import numpy as np

import aspsim.room.trajectory as tr
from vf.core import case
from vf.simlib import *  # noqa: F403

RULE = ("Random trajectories (open and closed lists of points, two and three dimensions, both modes, periods that are no whole number of samples, circles with equal or "
        "different radii, nested collections) are asked for their position at indices in random order: all near the ends of segments and periods, many periods later, and "
        "runs of consecutive ones. Monitors: the position given by interpolation over exact fractions of the period, the distance between consecutive positions, the "
        "positions one period apart, the shape, and what simulations with such trajectories report. Non-trivial: distinct kinds of trajectory and phase of the period.")
ASSUMPTIONS = ["consecutive points differ when the speed is constant", "at least two different points"]
NEED = {"positions": 20000, "segment_ends": 300, "period_ends": 300, "steps": 3000, "reported_positions": 400, "collections": 20}


def warm_up():
    warm_up_sim(dynamic=True)


def queries(rng, period_samples, marks):
    """Indices around the given phases (fractions of the period) in several periods, and elsewhere."""
    out = []
    for phase in marks:
        for rep in [0, 1, 2, int(rng.integers(3, 2000))]:
            at = math.floor((rep + phase) * period_samples)
            out += [at - 1, at, at + 1]
    out += [int(v) for v in rng.integers(0, max(2, int(3 * period_samples)), size=60)]
    out += [int(v) for v in rng.integers(0, 10 ** 7, size=20)] + [0]
    return [q for q in out if q >= 0]


def some_period(rng, samplerate):
    kind = int(rng.integers(4))
    if kind == 0:
        return float(rng.integers(1, 5))
    if kind == 1:
        return int(rng.integers(1, 5))
    if kind == 2:
        return float(rng.integers(8, 400) / samplerate)
    return float(0.02 + rng.random() * 3)


def some_points(rng, dim, closed, mode):
    n = int(rng.integers(2, 7))
    pts = np.round(rng.uniform(-4, 4, size=(n, dim)), int(rng.integers(0, 6)))
    for i in range(1, n):
        while np.linalg.norm(pts[i] - pts[i - 1]) < 0.2 or (i == n - 1 and np.linalg.norm(pts[i] - pts[0]) < 0.2):
            pts[i] = rng.uniform(-4, 4, size=dim)
    if mode == "constant_time" and rng.random() < 0.3 and n > 2:  # stands still for a segment
        pts[n // 2] = pts[n // 2 - 1]
    if closed:
        end = pts[:1].copy()
        if rng.random() < 0.3:  # closed but for the rounding of the coordinates
            end = end + rng.choice([-1, 1], size=end.shape) * float(rng.choice([1e-15, 1e-13, 1e-11]))
        pts = np.concatenate([pts, end])
    return pts


def linear_ref(points, closed, period, samplerate, mode):
    """Position as a function of the index, from exact fractions of the period."""
    loop = points if closed else np.concatenate([points, points[:1]])
    if mode == "constant_speed":
        knots = np.concatenate([[0], np.cumsum(np.linalg.norm(np.diff(loop, axis=0), axis=1))])
        knots = knots / knots[-1]
    else:
        knots = np.linspace(0, 1, len(loop))
    per = Fraction(period) * samplerate

    def pos(n):
        phase = float((Fraction(int(n)) % per) / per)
        return np.array([[np.interp(phase, knots, loop[:, d]) for d in range(loop.shape[1])]])
    return pos, knots, loop


def circle_ref(radius, center, radial_period, angle_period, samplerate, start_angle):
    def pos(n):
        a, r = Fraction(angle_period) * samplerate, Fraction(radial_period) * samplerate
        angle = start_angle + 2 * math.pi * float((Fraction(int(n)) % a) / a)
        portion = float((Fraction(int(n)) % r) / r)
        rad = radius[0] + (radius[1] - radius[0]) * abs(1 - 2 * portion)
        return np.array([[center[0] + rad * math.cos(angle), center[1] + rad * math.sin(angle), center[2]]])
    return pos


def make_linear(rng):
    samplerate = int(rng.choice([7, 100, 1000, 8000, 16000, 44100]))
    mode = str(rng.choice(["constant_speed", "constant_time"]))
    dim, closed = (3 if rng.random() < 0.8 else 2), bool(rng.integers(2))
    pts = some_points(rng, dim, closed, mode)
    period = some_period(rng, samplerate)
    if period * samplerate < 3:
        period = 10 / samplerate
    form = int(rng.integers(4))
    if form == 3 and not closed:  # whole and other numbers in one list
        pts[int(rng.integers(2))] = np.round(pts[0])
        pts = pts if np.all(np.linalg.norm(np.diff(np.concatenate([pts, pts[:1]]), axis=0), axis=1) > 0.1) else np.cumsum(np.abs(pts) + 0.2, axis=0)
    given = pts.copy() if form == 0 else [[float(v) for v in p] for p in pts] if form == 1 else tuple(tuple(float(v) for v in p) for p in pts)
    if form == 3:
        given = [[int(v) if v == int(v) else float(v) for v in p] for p in pts]
    if mode == "constant_speed" and rng.integers(2):
        t = tr.LinearTrajectory(given, period, samplerate)
    else:
        t = tr.LinearTrajectory(given, period, samplerate, mode) if rng.integers(2) else tr.LinearTrajectory(given, period, samplerate, mode=mode)
    ref, knots, loop = linear_ref(pts, closed, period, samplerate, mode)
    return t, ref, dict(kind="linear", mode=mode, closed=closed, dim=dim, period=period, samplerate=samplerate, points=pts.tolist(), form=form), knots, loop


def make_circle(rng):
    samplerate = int(rng.choice([7, 100, 1000, 8000, 16000, 44100]))
    inner = float(rng.choice([0.0, 0.5, 1.25])) if rng.integers(2) else float(rng.uniform(0.05, 2))
    radius = (inner, inner + (0.0 if rng.random() < 0.2 else float(rng.uniform(0.1, 2))))
    center = tuple(float(v) for v in rng.uniform(-3, 3, size=3))
    rp, ap = [max(some_period(rng, samplerate), 10 / samplerate) for _ in range(2)]
    start = 0 if rng.random() < 0.3 else float(rng.uniform(-7, 7))
    form = int(rng.integers(3))
    cen = center if form == 0 else list(center) if form == 1 else np.array(center)
    args = dict(start_angle=start) if start != 0 or rng.integers(2) else {}
    t = tr.CircularTrajectory(radius if rng.integers(2) else list(radius), cen, rp, ap, samplerate, **args)
    return t, circle_ref(radius, center, rp, ap, samplerate, start), dict(kind="circle", radius=radius, center=center, radial=rp, angle=ap, samplerate=samplerate, start=start)


def look(c, t, ref, idx, rows, dim, key, info):
    got = t.current_pos(idx)
    c.check(isinstance(got, np.ndarray) and got.shape == (rows, dim), "shape", lambda: f"{np.shape(got)} for {rows} objects in {info}", stop=True)
    c.check(bool(np.all(np.isfinite(got))), "not-finite", f"{got} at {idx} of {info}")
    c.same(got, ref(idx), key, f"at {idx} of {info}", rtol=0, atol=2e-6)
    c.count("positions")
    return got


@case(quick=80, thorough=2500)
def linear(c):
    rng = c.rng
    t, ref, info, knots, loop = make_linear(rng)
    per = info["period"] * info["samplerate"]
    qs = queries(rng, per, list(knots))
    c.count("segment_ends", 4 * (len(knots) - 2))
    c.count("period_ends", 4)
    cast = [int, np.int64, np.int32][int(rng.integers(3))]
    for q in rng.permutation(qs):
        look(c, t, ref, cast(q), 1, info["dim"], "linear-position", info)
    # consecutive samples: no jumps, and the speed
    length = np.linalg.norm(np.diff(loop, axis=0), axis=1)
    if info["mode"] == "constant_speed":
        limit = np.full(len(length), length.sum() / per)
    else:
        limit = length / (per / len(length))
    for phase in rng.choice(np.concatenate([knots, rng.random(3)]), size=4):
        at = max(0, math.floor((int(rng.integers(0, 4)) + phase) * per) - 4)
        walk = np.concatenate([t.current_pos(at + k) for k in range(9)])
        step = np.linalg.norm(np.diff(walk, axis=0), axis=1)
        c.check(bool(np.all(step <= limit.max() * 1.0001 + 1e-9)), "jump", f"steps {step}, at most {limit.max()} at {at} of {info}")
        c.count("steps", len(step))
        # within one segment the step is exactly the speed of the segment
        for k in range(8):
            p0, p1 = ((at + k) % per) / per, ((at + k + 1) % per) / per
            s0, s1 = np.searchsorted(knots, p0, side="right") - 1, np.searchsorted(knots, p1, side="right") - 1
            if s0 == s1 < len(length) and p1 > p0 and min(p0 - knots[s0], knots[s1 + 1] - p1) > 1e-6:
                c.check(abs(step[k] - limit[s0]) <= 1e-6 + 1e-6 * limit[s0], "speed", f"step {step[k]} instead of {limit[s0]} at {at + k} of {info}")
                c.count("steps")
    if abs(per - round(per)) < 1e-9:
        for q in rng.integers(0, int(2 * per), size=10):
            c.same(t.current_pos(int(q) + round(per)), t.current_pos(int(q)), "not-periodic", f"at {q} of {info}", rtol=0, atol=1e-6)
            c.count("positions", 2)
    c.same(t.current_pos(0)[0], loop[0], "start", f"{info}")
    c.nontrivial("linear", info["mode"], info["closed"], info["dim"], info["form"], len(loop), abs(per - round(per)) < 1e-9)


@case(quick=80, thorough=2500)
def circle(c):
    rng = c.rng
    t, ref, info = make_circle(rng)
    sr = info["samplerate"]
    qs = queries(rng, info["radial"] * sr, [0, 0.25, 0.5, 0.75, 1]) + queries(rng, info["angle"] * sr, [0, 0.25, 0.5, 1])
    for q in rng.permutation(qs):
        got = look(c, t, ref, int(q), 1, 3, "circle-position", info)
        rad = math.hypot(got[0, 0] - info["center"][0], got[0, 1] - info["center"][1])
        c.check(info["radius"][0] - 1e-6 <= rad <= info["radius"][1] + 1e-6, "radius", f"{rad} at {q} of {info}")
        c.check(abs(got[0, 2] - info["center"][2]) < 1e-9, "height", f"{got} at {q} of {info}")
    c.count("period_ends", 8)
    most = 2 * math.pi * info["radius"][1] / (info["angle"] * sr) + 2 * (info["radius"][1] - info["radius"][0]) / (info["radial"] * sr)
    for q in rng.choice(qs, size=4):
        walk = np.concatenate([t.current_pos(int(q) + k) for k in range(7)])
        step = np.linalg.norm(np.diff(walk, axis=0), axis=1)
        c.check(bool(np.all(step <= most * 1.0001 + 1e-9)), "jump", f"steps {step}, at most {most} at {q} of {info}")
        c.count("steps", len(step))
    c.nontrivial("circle", info["radius"][0] == info["radius"][1], info["radius"][0] == 0, info["start"] == 0, info["radial"] == info["angle"])


def make_any(rng, depth=0):
    """A trajectory, its reference and its number of rows."""
    kind = int(rng.integers(4 if depth < 2 else 3))
    if kind == 0:
        while True:
            t, ref, info, _, _ = make_linear(rng)
            if info["dim"] == 3:
                return t, ref, 1, info["kind"]
    if kind == 1:
        t, ref, info = make_circle(rng)
        return t, ref, 1, info["kind"]
    if kind == 2:
        a, b, n = rng.uniform(-1, 1, size=(1, 3)), rng.uniform(-1, 1, size=3) / 1000, int(rng.integers(1, 4))
        a = np.repeat(a, n, axis=0) + np.arange(n)[:, None]
        return tr.Trajectory(lambda k: a + b * int(k)), lambda k: a + b * int(k), n, f"function{n}"
    parts = [make_any(rng, depth + 1) for _ in range(int(rng.integers(1, 4)))]
    ref = lambda k: np.concatenate([p[1](k) for p in parts], axis=0)  # noqa: E731
    return tr.TrajectoryCollection([p[0] for p in parts]), ref, sum(p[2] for p in parts), tuple(p[3] for p in parts)


@case(quick=60, thorough=1500)
def collection(c):
    rng = c.rng
    parts = [make_any(rng, 1) for _ in range(int(rng.integers(1, 5)))]
    if rng.random() < 0.3:
        parts.insert(int(rng.integers(len(parts) + 1)), parts[int(rng.integers(len(parts)))])  # one of them twice
    given = [p[0] for p in parts]
    t = tr.TrajectoryCollection(given if rng.integers(2) else tuple(given))
    rows = sum(p[2] for p in parts)
    sig = tuple(p[3] for p in parts)
    for q in [0, 1] + [int(v) for v in rng.integers(0, 60000, size=25)]:
        look(c, t, lambda k: np.concatenate([p[1](k) for p in parts], axis=0), q, rows, 3, "collection-position", sig)
        for p in parts:
            look(c, p[0], p[1], q, p[2], 3, "part-position", sig)
    c.count("collections")
    c.nontrivial("collection", sig)


@case(quick=24, thorough=300)
def in_simulations(c):
    """The positions that arrays of a running simulation report are those of their trajectories."""
    rng = c.rng
    sr = int(rng.choice([250, 1000, 4000]))
    tot, upd = int(rng.integers(60, 200)), 1
    if rng.integers(2):
        period = float(rng.uniform(20, 90) / sr)
        pts = np.round(rng.uniform(0.3, 2, size=(int(rng.integers(2, 5)), 3)), 3)
        mode = str(rng.choice(["constant_speed", "constant_time"]))
        t, ref = tr.LinearTrajectory(pts, period, sr, mode), linear_ref(pts, False, period, sr, mode)[0]
    else:
        rp, ap, st = [float(rng.uniform(20, 90) / sr) for _ in range(2)] + [float(rng.uniform(0, 6))]
        t = tr.CircularTrajectory((0.2, 0.7), (1.0, 1.1, 1.2), rp, ap, sr, st)
        ref = circle_ref((0.2, 0.7), (1.0, 1.1, 1.2), rp, ap, sr, st)
    two = bool(rng.integers(2))
    if two:
        first_ref, fixed = ref, tr.Trajectory(lambda k: np.array([[0.5, 0.6, 0.7]]))
        t = tr.TrajectoryCollection([fixed, t])
        ref = lambda k: np.concatenate([[[0.5, 0.6, 0.7]], first_ref(k)])  # noqa: E731
    setup = configure(SimulatorSetup(None), tot_samples=tot, samplerate=sr, array_update_freq=upd, max_room_ir_length=16, extra_delay=2)
    as_source = bool(rng.integers(2))
    if as_source:
        setup.add_mics("m", np.zeros((1, 3)) + 3)
        setup.add_free_source("s", t, sources.WhiteNoiseSource(2 if two else 1, 1, np.random.default_rng(1)))
    else:
        setup.add_mics("m", t)
        setup.add_free_source("s", np.zeros((1, 3)) + 3, sources.Counter(1))
    setup.arrays.path_type["s"]["m"] = "none"
    sim = setup.create_simulator()
    name = "s" if as_source else "m"
    seen = []

    class Watch(AudioProcessor):
        def process(self, num_samples):
            seen.append(np.array(sim.arrays[name].pos, copy=True))
    w = Watch(sim.sim_info, sim.arrays, 1)
    w.name = "watch"
    sim.add_processor(w)
    sim.run_simulation()
    for k, pos in enumerate(seen):
        near = [ref(max(0, k + d)) for d in (-1, 0, 1)]
        ok = any(pos.shape == r.shape and np.allclose(pos, r, rtol=0, atol=1e-6) for r in near)
        c.check(ok, "reported-position", f"{pos} after {k} samples, the trajectory gives {near[1]}")
        c.count("reported_positions")
    c.nontrivial("simulation", two, as_source)
