"""Scenes with moving arrays, and the paths they must have, taken from a static simulation of every visited position."""
import numpy as np

from vf.simlib import *  # noqa: F403
from vf import simlib


class Jumps(tr.Trajectory):
    """Is at another place at every time index."""

    def __init__(self, seed, num, lo, hi, frozen=False):
        self.seed, self.num, self.lo, self.hi, self.frozen = seed, num, np.asarray(lo), np.asarray(hi), frozen

    def current_pos(self, time_idx):
        t = 0 if self.frozen else int(time_idx)
        return np.random.default_rng([self.seed, t]).uniform(self.lo, self.hi, size=(self.num, 3))


def trajectory(rng, lo, hi, samplerate):
    """A trajectory inside the box from lo to hi, and the number of its objects."""
    kind = str(rng.choice(["jumps", "jumps", "linear", "circular", "collection", "function", "frozen", "crawl", "crawl"]))
    lo, hi = np.asarray(lo), np.asarray(hi)
    mid, half = (lo + hi) / 2, (hi - lo) / 2
    if kind in ("jumps", "frozen"):
        n = int(rng.integers(1, 4))
        return kind, Jumps(int(rng.integers(1 << 30)), n, lo, hi, kind == "frozen"), n
    if kind == "linear":
        pts = [rng.uniform(lo, hi) for _ in range(int(rng.integers(2, 4)))]
        return kind, tr.LinearTrajectory(pts, float(rng.uniform(0.01, 0.1)), samplerate, str(rng.choice(["constant_speed", "constant_time"]))), 1
    if kind == "circular":
        r = float(0.9 * np.min(half))
        return kind, tr.CircularTrajectory((0.3 * r, r), tuple(mid), float(rng.uniform(0.02, 0.2)), float(rng.uniform(0.02, 0.2)), samplerate,
                                           start_angle=float(rng.uniform(0, 6))), 1
    if kind == "crawl":  # hardly moves at all between two updates
        n = int(rng.integers(1, 4))
        a, v = rng.uniform(lo, hi, size=(n, 3)), rng.normal(size=(n, 3)) * float(rng.choice([1e-7, 1e-6, 1e-5, 1e-4]))
        return kind, tr.Trajectory(lambda t: np.clip(a + v * int(t), lo, hi)), n
    if kind == "function":
        a, b = rng.uniform(lo, hi), rng.uniform(lo, hi)
        return kind, tr.Trajectory(lambda t: (a + (b - a) * (0.5 + 0.5 * np.sin(t / 5)))[None, :]), 1
    parts = [trajectory(rng, lo, hi, samplerate) for _ in range(2)]
    return kind, tr.TrajectoryCollection([p[1] for p in parts]), sum(p[2] for p in parts)


class MovingScene:
    def __init__(self, rng, tot, freq, max_arrays=2, user_paths=0.2, must_move="any", nested=False):
        self.tot, self.freq = tot, freq
        size = rng.uniform(2.5, 6, size=3)
        center = rng.uniform(-2, 2, size=3)
        self.lo, self.hi = center - size / 2 + 0.2, center + size / 2 - 0.2
        self.room = dict(room_size=size.tolist(), room_center=center.tolist())
        self.instants = list(range(0, tot, freq))
        self.sr = 1000
        self.arrays = []
        nums = {typ: int(rng.integers(1 + nested, max_arrays + 1)) for typ in ("s", "m")}
        names = iter(simlib.unique_names(rng, "s" * nums["s"] + "m" * nums["m"], nested))
        for typ in "s", "m":
            for i in range(nums[typ]):
                moves = bool(rng.integers(2))
                if i == 0 and must_move == "both" or must_move == typ and i == 0:
                    moves = True
                a = dict(name=next(names), typ=typ, moves=moves, seed=int(rng.integers(1 << 30)), traj=None, kind="static")
                a["ctrl"] = typ == "s" and bool(rng.random() < 0.3)
                if moves:
                    a["kind"], a["traj"], a["num"] = trajectory(rng, self.lo, self.hi, self.sr)
                else:
                    a["num"] = int(rng.integers(1, 4))
                    a["pos"] = rng.uniform(self.lo, self.hi, size=(a["num"], 3))
                self.arrays.append(a)
        if not any(a["moves"] for a in self.arrays):
            a = self.arrays[int(rng.integers(len(self.arrays)))]
            a["kind"], a["traj"], a["num"] = trajectory(rng, self.lo, self.hi, self.sr)
            a["moves"] = True
        self.order = [int(i) for i in rng.permutation(len(self.arrays))]
        self.srcs = [a for a in self.arrays if a["typ"] == "s"]
        self.mics = [a for a in self.arrays if a["typ"] == "m"]
        self.user, self.types = {}, {}
        for s in self.srcs:
            for m in self.mics:
                if rng.random() < user_paths:
                    self.user[s["name"], m["name"]] = rng.normal(size=(s["num"], m["num"], int(rng.integers(1, 30))))
                elif rng.random() < 0.15:
                    self.types[s["name"], m["name"]] = "direct" if s["num"] == m["num"] and rng.integers(2) else "none"

    def positions(self, a):
        """The positions of all channels at each update instant: (instants, channels, 3)."""
        if a["moves"]:
            return np.stack([np.array(a["traj"].current_pos(t), copy=True) for t in self.instants])
        return np.broadcast_to(a["pos"], (len(self.instants),) + a["pos"].shape)

    def build(self, fig=None, freeze=None, **cfg):
        base = dict(reverb="ism", max_room_ir_length=60, samplerate=self.sr, array_update_freq=self.freq, tot_samples=self.tot, **self.room)
        setup = configure(SimulatorSetup(fig), **{**base, **cfg})
        for i in self.order:
            a = self.arrays[i]
            pos = a["traj"] if a["moves"] else a["pos"].copy()
            if a["typ"] == "m":
                setup.add_mics(a["name"], pos)
            elif a["ctrl"]:
                setup.add_controllable_source(a["name"], pos)
            else:
                setup.add_free_source(a["name"], pos, TraceSource(a["num"], a["seed"]))
        for (s, m), h in self.user.items():
            setup.set_path(s, m, h.copy())
        for (s, m), t in self.types.items():
            setup.arrays.set_path_types({s: {m: t}})
        return setup

    def reference_paths(self, **cfg):
        """For each pair the path at each update instant: (instants, sources, microphones, length)."""
        k = len(self.instants)
        both = any(x["moves"] for x in self.srcs) and any(x["moves"] for x in self.mics)
        step = 6 if both else k
        parts = [self._static_paths(range(i, min(k, i + step)), cfg) for i in range(0, k, step)]
        return {key: np.concatenate([p[key] for p in parts]) for key in parts[0]}

    def _static_paths(self, which, cfg):
        which = list(which)
        k = len(which)
        base = dict(reverb="ism", max_room_ir_length=60, samplerate=self.sr, **self.room)
        setup = configure(SimulatorSetup(), **{**base, **cfg})
        for a in self.arrays:
            pos = self.positions(a)[which].reshape(-1, 3) if a["moves"] else a["pos"].copy()
            if a["typ"] == "m":
                setup.add_mics(a["name"], pos)
            else:
                setup.add_controllable_source(a["name"], pos)
        paths = setup.create_simulator().arrays.paths
        out = {}
        for s in self.srcs:
            for m in self.mics:
                key = s["name"], m["name"]
                if key in self.user:
                    h = np.broadcast_to(self.user[key], (k,) + self.user[key].shape)
                elif self.types.get(key) == "none":
                    h = np.zeros((k, s["num"], m["num"], 1))
                elif self.types.get(key) == "direct":
                    h = np.broadcast_to(np.eye(s["num"])[..., None], (k, s["num"], m["num"], 1))
                else:
                    p = paths[s["name"]][m["name"]]
                    h = np.empty((k, s["num"], m["num"], p.shape[-1]))
                    for i in range(k):
                        si = slice(i * s["num"], (i + 1) * s["num"]) if s["moves"] else slice(None)
                        mi = slice(i * m["num"], (i + 1) * m["num"]) if m["moves"] else slice(None)
                        h[i] = p[si, mi]
                out[key] = h
        return out

    def describe(self):
        return {"arrays": [f"{a['name']}:{a['kind']}x{a['num']}" for a in self.arrays], "update_freq": self.freq,
                "user_paths": sorted("->".join(k) for k in self.user), "types": {"->".join(k): v for k, v in self.types.items()}}


def time_varying(h_of_time, x, n, start):
    """y(g) = sum_i h_g(i) x(g-i) for g < n, where x[:, start] is time 0. h_of_time(g) has shape (src, mic, len)."""
    mics = h_of_time(0).shape[1]
    y = np.zeros((mics, n))
    for g in range(n):
        h = h_of_time(g)
        length = min(h.shape[-1], start + g + 1)
        past = x[:, start + g - length + 1:start + g + 1][:, ::-1]
        y[:, g] = np.einsum("sml,sl->m", h[..., :length], past)
    return y
