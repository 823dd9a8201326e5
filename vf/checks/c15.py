"""C15: a saved session is used exactly when it gives the paths that would be generated."""
import copy
import hashlib
import shutil

import numpy as np

from vf.core import case
from vf.simlib import *  # noqa: F403
from vf.moving import Jumps
from vf import ism

RULE = ("Histories of simulators share a session folder, and each step changes one or several things of the setup: values that affect the paths, values that "
        "do not, arrays, supplied paths, sources, trajectories, or goes back to an earlier setup. A model of the folder says whether a session must be loaded. "
        "The number of sessions, random paths as markers, the bytes of all sessions, and all signals compared with a simulator without sessions are "
        "monitored. Sessions are also loaded from their path. Non-trivial: distinct kinds of change with the expected decision.")
ASSUMPTIONS = ["positions and paths that differ by less than 1e-4 of their value are not judged", "values that could only affect paths of another type are "
               "either way correct when the signals are the same", "the kind of array (region or microphones, free or controllable) may or may not matter"]
NEED = {"steps": 150, "must_load": 40, "must_generate": 60, "random_markers": 20, "signals_compared": 100, "sessions_watched": 200,
        "loaded_from_path": 20, "moving_steps": 10, "neutral_changes": 30, "affecting_changes": 60, "settings": 20}


def warm_up():
    warm_up_sim(dynamic=True)


class Plan:
    """A complete description of a setup."""

    def __init__(self, rng):
        size = rng.uniform(3, 5, 3)
        self.cfg = dict(reverb=str(rng.choice(["ism", "ism", "random"])), samplerate=int(rng.choice([500, 1000])), c=343.0, room_size=size.tolist(),
                        room_center=rng.uniform(-1, 1, 3).tolist(), rt60=0.0, max_room_ir_length=40, extra_delay=5, randomized_ism=False,
                        highpass_cutoff=0.0, tot_samples=30, sim_buffer=50, sim_chunk_size=20, start_sources_before_0=False,
                        save_source_contributions=False, array_update_freq=5, export_frequency=1000, output_smoothing=1)
        self.arrays = {}
        for name, typ in [("m0", "mic"), ("m1", "region" if rng.integers(2) else "mic"), ("s0", "free"), ("s1", "ctrl" if rng.integers(2) else "free")]:
            n = int(rng.integers(1, 4))
            self.arrays[name] = dict(typ=typ, pos=self.inside(rng, n), seed=int(rng.integers(1 << 30)), moves=None)
        self.types = {}
        if rng.random() < 0.5:
            self.types["s1", "m0"] = str(rng.choice(["random", "ism", "none"]))
        self.paths = {}
        if rng.random() < 0.5:
            self.paths["s0", "m1"] = rng.normal(size=(self.num("s0"), self.num("m1"), int(rng.choice([1, 2, 7, 19, 100, 300]))))
        if rng.random() < 0.25 and self.cfg["reverb"] == "ism" and "random" not in self.types.values():
            self.arrays["m0"]["moves"] = int(rng.integers(1000))
        self.order = list(self.arrays)
        self.spare = True

    def num(self, name):
        return len(self.arrays[name]["pos"])

    def inside(self, rng, n):
        return np.asarray(self.cfg["room_center"]) + rng.uniform(-0.4, 0.4, size=(n, 3)) * np.asarray(self.cfg["room_size"])

    def type_of(self, s, m):
        return "modified" if (s, m) in self.paths else self.types.get((s, m), self.cfg["reverb"])

    def pairs(self):
        names = list(self.arrays)
        return [(s, m) for s in names if self.arrays[s]["typ"] in ("free", "ctrl") for m in names if self.arrays[m]["typ"] in ("mic", "region")]

    def position(self, name, rng=None):
        a = self.arrays[name]
        if a["moves"] is None:
            return a["pos"].copy()
        center, size = np.asarray(self.cfg["room_center"]), np.asarray(self.cfg["room_size"])
        return Start(a["pos"].copy(), Jumps(a["moves"], len(a["pos"]), center - 0.4 * size, center + 0.4 * size))

    def build(self, session_folder=None, fig=None):
        setup = SimulatorSetup(fig, session_folder)
        configure(setup, **self.cfg)
        setup.sim_info.auto_save_load = session_folder is not None
        if fig is not None:
            setup.sim_info.plot_output = "pdf"
        for name in self.order:
            a = self.arrays[name]
            pos = self.position(name)
            if a["typ"] == "mic":
                setup.add_mics(name, pos)
            elif a["typ"] == "region":
                setup.add_array(ar.RegionArray(name, region.Ball(1.0, (0, 0, 0)), pos=pos))
            elif a["typ"] == "free":
                setup.add_free_source(name, pos, TraceSource(self.num(name), a["seed"]))
            else:
                setup.add_controllable_source(name, pos)
        for (s, m), t in self.types.items():
            setup.arrays.set_path_types({s: {m: t}})
        for (s, m), h in self.paths.items():
            setup.set_path(s, m, h.copy())
        return setup

    def key(self):
        """Everything that the paths depend on."""
        types_ = {p: self.type_of(*p) for p in self.pairs()}
        out = [sorted(types_.items()), sorted((n, a["pos"].tobytes(), a["pos"].shape, a["moves"] is not None) for n, a in self.arrays.items()),
               sorted((p, h.shape, h.tobytes()) for p, h in self.paths.items()), self.cfg["reverb"], self.cfg["highpass_cutoff"], self.cfg["samplerate"], self.cfg["c"]]
        if "ism" in types_.values():
            out.append([self.cfg[k] for k in ("room_size", "room_center", "rt60", "max_room_ir_length", "randomized_ism", "extra_delay")])
        if "random" in types_.values():
            out.append(self.cfg["max_room_ir_length"])
        return hashlib.sha1(repr(out).encode()).hexdigest()

    def kinds(self):
        return sorted((n, a["typ"]) for n, a in self.arrays.items())

    # ---- changes
    def neutral(self, rng):
        what = str(rng.choice(["tot_samples", "sim_buffer", "sim_chunk_size", "start_sources_before_0", "save_source_contributions", "array_update_freq",
                               "export_frequency", "output_smoothing", "source", "order", "trajectory", "several"]))
        if what == "several":
            return "+".join(self.neutral(rng) for _ in range(3))
        if what == "source":
            self.arrays["s0"]["seed"] += 1
        elif what == "order":
            self.order = [str(n) for n in rng.permutation(self.order)]
        elif what == "trajectory":
            for a in self.arrays.values():
                if a["moves"] is not None:
                    a["moves"] += 1
        elif isinstance(self.cfg[what], bool):
            self.cfg[what] = not self.cfg[what]
        else:
            self.cfg[what] = int(self.cfg[what] + rng.integers(1, 6))
        return what

    def affecting(self, rng):
        has_ism = any(self.type_of(*p) == "ism" for p in self.pairs())
        has_random = any(self.type_of(*p) == "random" for p in self.pairs())
        options = ["position", "position", "one position", "one position", "swap", "add", "remove channel", "rename", "type", "path", "path", "move", "reverb"]
        if has_ism:
            options += ["c", "samplerate", "room_size", "room_center", "rt60", "max_room_ir_length", "randomized_ism", "extra_delay", "highpass_cutoff"]
        elif has_random:
            options += ["max_room_ir_length"]
        what = str(rng.choice(options))
        name = str(rng.choice(list(self.arrays)))
        a = self.arrays[name]
        if what == "position":
            a["pos"] = a["pos"] + rng.choice([0.01, -0.02, 0.1]) * np.eye(3)[int(rng.integers(3))]
        elif what == "one position":
            a["pos"] = a["pos"].copy()
            a["pos"][int(rng.integers(len(a["pos"]))), int(rng.integers(3))] += float(rng.choice([0.02, 0.002, -0.001]))
        elif what == "swap":  # the same positions for other channels
            a = next((self.arrays[str(n)] for n in rng.permutation(list(self.arrays)) if self.num(str(n)) > 1), None)
            if a is None:
                return self.affecting(rng)
            k = int(rng.integers(3)) if rng.integers(2) else None
            a["pos"] = a["pos"][::-1].copy() if k is None else np.where(np.arange(3) == k, a["pos"][::-1], a["pos"])
        elif what == "add":
            if not self.spare:
                return self.affecting(rng)
            self.spare = False
            self.arrays["m2"] = dict(typ="mic", pos=self.inside(rng, 1), seed=0, moves=None)
            self.order = self.order + ["m2"]
        elif what == "remove channel":
            a["pos"] = a["pos"][:-1] if len(a["pos"]) > 1 else np.concatenate([a["pos"], self.inside(rng, 1)])
            for p in list(self.paths):
                if name in p:
                    self.paths[p] = rng.normal(size=(self.num(p[0]), self.num(p[1]), 6))
        elif what == "rename":
            if "m2" not in self.arrays:
                return self.affecting(rng)
            self.arrays["m3"] = self.arrays.pop("m2")
            self.order = [n if n != "m2" else "m3" for n in self.order]
            for d in self.types, self.paths:
                for p in list(d):
                    if p[1] == "m2":
                        d[p[0], "m3"] = d.pop(p)
        elif what == "type":
            p = ("s1", "m0")
            if p in self.paths:
                return self.affecting(rng)
            choices = ["none", "ism"] + (["random"] if not self.moving() else [])
            self.types[p] = str(rng.choice([t for t in choices if t != self.type_of(*p)]))
        elif what == "path":
            p = ("s0", "m1")
            if p in self.paths and rng.random() < 0.6:
                h = self.paths[p].copy()
                h[tuple(int(rng.integers(k)) if rng.integers(2) else k - 1 for k in h.shape)] += float(rng.choice([0.5, 0.01, -2]))
                self.paths[p] = h if rng.integers(2) else np.concatenate([h, np.zeros(h.shape[:2] + (2,))], axis=-1)
            elif p in self.paths:
                del self.paths[p]
            else:
                self.paths[p] = rng.normal(size=(self.num("s0"), self.num("m1"), 5))
        elif what == "move":
            if has_random or self.cfg["reverb"] == "random":
                return self.affecting(rng)
            b = self.arrays["m0"]
            b["moves"] = None if b["moves"] is not None else int(rng.integers(1000))
        elif what == "reverb":
            if self.moving():
                return self.affecting(rng)
            self.cfg["reverb"] = str(rng.choice([r for r in ("ism", "random", "none") if r != self.cfg["reverb"]]))
        elif what == "rt60":
            self.cfg["rt60"] = 0.0 if self.cfg["rt60"] else float(ism.sabine_limit(self.cfg["room_size"], self.cfg["c"]) * 1.2)
        elif what in ("room_size", "room_center"):
            v = list(self.cfg[what])
            v[int(rng.integers(3))] += 0.1
            self.cfg[what] = v
        elif what == "randomized_ism":
            if not self.cfg["rt60"] or self.moving():
                return self.affecting(rng)
            self.cfg[what] = not self.cfg[what]
        else:
            self.cfg[what] = {"c": self.cfg["c"] + 1.5, "samplerate": self.cfg["samplerate"] + 10, "max_room_ir_length": self.cfg["max_room_ir_length"] + 1,
                              "extra_delay": self.cfg["extra_delay"] + 1, "highpass_cutoff": self.cfg["highpass_cutoff"] + 20.0}[what]
        return what

    def moving(self):
        return any(a["moves"] is not None for a in self.arrays.values())

    def deterministic(self):
        return not self.cfg["randomized_ism"] and "random" not in [self.type_of(*p) for p in self.pairs()]

    def valid(self):
        if self.cfg["rt60"] and self.cfg["rt60"] < 1.02 * ism.sabine_limit(self.cfg["room_size"], self.cfg["c"]):
            return False
        size, center = np.asarray(self.cfg["room_size"]), np.asarray(self.cfg["room_center"])
        return all(np.all(np.abs(a["pos"] - center) < 0.49 * size) for a in self.arrays.values())


class Start(tr.Trajectory):
    """Starts at a given position and follows another trajectory afterwards."""

    def __init__(self, start, then):
        self.start, self.then = start, then

    def current_pos(self, t):
        return self.start.copy() if t == 0 else self.then.current_pos(t)


def digest(folder):
    return {str(f.relative_to(folder)): hashlib.sha1(f.read_bytes()).hexdigest() for f in sorted(folder.rglob("*")) if f.is_file()}


def run(sim):
    recs = record(sim, {a.name: a.num for a in sim.arrays})
    sim.run_simulation()
    return {k: np.array(r.get_output()) for k, r in recs.items()}


def sessions(folder):
    return sorted(p.name for p in folder.iterdir() if p.is_dir() and not p.name.startswith("."))


@case(quick=48, thorough=900)
def histories(c):
    rng = c.rng
    folder = c.tmp()
    if rng.random() < 0.3:  # other things in the folder are of no interest
        (folder / "notes.txt").write_text("nothing")
        (folder / "empty").mkdir()
    junk = len(sessions(folder))
    known = {}  # key -> random paths of the session, or None
    seen_kinds = {}
    plans = [Plan(rng)]
    history = []
    for step in range(int(rng.integers(4, 9))):
        plan = copy.deepcopy(plans[-1])
        if step == 0:
            what, exp = "first", "generate"
        else:
            r = rng.random()
            if r < 0.3:
                plan = copy.deepcopy(plans[int(rng.integers(len(plans)))])
                what = "back"
                if rng.integers(2):
                    what += "+" + plan.neutral(rng)
            elif r < 0.55:
                what = plan.neutral(rng)
                c.count("neutral_changes")
            else:
                what = plan.affecting(rng)
                if not plan.valid():
                    continue
                c.count("affecting_changes")
            exp = "load" if plan.key() in known else "generate"
        plans.append(plan)
        history.append(f"{what}:{exp}")
        before, n_before = digest(folder), len(sessions(folder))
        sim = plan.build(str(folder) if rng.integers(2) else folder).create_simulator()
        after, n_after = digest(folder), len(sessions(folder))
        c.count("steps")
        c.count("moving_steps", plan.moving())
        c.count("sessions_watched", n_before - junk)
        for f, h in before.items():
            c.check(after.get(f) == h, "session-changed", f"{f} was {'changed' if f in after else 'removed'} by {history}")
        loaded = n_after == n_before
        if exp == "load":
            c.count("must_load")
            c.check(loaded, "session-not-used", f"{history}: a matching session exists, but a new one was saved")
        else:
            c.count("must_generate")
            c.check(n_after == n_before + 1, "wrong-session-used" if loaded else "too-many-sessions", f"{history}: {n_before} sessions became {n_after}")
        marks = {p: np.array(sim.arrays.paths[p[0]][p[1]]) for p in plan.pairs() if plan.type_of(*p) == "random"}
        if exp == "load" and marks:
            for p, h in marks.items():
                # several sessions can match only if one was saved twice
                c.check(any(np.array_equal(h, k.get(p, np.zeros(0))) for k in known[plan.key()]), "not-the-saved-paths", f"{history}: {p}")
                c.count("random_markers")
        elif marks:
            for p, h in marks.items():
                c.check(not any(np.array_equal(h, k.get(p, np.zeros(0))) for v in known.values() for k in v), "old-random-path", f"{history}: {p}")
        known.setdefault(plan.key(), []).append(marks)
        # everything else is as in the current setup
        for k, v in plan.cfg.items():
            c.check(getattr(sim.sim_info, k) == v, "other-configuration", f"{k} is {getattr(sim.sim_info, k)} instead of {v} after {history}")
        got = run(sim)
        if plan.deterministic():
            want = run(plan.build().create_simulator())
        else:  # the same paths, supplied
            clean = copy.deepcopy(plan)
            for s, m in plan.pairs():
                clean.paths[s, m] = np.array(sim.arrays.paths[s][m])
            want = run(clean.build().create_simulator())
        c.check(set(got) == set(want), "other-arrays", f"{sorted(got)} {sorted(want)}")
        for k in set(got) & set(want):
            c.same(got[k], want[k], "other-signals", f"{k} after {history}", rtol=1e-9, atol=1e-10)
            c.count("signals_compared")
        c.nontrivial(what, exp)
    c.note(history=history)


SETTINGS = ["randomized_ism", "c", "samplerate", "room_size", "room_center", "rt60", "max_room_ir_length", "extra_delay", "highpass_cutoff", "one position",
            "supplied path", "type", "default", "movement", "number of channels", "another array"]


def one_setting(rng, what, base):
    """Two plans that differ in this respect alone, in random order."""
    a = copy.deepcopy(base)
    if what == "type":
        a.types["s1", "m1"] = "ism"
    if what == "movement":
        a.arrays["m0"]["moves"] = None
    b = copy.deepcopy(a)
    small = float(10.0 ** -rng.choice([0, 1, 2, 3, 4, 3, 4]))
    if what == "randomized_ism":
        b.cfg[what] = True
    elif what in ("c", "highpass_cutoff"):
        b.cfg[what] += small
    elif what in ("samplerate", "max_room_ir_length", "extra_delay"):
        b.cfg[what] += int(rng.choice([1, 2, 5]))
    elif what in ("room_size", "room_center"):
        v = list(b.cfg[what])
        v[int(rng.integers(3))] += 0.01 * small
        b.cfg[what] = v
    elif what == "rt60":
        b.cfg[what] += 0.01 * small
    elif what == "one position":
        p = b.arrays[str(rng.choice(list(b.arrays)))]["pos"]
        p[int(rng.integers(len(p))), int(rng.integers(3))] += 0.01 * float(10.0 ** -rng.integers(0, 2))
    elif what == "supplied path":
        h = a.paths["s0", "m1"] = rng.normal(size=(a.num("s0"), a.num("m1"), int(rng.choice([1, 20, 300]))))
        b.paths["s0", "m1"] = h.copy()
        b.paths["s0", "m1"][int(rng.integers(h.shape[0])), int(rng.integers(h.shape[1])), int(rng.choice([0, -1]))] += small + 0.01
    elif what == "type":
        b.types["s1", "m1"] = "none"
    elif what == "default":
        b.cfg["reverb"] = "none"
    elif what == "movement":
        b.arrays["m0"]["moves"] = 5
    elif what == "number of channels":
        n = str(rng.choice(list(b.arrays)))
        b.arrays[n]["pos"] = np.concatenate([b.arrays[n]["pos"], b.inside(rng, 1)])
    else:
        b.arrays["m2"] = dict(typ="mic", pos=b.inside(rng, 1), seed=0, moves=None)
        b.order = b.order + ["m2"]
    return (a, b) if rng.integers(2) else (b, a)


@case(quick=32, thorough=640)
def each_setting(c):
    """Each thing that a path depends on tells two sessions apart, whichever of them was saved first."""
    rng = c.rng
    what = SETTINGS[c.index % len(SETTINGS)]
    while True:
        base = Plan(rng)
        base.cfg |= dict(reverb="ism", samplerate=500, extra_delay=5)
        base.types, base.paths = {}, {}
        for x in base.arrays.values():
            x["moves"] = None
        base.cfg["rt60"] = float(ism.sabine_limit(base.cfg["room_size"], base.cfg["c"]) * 1.2)
        a, b = one_setting(rng, what, base)
        if a.valid() and b.valid():
            break
    folder = c.tmp()
    for step, (plan, new) in enumerate(((a, True), (b, True), (a, False), (b, False))):
        n = len(sessions(folder))
        sim = plan.build(folder).create_simulator()
        more = len(sessions(folder)) - n
        c.check(more == int(new), "wrong-session-used" if new else "session-not-used", f"{what}, step {step}: {more} new sessions")
        if plan.deterministic():
            ref = plan.build().create_simulator()
            for p in plan.pairs():
                c.same(sim.arrays.paths[p[0]][p[1]], ref.arrays.paths[p[0]][p[1]], "other-paths", f"{what}, step {step}: {p}", rtol=1e-9, atol=1e-10)
        c.count("must_generate" if new else "must_load")
    c.count("settings")
    c.nontrivial("setting", what)


@case(quick=24, thorough=300)
def from_path(c):
    """A setup loaded from the path of a session gives the simulation that was saved."""
    rng = c.rng
    plan = Plan(rng)
    folder = c.tmp()
    setup = plan.build(folder)
    before = setup.create_simulator()
    name, = sessions(folder)
    sig = run(before)
    was = digest(folder)
    path = folder / name
    if c.index % 3 == 0:
        other = c.tmp() / "moved"
        shutil.copytree(path, other)
        path = other
    fig = c.tmp() if rng.integers(2) else None
    loaded = SimulatorSetup(fig)
    loaded.load_from_path(str(path) if rng.integers(2) else path)
    loaded.sim_info.auto_save_load = False
    c.check(vars(loaded.sim_info) == {**vars(before.sim_info), "auto_save_load": False}, "loaded-configuration", f"{vars(loaded.sim_info)}")
    for attempt in range(2):
        sim = loaded.create_simulator()
        c.check([a.name for a in sim.arrays] == [a.name for a in before.arrays], "loaded-arrays", f"{[a.name for a in sim.arrays]}")
        for s, m in plan.pairs():
            if not plan.moving():
                c.check(np.array_equal(sim.arrays.paths[s][m], before.arrays.paths[s][m]), "loaded-path", f"{s}->{m}")
        got = run(sim)
        for k in sig:
            c.same(got[k], sig[k], "loaded-signals", f"{k} of {plan.cfg['reverb']}", rtol=1e-9, atol=1e-10)
            c.count("signals_compared")
    c.check(digest(folder) == was, "session-changed", "by load_from_path")
    c.count("loaded_from_path")
    c.count("moving_steps", plan.moving())
    c.nontrivial("from path", plan.cfg["reverb"], plan.moving(), bool(plan.paths), fig is None)


@case(quick=2, thorough=20)
def many_sessions(c):
    """The right one is found among many sessions, whenever it was saved."""
    rng = c.rng
    folder = c.tmp()
    base = Plan(rng)
    base.cfg |= dict(reverb="none", max_room_ir_length=int(rng.integers(5, 20)))
    base.types, base.arrays = {}, {k: v for k, v in base.arrays.items() if k in ("m0", "s0")}
    base.order = ["m0", "s0"]
    for x in base.arrays.values():
        x["moves"] = None
    plans = []
    for i in range(int(rng.integers(13, 18))):
        p = copy.deepcopy(base)
        p.paths = {("s0", "m0"): rng.normal(size=(p.num("s0"), p.num("m0"), 3))}
        plans.append(p)
    for p in plans:
        p.build(folder).create_simulator()
    c.check(len(sessions(folder)) == len(plans), "session-missing", f"{len(sessions(folder))} sessions instead of {len(plans)}")
    for i in rng.permutation(len(plans)):
        sim = plans[i].build(folder).create_simulator()
        c.check(len(sessions(folder)) == len(plans), "session-not-used", f"session {i} of {len(plans)} was saved again", stop=True)
        c.check(np.array_equal(sim.arrays.paths["s0"]["m0"], plans[i].paths["s0", "m0"]), "other-paths", f"session {i} of {len(plans)}")
        c.count("must_load")
    c.nontrivial("many", len(plans))


@case(quick=16, thorough=200)
def turned_off(c):
    """Without the option or without a folder nothing is loaded or saved."""
    rng = c.rng
    plan = Plan(rng)
    folder = c.tmp()
    if c.index % 2:
        plan.build(folder).create_simulator()
    was = digest(folder)
    setup = plan.build(folder)
    setup.sim_info.auto_save_load = False
    sim = setup.create_simulator()
    c.check(digest(folder) == was, "saved-although-off", f"{set(digest(folder)) - set(was)}")
    sim2 = plan.build(None)
    sim2.sim_info.auto_save_load = True
    sim2 = sim2.create_simulator()
    for s, m in plan.pairs():
        if plan.type_of(s, m) in ("ism", "none", "modified") and plan.deterministic():
            c.same(sim.arrays.paths[s][m], sim2.arrays.paths[s][m], "other-paths", f"{s}->{m}")
    c.check(digest(folder) == was, "saved-although-off", "without a session folder")
    c.nontrivial("off", c.index % 2, plan.cfg["reverb"])


@case(quick=12, thorough=150)
def independent_of_saved(c):
    """What the user does with a simulator never reaches the session."""
    rng = c.rng
    plan = Plan(rng)
    while not plan.deterministic():
        plan = Plan(rng)
    folder = c.tmp()
    first = plan.build(folder).create_simulator()
    was = digest(folder)
    want = {p: np.array(first.arrays.paths[p[0]][p[1]]) for p in plan.pairs()}
    for k in range(3):
        setup = plan.build(folder)
        sim = setup.create_simulator()
        for s, m in plan.pairs():
            c.same(sim.arrays.paths[s][m], want[s, m], "session-follows-user", f"{s}->{m}", rtol=1e-12)
            sim.arrays.paths[s][m][...] = k
        setup.arrays["s0"].pos += 0.5
        run(sim)
    c.check(digest(folder) == was, "session-changed", "by using a loaded simulator")
    c.nontrivial("independent", plan.moving(), bool(plan.paths))
