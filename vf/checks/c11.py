"""C11: each path has the requested type, and what the user supplies is used untouched."""
import json

import numpy as np

from vf.core import case
from vf.simlib import *  # noqa: F403

RULE = ("Setups with random arrays (also without elements), a random default type, random chosen types (in one or several calls, before or after "
        "further arrays, or brought in by a collection), and supplied paths are turned into simulators. For each pair a monitor judges the path by the type "
        "which the history of calls asks for: silent, one to one, noise of unit strength, the room response which a simulator with this pair alone has, "
        "or exactly the supplied numbers, and compares the saved metadata. Some of them are run, and the microphones are compared. "
        "Non-trivial: distinct sets of (default, chosen or supplied, type).")
ASSUMPTIONS = ["the room response of a pair alone is judged by C10", "with a high-pass filter, paths of type direct are not judged",
               "random paths are independent standard normal numbers"]
NEED = {"pairs": 300, "type_none": 20, "type_direct": 20, "type_random": 20, "type_ism": 20, "type_modified": 20, "chosen_types": 50,
        "default_types": 50, "metadata_types": 100, "empty_arrays": 5, "run_samples": 1000, "moving_pairs": 20, "paths_from_collection": 2}


def warm_up():
    warm_up_sim(dynamic=True)


TYPES = ["none", "direct", "random", "ism"]


class Plan:
    """The calls of a user, and the path type that each pair must then have."""

    def __init__(self, rng, with_empty=True, allow=TYPES):
        self.rng, self.allow = rng, allow
        self.room = dict(room_size=rng.uniform(3, 5, 3).tolist(), room_center=rng.uniform(-1, 1, 3).tolist())
        same = int(rng.integers(1, 4))
        self.arrays = {}
        crowd = rng.random() < 0.1  # many arrays
        sizes = {typ: int(rng.integers(8, 14)) if crowd and rng.integers(2) else int(rng.integers(1, 4)) for typ in "sm"}
        for typ, n in sizes.items():
            for i in range(n):
                num = same if rng.random() < 0.6 else int(rng.integers(1, 4))
                if with_empty and rng.random() < 0.08:
                    num = 0
                # the names of two arrays may be parts of each other
                name = typ + str(i) if rng.random() < 0.7 else typ * (i + 1)
                self.arrays[name] = dict(typ=typ, num=num, pos=self.pos(num), ctrl=bool(rng.integers(2)), seed=int(rng.integers(1 << 30)))
        self.default = str(rng.choice(allow))
        self.want, self.chosen, self.supplied, self.calls = {}, {}, {}, []
        self.from_collection, self.other_default = 0, False
        for s in self.names("s"):
            for m in self.names("m"):
                r = rng.random()
                if r < 0.35:
                    self.chosen[s, m] = self.pick(s, m)
                elif r < 0.6:
                    self.supplied[s, m] = rng.normal(size=(self.arrays[s]["num"], self.arrays[m]["num"], int(rng.choice([1, 2, 9, 40]))))
                    if rng.random() < 0.3:  # zeros are samples as well
                        self.supplied[s, m][..., int(rng.integers(self.supplied[s, m].shape[-1])):] = 0
                    if rng.random() < 0.3:
                        self.chosen[s, m] = self.pick(s, m)  # the supplied path still counts
                elif self.default == "direct" and self.arrays[s]["num"] != self.arrays[m]["num"]:
                    self.chosen[s, m] = "none"
        for s in self.names("s"):
            for m in self.names("m"):
                t = "modified" if (s, m) in self.supplied else self.chosen.get((s, m), self.default)
                self.want[s, m] = t if self.arrays[s]["num"] and self.arrays[m]["num"] else "none"

    def pos(self, n):
        size, center = np.asarray(self.room["room_size"]), np.asarray(self.room["room_center"])
        return center + self.rng.uniform(-0.45, 0.45, size=(n, 3)) * size

    def names(self, typ):
        return [n for n, a in self.arrays.items() if a["typ"] == typ]

    def pick(self, s, m):
        ok = [t for t in self.allow if t != "direct" or self.arrays[s]["num"] == self.arrays[m]["num"]]
        return str(self.rng.choice(ok))

    def make(self, name):
        a = self.arrays[name]
        if a["typ"] == "m":
            return ar.MicArray(name, a["pos"].copy())
        if a["ctrl"]:
            return ar.ControllableSourceArray(name, a["pos"].copy())
        return ar.FreeSourceArray(name, a["pos"].copy(), TraceSource(a["num"], a["seed"]))

    def build(self, fig=None, rng=None, **cfg):
        rng = rng if rng is not None else np.random.default_rng(0)
        setup = configure(SimulatorSetup(fig), reverb=self.default, max_room_ir_length=50, **self.room, **cfg)
        names = [str(n) for n in rng.permutation(list(self.arrays))]
        chosen, supplied = dict(self.chosen), dict(self.supplied)
        if rng.random() < 0.55:  # some arrays, types and paths come from a collection
            part = names[:int(rng.integers(1, len(names) + 1))]
            coll = ar.ArrayCollection()
            for n in part:
                coll.add_array(self.make(n))
            for s, m in [k for k in chosen if k[0] in part and k[1] in part]:
                if rng.random() < 0.7:
                    coll.set_path_types({s: {m: chosen.pop((s, m))}})
            for s, m in [k for k in supplied if k[0] in part and k[1] in part and k not in self.chosen]:
                coll.set_prop_path(supplied.pop((s, m)).copy(), s, m)
                self.from_collection += 1
            if rng.random() < 0.3 and not self.other_default:
                coll.set_default_path_type(self.default)
            setup.add_arrays(coll)
            names = names[len(part):]
        for n in names:
            setup.add_array(self.make(n))
        calls = [("type", k, t) for k, t in chosen.items()] + [("path", k, h) for k, h in supplied.items()]
        if rng.random() < 0.4:
            nested = {}
            for (s, m), t in chosen.items():
                nested.setdefault(s, {})[m] = t
            calls = [("nested", None, nested)] + [x for x in calls if x[0] == "path"]
        if rng.random() < 0.3:
            nested = {}
            for (s, m), h in supplied.items():
                nested.setdefault(s, {})[m] = h.copy()
            calls = [("paths", None, nested)] + [x for x in calls if x[0] != "path"]
        for i in rng.permutation(len(calls)):
            what, k, v = calls[i]
            if what == "type":
                if rng.random() < 0.2:
                    setup.arrays.set_path_types({k[0]: {k[1]: "random"}})  # overruled by the next call
                setup.arrays.set_path_types({k[0]: {k[1]: v}})
            elif what == "nested":
                setup.arrays.set_path_types(v)
            elif what == "paths":
                setup.arrays.set_prop_paths(v)
            else:
                if rng.random() < 0.2:
                    setup.set_path(k[0], k[1], np.ones((v.shape[0], v.shape[1], 4)))  # overruled by the next call
                setup.set_path(k[0], k[1], v.copy())
        return setup

    def alone(self, s, m, **cfg):
        """The room response of a simulator with this pair only."""
        setup = configure(SimulatorSetup(), **{**self.room, **dict(max_room_ir_length=50), **cfg, **dict(reverb="ism")})
        setup.add_array(self.make(s))
        setup.add_array(self.make(m))
        return setup.create_simulator().arrays.paths[s][m]


def judge(c, plan, sim, cfg):
    c.count("paths_from_collection", plan.from_collection)
    noise = []
    for (s, m), t in plan.want.items():
        h = sim.arrays.paths[s][m]
        ns, nm = plan.arrays[s]["num"], plan.arrays[m]["num"]
        why = "supplied" if (s, m) in plan.supplied else "chosen" if (s, m) in plan.chosen else "default"
        what = f"{s}({ns})->{m}({nm}), {why} {t}"
        c.count("pairs")
        c.count("type_" + t)
        c.count(why + "_types")
        if not c.check(h.ndim == 3 and h.shape[:2] == (ns, nm) and h.shape[-1] >= 1, "shape", f"{h.shape}: {what}"):
            continue
        if t == "none":
            c.check(not np.any(h), "none-not-silent", what)
        elif t == "direct":
            want = np.zeros(h.shape)
            want[np.arange(ns), np.arange(ns), 0] = 1
            c.same(h, want, "direct", what, rtol=0, atol=1e-12)
        elif t == "random":
            c.check(h.shape[-1] == 50, "random-length", f"{h.shape}: {what}")
            c.check(np.all(np.isfinite(h)), "random-not-finite", what)
            noise.append(h)
        elif t == "ism":
            c.same(h, plan.alone(s, m, **cfg), "ism", what, rtol=1e-9, atol=1e-12)
        else:
            c.check(np.array_equal(h, plan.supplied[s, m]), "supplied-changed", what)
    if noise:
        x = np.concatenate([h.ravel() for h in noise])
        c.check(abs(x.mean()) < 7 / np.sqrt(x.size) and abs(x.var() - 1) < 10 / np.sqrt(x.size), "random-strength", f"{x.mean()} {x.var()} of {x.size}")
        c.check(len(np.unique(x)) == x.size, "random-repeats", f"{x.size - len(np.unique(x))} numbers are repeated")
    c.nontrivial(tuple(sorted({("supplied" if k in plan.supplied else "chosen" if k in plan.chosen else "default", t) for k, t in plan.want.items()})))


def _cfg(rng):
    cfg = dict(extra_delay=int(rng.choice([3, 20])), c=float(rng.choice([343, 300])))
    return cfg


@case(quick=60, thorough=1000)
def types(c):
    rng = c.rng
    plan = Plan(rng)
    cfg = _cfg(rng)
    if not any(t == "direct" for t in plan.want.values()) and rng.random() < 0.4:
        cfg["highpass_cutoff"] = 60.0
        allow_noise = False
    else:
        allow_noise = True
    out = c.tmp()
    sim = plan.build(str(out), rng, plot_output="pdf", **cfg).create_simulator()
    if allow_noise or "random" not in plan.want.values():
        judge(c, plan, sim, cfg)
    else:
        for (s, m), h in plan.supplied.items():
            if plan.want[s, m] == "modified":
                c.check(np.array_equal(sim.arrays.paths[s][m], h), "supplied-changed", f"{s}->{m} with a high-pass filter")
    info = json.loads((sim.folder_path / "metadata_paths.json").read_text())
    c.check(set(info) == {f"{s}->{m}" for s, m in plan.want}, "metadata-pairs", f"{sorted(info)}")
    for (s, m), t in plan.want.items():
        c.check(info.get(f"{s}->{m}", {}).get("type") == t, "metadata-type", f"{s}->{m}: {info.get(f'{s}->{m}')} instead of {t}")
        c.count("metadata_types")
    c.check(all(n in sim.arrays for n in plan.arrays) and "nobody" not in sim.arrays, "array-missing", f"{list(plan.arrays)}")
    c.check({a.name for a in sim.arrays} == set(plan.arrays), "array-missing", f"{[a.name for a in sim.arrays]} instead of {list(plan.arrays)}")
    c.check(sorted(a.name for a in sim.arrays.mics()) == sorted(plan.names("m")) and sorted(a.name for a in sim.arrays.sources()) == sorted(plan.names("s")), "array-missing",
            f"{[a.name for a in sim.arrays.mics()]} {[a.name for a in sim.arrays.sources()]}")
    free = [n for n in plan.names("s") if not plan.arrays[n]["ctrl"]]
    c.check(sorted(a.name for a in sim.arrays.free_sources()) == sorted(free), "array-missing", f"{[a.name for a in sim.arrays.free_sources()]} instead of {free}")
    pairs = {(s.name, m.name) for s, m in sim.arrays.mic_src_combos()}
    c.check(pairs == set(plan.want) and len(list(sim.arrays.mic_src_combos())) == len(pairs), "pair-missing", f"{sorted(pairs)}")
    for s, m, h in sim.arrays.iter_paths():
        c.check(h is sim.arrays.paths[s.name][m.name] and sim.arrays[m.name] is m and sim.arrays[s.name] is s, "pair-missing", f"{s.name}->{m.name}")
        c.count("iterated_paths")
    c.count("empty_arrays", sum(a["num"] == 0 for a in plan.arrays.values()))
    c.note(default=plan.default, want={"->".join(k): v for k, v in plan.want.items()}, chosen={"->".join(k): v for k, v in plan.chosen.items()}, **cfg)


@case(quick=20, thorough=300)
def default_changes(c):
    """Each simulator of one setup follows the default of its time; chosen types and supplied paths stay."""
    rng = c.rng
    plan = Plan(rng, allow=["none", "random", "ism"])
    plan.other_default = True
    cfg = _cfg(rng)
    setup = plan.build(None, rng, **cfg)
    for _ in range(3):
        plan.default = str(rng.choice(["none", "random", "ism"]))
        for k in plan.want:
            if k not in plan.supplied and k not in plan.chosen and plan.arrays[k[0]]["num"] and plan.arrays[k[1]]["num"]:
                plan.want[k] = plan.default
        setup.sim_info.reverb = plan.default
        judge(c, plan, setup.create_simulator(), cfg)


@case(quick=24, thorough=300)
def sound(c):
    """What the paths promise is what the microphones get."""
    rng = c.rng
    plan = Plan(rng)
    setup = plan.build(None, rng, extra_delay=10, **timing(rng, 1))
    sim = setup.create_simulator()
    n = sim.sim_info.tot_samples
    recs = record(sim, {m: plan.arrays[m]["num"] for m in plan.names("m") if plan.arrays[m]["num"]})
    sim.run_simulation()
    for m, rec in recs.items():
        want = np.zeros((plan.arrays[m]["num"], n))
        for s in plan.names("s"):
            a = plan.arrays[s]
            if a["ctrl"] or a["num"] == 0:
                continue
            x = table_of(a)[:, :n]
            t = plan.want[s, m]
            want += x if t == "direct" else 0 if t == "none" else convolve(plan.supplied[s, m] if t == "modified" else sim.arrays.paths[s][m], x)
        c.same(rec.get_output(), want, "microphone", f"{m}: {plan.want}", rtol=1e-7, atol=1e-8)
        c.count("run_samples", want.size)
    c.nontrivial("sound", tuple(sorted(plan.want.values())))


def table_of(a):
    from vf import simlib
    return simlib.table(a["num"], a["seed"])


@case(quick=16, thorough=200)
def moving(c):
    """While an array moves, chosen types and supplied paths remain."""
    rng = c.rng
    plan = Plan(rng, with_empty=False, allow=["none", "direct", "ism"])
    mov = str(rng.choice(list(plan.arrays)))
    a = plan.arrays[mov]
    end = plan.pos(a["num"])
    for k in list(plan.want):
        if plan.want[k] == "direct" and mov in k and rng.random() < 0.5:
            pass
    make = plan.make

    def make_moving(name):
        if name != mov:
            return make(name)
        t = tr.Trajectory(lambda i: a["pos"] + (end - a["pos"]) * min(1.0, i / 10))
        if a["typ"] == "m":
            return ar.MicArray(name, t)
        return ar.ControllableSourceArray(name, t) if a["ctrl"] else ar.FreeSourceArray(name, t, TraceSource(a["num"], a["seed"]))
    plan.make = make_moving
    cfg = dict(extra_delay=5)
    sim = plan.build(None, rng, tot_samples=12, array_update_freq=int(rng.choice([1, 3])), **cfg).create_simulator()
    sim.run_simulation()
    plan.make = make
    a["pos"] = np.array(sim.arrays[mov].pos, copy=True)
    judge(c, plan, sim, cfg)
    c.count("moving_pairs", sum(mov in k for k in plan.want))


@case(quick=8, thorough=60)
def refused(c):
    """Paths and types that cannot be meant are refused."""
    rng = c.rng
    setup = configure(SimulatorSetup())
    setup.add_mics("m", rand_pos(rng, 2))
    setup.add_controllable_source("s", rand_pos(rng, 3))
    bad = {"swapped": np.ones((2, 3, 4)), "too many": np.ones((4, 2, 4)), "2d": np.ones((3, 2)), "list": [[[1.0] * 4] * 2] * 3}
    for k, h in bad.items():
        c.raises(lambda: setup.set_path("s", "m", h), "bad-path-accepted", k)
    c.raises(lambda: setup.set_path("m", "s", np.ones((2, 3, 4))), "bad-path-accepted", "microphone as source")
    c.raises(lambda: setup.set_path("s", "nobody", np.ones((3, 2, 4))), "bad-path-accepted", "unknown microphone")
    c.raises(lambda: setup.arrays.set_path_types({"s": {"nobody": "ism"}}), "bad-type-accepted", "unknown microphone")
    c.raises(lambda: setup.arrays.set_path_types({"m": {"s": "ism"}}), "bad-type-accepted", "microphone as source")
    c.raises(lambda: setup.add_mics("s", rand_pos(rng, 1)), "name-taken-twice", "a microphone array with the name of a source")
    c.raises(lambda: setup.add_controllable_source("s", rand_pos(rng, 1)), "name-taken-twice", "two sources of the same name")
    alone = configure(SimulatorSetup())
    c.check(alone.arrays.empty() and not setup.arrays.empty(), "empty", "no arrays")
    c.raises(alone.create_simulator, "nothing-to-simulate", "no arrays at all")
    setup.sim_info.reverb = "direct"
    c.raises(setup.create_simulator, "direct-of-different-size", "3 sources directly to 2 microphones")
    setup.sim_info.reverb = "hall"
    c.raises(setup.create_simulator, "unknown-type-accepted", "hall")
    c.nontrivial("refused")
