"""C12: simulations are reproducible and isolated from each other and from the setup."""
import dataclasses
import types

import numpy as np
import pyroomacoustics as pra

from vf.core import case
from vf.simlib import *  # noqa: F403
from vf.moving import trajectory
from vf import ism

RULE = ("Several random setups (rooms, speeds of sound, reverberation, delays, moving arrays, noise sources, supplied paths) are simulated alone and "
        "then in random histories: created and run in other orders, created several times, and started in the middle of another run by a processor. "
        "Paths, signals and exported files of each are compared bit by bit with those of the run alone. Deep snapshots of the setup and of all user objects "
        "are compared before and after, and everything in the setup is changed after a simulator was created. Non-trivial: distinct histories.")
ASSUMPTIONS = ["random paths are created with a newly seeded global generator", "one process with one thread, since pyroomacoustics has global constants"]
NEED = {"simulators": 150, "nested_runs": 10, "values_compared": 50000, "snapshots": 60, "mutations": 60, "exports_compared": 30, "reverberant_specs": 20,
        "moving_specs": 20, "random_path_runs": 10}


def warm_up():
    warm_up_sim(dynamic=True)


# ---- deep snapshots
def snap(x, seen=None):
    """A comparable copy of everything that can be reached from x."""
    seen = seen if seen is not None else {}
    if isinstance(x, (int, float, complex, str, bytes, bool, type(None), type)):
        return x
    if id(x) in seen:
        return ("again", seen[id(x)])
    seen[id(x)] = len(seen)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objects", x.shape, [snap(v, seen) for v in x.ravel()])
        return ("array", x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, np.generic):
        return ("scalar", str(x.dtype), x.tobytes())
    if isinstance(x, np.random.Generator):
        return ("generator", repr(x.bit_generator.state))
    if isinstance(x, dict):
        return ("dict", [(snap(k, seen), snap(v, seen)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v, seen) for v in x])
    if isinstance(x, types.FunctionType):
        return ("function", x.__code__.co_code, [snap(cell.cell_contents, seen) for cell in (x.__closure__ or ())])
    if isinstance(x, (types.MethodType, types.ModuleType)):
        return ("named", getattr(x, "__name__", ""))
    if hasattr(x, "__dict__"):
        return (type(x).__name__, [(k, snap(v, seen)) for k, v in sorted(vars(x).items())])
    return ("opaque", type(x).__name__)


def first_difference(a, b, at=""):
    if type(a) is not type(b):
        return f"{at}: {type(a)} {type(b)}"
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return f"{at}: {len(a)} entries, then {len(b)}"
        for i, (p, q) in enumerate(zip(a, b)):
            name = f"{at}/{p[0]}" if isinstance(p, tuple) and len(p) == 2 and isinstance(p[0], str) else f"{at}/{i}"
            d = first_difference(p, q, name)
            if d:
                return d
        return None
    same = a == b or (isinstance(a, float) and a != a and b != b)
    return None if same else f"{at}: {str(a)[:60]} became {str(b)[:60]}"


def noise(rng, num, sr, shared):
    seed = int(rng.integers(1 << 30))
    kind = int(rng.integers(7 if num == 1 else 5))
    g = shared if rng.random() < 0.4 else np.random.default_rng(seed)
    return [lambda: sources.WhiteNoiseSource(num, 1.5, g), lambda: sources.SineSource(num, 1.0, 0.11 * sr, sr, g),
            lambda: sources.BandlimitedNoiseSource(num, 1.0, (0.1 * sr, 0.3 * sr), sr, g), lambda: TraceSource(num, seed),
            lambda: sources.Sequence(np.random.default_rng(seed).normal(size=(num, 37))),
            lambda: sources.MultiSineSource(1, 1.0, [0.1 * sr, 0.23 * sr], sr, g), lambda: sources.MLS(1, 6, [5])][kind]()


class Spec:
    """A setup that can be built again and again in the same way."""

    def __init__(self, seed, kind=None):
        self.seed, self.kind = seed, kind

    def build(self, fig=None):
        rng = np.random.default_rng(self.seed)
        size = rng.uniform(2.2, 4, 3)
        c = float(rng.choice([343, 300, 500, 345.5]))
        reverberant = rng.random() < 0.35
        self.cfg = dict(reverb=str(rng.choice(["ism", "ism", "ism", "random"])), room_size=size.tolist(), room_center=rng.uniform(-1, 1, 3).tolist(), c=c,
                        samplerate=int(rng.choice([500, 1000, 2000])), max_room_ir_length=int(rng.integers(20, 150)),
                        rt60=float(ism.sabine_limit(size, c) * rng.uniform(1.02, 1.3)) if reverberant else 0.0,
                        extra_delay=int(rng.choice([1, 4, 10, 25])), highpass_cutoff=float(rng.choice([0, 0, 40])),
                        start_sources_before_0=bool(rng.integers(2)), save_source_contributions=bool(rng.integers(2)),
                        array_update_freq=int(rng.choice([1, 5, 20])), randomized_ism=bool(rng.random() < 0.1), **timing(rng, 4, 90, 40))
        self.fig = fig
        setup = configure(SimulatorSetup(None if fig is None else str(fig), rng=np.random.default_rng(self.seed)), **self.cfg)
        setup.sim_info.plot_output = "none" if fig is None else "pdf"
        lo, hi = (np.asarray(self.cfg["room_center"]) + d * 0.45 * size for d in (-1, 1))
        if reverberant:
            self.cfg["array_update_freq"] = setup.sim_info.array_update_freq = 30
        if fig is not None:
            setup.sim_info.export_frequency = 25
        self.user, self.moving = [], 0
        self.mics = {}
        moves = rng.random() < 0.4 and self.cfg["reverb"] == "ism"
        for i in range(int(rng.integers(1, 3))):
            n = int(rng.integers(1, 4))
            if moves and i == 0:
                _, pos, n = trajectory(rng, lo, hi, self.cfg["samplerate"])
                self.moving += 1
            else:
                pos = rng.uniform(lo, hi, size=(n, 3))
                if rng.random() < 0.3 and n > 1:
                    pos = [pos[:1].copy(), pos[1:].copy()]
            self.user.append(pos)
            self.mics[f"m{i}"] = n
            setup.add_mics(f"m{i}", pos)
        n = int(rng.integers(1, 3))
        pos, src = rng.uniform(lo, hi, size=(n, 3)), noise(rng, n, self.cfg["samplerate"], setup.rng)
        setup.add_free_source("s0", pos, src)
        pos1 = rng.uniform(lo, hi, size=(2, 3))
        self.controlled = bool(rng.integers(2))
        if self.controlled:
            setup.add_controllable_source("s1", pos1)
        else:
            src1 = noise(rng, 2, self.cfg["samplerate"], setup.rng)
            self.user.append(src1)
            setup.add_free_source("s1", pos1, src1)
        self.user += [pos, src, pos1]
        if len(self.mics) > 1 and rng.random() < 0.5:
            h = rng.normal(size=(2, self.mics["m1"], int(rng.integers(1, 40))))
            self.user.append(h)
            setup.set_path("s1", "m1", h)
        if self.cfg["randomized_ism"] and self.moving:
            setup.sim_info.randomized_ism = self.cfg["randomized_ism"] = False
        return setup

    def create(self, setup):
        np.random.seed(self.seed % (1 << 31))
        return setup.create_simulator()

    def equip(self, sim, hook=None):
        recs = record(sim, {**self.mics, "s0": sim.arrays["s0"].num, "s1": sim.arrays["s1"].num})
        proc = Driver(sim.sim_info, sim.arrays, int(self.seed % 4) + 1, "s1" if self.controlled else None, hook)
        sim.add_processor(proc)
        return recs

    def outcome(self, sim, recs, first_paths):
        out = {f"path {k}": v for k, v in first_paths.items()}
        out |= {f"last path {k}": np.array(v) for k, v in paths_of(sim).items()}
        out |= {f"signal {k}": np.array(r.get_output()) for k, r in recs.items()}
        if sim.folder_path is not None:
            for f in sorted(sim.folder_path.iterdir()):
                if f.suffix == ".npz":
                    with np.load(f) as z:
                        for k in z.files:
                            out[f"export {f.name}/{k}"] = z[k]
                elif f.suffix in (".json", ".yaml"):
                    out[f"file {f.name}"] = np.frombuffer(f.read_bytes(), dtype=np.uint8)
                else:
                    out[f"file {f.name}"] = np.zeros(0)
        return out

    def alone(self, fig=None):
        setup = self.build(fig)
        sim = self.create(setup)
        first = paths_of(sim)
        recs = self.equip(sim)
        sim.run_simulation()
        return self.outcome(sim, recs, first)


class Driver(AudioProcessor):
    """Drives a source with samples that depend on what it hears. Calls hook once in the middle."""

    def __init__(self, sim_info, arrays, block, source, hook):
        super().__init__(sim_info, arrays, block)
        self.name, self.source, self.hook, self.calls = "driver", source, hook, 0
        self.at = max(1, sim_info.tot_samples // block // 2)

    def process(self, n):
        self.calls += 1
        if self.hook and self.calls == self.at:
            self.hook()
        if self.source:
            i = self.sig.idx
            heard = self.sig["m0"][:, i - n:i].sum(axis=0)
            self.sig[self.source][:, i:i + n] = np.tanh(heard) + 0.1


def paths_of(sim):
    return {f"{s.name}->{m.name}": np.array(p, copy=True) for s, m, p in sim.arrays.iter_paths()}


def compare(c, got, want, key, msg):
    if not c.check(set(got) == set(want), key, lambda: f"{msg}: {sorted(set(got) ^ set(want))[:4]}"):
        return
    for k in want:
        c.same(got[k], want[k], key, f"{msg}, {k}", rtol=1e-12, atol=1e-13)
        c.count("exports_compared", k.startswith("export"))


def specs(c, n):
    out = [Spec(int(c.rng.integers(1 << 31))) for _ in range(n)]
    return out


def tally(c, sp):
    c.count("simulators")
    c.count("reverberant_specs", sp.cfg["rt60"] > 0)
    c.count("moving_specs", bool(sp.moving))
    c.count("random_path_runs", sp.cfg["reverb"] == "random")


@case(quick=24, thorough=500)
def orders(c):
    """Created in one order and run in another, some of them twice."""
    sps = specs(c, int(c.rng.integers(2, 5)))
    export = c.index % 3 == 0
    want = [sp.alone(c.tmp() if export else None) for sp in sps]
    todo = [int(i) for i in c.rng.permutation(list(range(len(sps))) + [int(c.rng.integers(len(sps)))])]
    setups, sims = {}, []
    for i in todo:
        sp = sps[i]
        if i not in setups:
            setups[i] = sp.build(c.tmp() if export else None)
        sim = sp.create(setups[i])
        sims.append((i, sim, paths_of(sim)))
    run_order = [int(k) for k in c.rng.permutation(len(sims))]
    for k in run_order:
        i, sim, first = sims[k]
        recs = sps[i].equip(sim)
        sim.run_simulation()
        compare(c, sps[i].outcome(sim, recs, first), want[i], "depends-on-history", f"created {todo}, run {run_order}, simulator {i} with {sps[i].cfg}")
        tally(c, sps[i])
    c.nontrivial("orders", tuple(todo), tuple(run_order))
    c.note(created=todo, run=run_order)


@case(quick=20, thorough=400)
def nested(c):
    """A simulator is created and run by a processor in the middle of another simulation."""
    a, b = specs(c, 2)
    wa, wb = a.alone(), b.alone()
    sa = a.create(a.build())
    fa = paths_of(sa)
    early = bool(c.rng.integers(2))
    sb0 = b.create(b.build()) if early else None
    done = []

    def inner():
        sb = sb0 if early else b.create(b.build())
        fb = paths_of(sb)
        rb = b.equip(sb)
        sb.run_simulation()
        done.append(b.outcome(sb, rb, fb))
    ra = a.equip(sa, inner)
    sa.run_simulation()
    c.check(len(done) == 1, "processor-not-called", f"{len(done)}")
    for d in done:
        compare(c, d, wb, "depends-on-outer-simulation", f"{b.cfg} in {a.cfg}")
        c.count("nested_runs")
    compare(c, a.outcome(sa, ra, fa), wa, "depends-on-inner-simulation", f"{a.cfg} around {b.cfg}")
    tally(c, a)
    tally(c, b)
    c.nontrivial("nested", early, a.cfg["reverb"], b.cfg["reverb"], a.moving, b.moving, a.cfg["c"] == b.cfg["c"])


@case(quick=20, thorough=300)
def setup_unchanged(c):
    """Creating and running changes nothing in the setup or in what the user supplied."""
    sp, = specs(c, 1)
    export = c.index % 4 == 0
    setup = sp.build(c.tmp() if export else None)
    objects = dict(config=setup.sim_info, arrays=setup.arrays, user=sp.user, setup={k: v for k, v in vars(setup).items() if k != "rng"})
    before = {k: snap(v) for k, v in objects.items()}
    g = setup.rng.bit_generator.state

    def look(when):
        for k, v in objects.items():
            after = snap(v)
            c.check(after == before[k] or not first_difference(before[k], after), "setup-changed", lambda: f"{k} after {when}: {first_difference(before[k], after)}")
            c.count("snapshots")
        c.check(setup.rng.bit_generator.state == g, "setup-changed", f"generator after {when}")
    sim = sp.create(setup)
    look("create_simulator")
    recs = sp.equip(sim)
    first = paths_of(sim)
    sim.run_simulation()
    look("run_simulation")
    again = sp.create(setup)
    first2, recs2 = paths_of(again), sp.equip(again)
    again.run_simulation()
    compare(c, sp.outcome(again, recs2, first2), sp.outcome(sim, recs, first), "second-simulator-differs", f"{sp.cfg}")
    look("the second run")
    tally(c, sp)
    c.nontrivial("unchanged", sp.cfg["reverb"], sp.moving, sp.controlled)


def wreck(c, setup, sp):
    """Changes everything in the setup that can be changed."""
    rng = c.rng
    info = setup.sim_info
    info.room_size[0] = 1.0
    info.room_center[1] += 100.0
    for f in dataclasses.fields(info):
        v = getattr(info, f.name)
        if isinstance(v, bool):
            setattr(info, f.name, not v)
        elif isinstance(v, (int, float)):
            setattr(info, f.name, v * 2 + 1)
        elif isinstance(v, list):
            setattr(info, f.name, [9.0, 9.0, 9.0])
    info.reverb = "none"
    for a in setup.arrays:
        a.pos[...] = 7.0
        a.metadata["number"] = -1
        if a.dynamic:
            a.trajectory.current_pos = lambda t, n=a.num: np.full((n, 3), 3.0)
    for u in sp.user:
        if isinstance(u, np.ndarray):
            u[...] = 5.0
        elif isinstance(u, sources.Source):
            if isinstance(u, sources.MLS):
                u.get_samples(5)
            else:
                u.get_samples(11)
            if hasattr(u, "audio"):
                u.audio[...] = 0
            if hasattr(u, "table"):
                u.table[...] = 0
    setup.set_source("s0", sources.WhiteNoiseSource(setup.arrays["s0"].num, 99.0))
    for s in setup.arrays.sources():
        for m in setup.arrays.mics():
            if m.name in setup.arrays.paths[s.name]:
                setup.arrays.paths[s.name][m.name][...] = 4.0
            else:
                setup.set_path(s.name, m.name, np.ones((s.num, m.num, 3)))
    setup.add_mics("late", np.zeros((2, 3)))
    setup.add_controllable_source("later", np.zeros((2, 3)))
    c.count("mutations", 10 + len(sp.user))


@case(quick=20, thorough=300)
def later_changes(c):
    """Changes of the setup after the creation have no effect."""
    sp, = specs(c, 1)
    want = sp.alone()
    setup = sp.build()
    sim = sp.create(setup)
    first = paths_of(sim)
    recs = sp.equip(sim) if c.index % 2 else None
    wreck(c, setup, sp)
    recs = recs or sp.equip(sim)
    sim.run_simulation()
    compare(c, sp.outcome(sim, recs, first), want, "depends-on-setup-after-creation", f"{sp.cfg}")
    tally(c, sp)
    c.nontrivial("later", sp.cfg["reverb"], sp.moving, sp.controlled)


@case(quick=20, thorough=300)
def changes_between(c):
    """Two simulators of a setup whose configuration is changed in between, as the documentation suggests."""
    rng = c.rng
    a, = specs(c, 1)
    wa = a.alone()
    change = dict(c=a.cfg["c"] * float(rng.choice([1.1, 1.2])), extra_delay=int(rng.choice([3, 30])), tot_samples=int(rng.integers(20, 60)))
    key = str(rng.choice(list(change)))

    def build2():
        s = a.build()
        setattr(s.sim_info, key, change[key])
        return s
    s2 = a.create(build2())
    f2 = paths_of(s2)
    r2 = a.equip(s2)
    s2.run_simulation()
    wb = a.outcome(s2, r2, f2)
    setup = a.build()
    first = a.create(setup)
    fp = paths_of(first)
    setattr(setup.sim_info, key, change[key])
    second = a.create(setup)
    sp2 = paths_of(second)
    for which in rng.permutation(2):
        if which:
            r = a.equip(second)
            second.run_simulation()
            compare(c, a.outcome(second, r, sp2), wb, "depends-on-other-simulator-of-setup", f"{key} changed, {a.cfg}")
        else:
            r = a.equip(first)
            first.run_simulation()
            compare(c, a.outcome(first, r, fp), wa, "depends-on-other-simulator-of-setup", f"before {key} was changed, {a.cfg}")
    tally(c, a)
    c.nontrivial("between", key, a.cfg["reverb"], a.moving)


@case(quick=24, thorough=300)
def hostile_globals(c):
    """What others leave in the global constants of pyroomacoustics or do with the global generator during the run has no effect."""
    sp, = specs(c, 1)
    rng = c.rng
    want = sp.alone()

    def spoil():
        pra.constants.set("c", float(rng.uniform(100, 900)))
        pra.constants.set("frac_delay_length", int(2 * rng.integers(1, 50) + 1))
        np.random.seed(int(rng.integers(1 << 30)))
        np.random.normal(size=7)
    spoil()
    setup = sp.build()
    np.random.seed(sp.seed % (1 << 31))
    sim = setup.create_simulator()
    first = paths_of(sim)
    recs = sp.equip(sim, spoil)
    spoil()
    sim.run_simulation()
    compare(c, sp.outcome(sim, recs, first), want, "depends-on-global-state", f"{sp.cfg}")
    tally(c, sp)
    c.nontrivial("globals", sp.cfg["reverb"], sp.moving, sp.cfg["rt60"] > 0)


@case(quick=12, thorough=200)
def random_paths(c):
    """Random paths follow the state of the global generator at creation and nothing else."""
    rng = c.rng
    n, m, length = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(3, 40))
    setup = configure(SimulatorSetup(rng=np.random.default_rng(int(rng.integers(99)))), reverb="random", max_room_ir_length=length)
    setup.add_mics("m", rand_pos(rng, m))
    setup.add_free_source("s", rand_pos(rng, n), noise(rng, n, 1000, setup.rng))
    s1, s2 = int(rng.integers(1 << 30)), int(rng.integers(1 << 30))

    def draw(seed):
        if seed is not None:
            np.random.seed(seed)
        return setup.create_simulator().arrays.paths["s"]["m"].copy()
    a, b, c1, d = draw(s1), draw(None), draw(s2), draw(s1)
    c.check(np.array_equal(a, d), "same-state-other-paths", f"{n}x{m}x{length}")
    c.check(not np.array_equal(a, c1) and not np.array_equal(a, b), "other-state-same-paths", f"{n}x{m}x{length}")
    setup.rng.normal(size=5)
    c.check(np.array_equal(draw(s1), a), "same-state-other-paths", "after the generator of the setup was used")
    c.count("random_path_runs", 5)
    c.nontrivial("random", n, m, length)
