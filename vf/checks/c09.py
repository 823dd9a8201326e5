"""C09: sound of moving arrays is time-varying convolution with the current path."""
import numpy as np

from vf.core import case
from vf.simlib import *  # noqa: F403
from vf import simlib
from vf.moving import MovingScene, Jumps, time_varying

RULE = ("Scenes of random static and moving arrays are simulated with known sources, with and without a processor that drives sources, with "
        "random buffers, chunks and update intervals. An offline checker computes every microphone sample from the known source samples and the "
        "impulse responses of a static simulation at the positions valid at that time. Non-trivial: distinct combinations of kinds of arrays, "
        "update interval and wraps.")
ASSUMPTIONS = ["a new position at update instant k applies to the samples after k (this is what the existing tests demand; sample 0 has the "
               "initial position)", "static room impulse responses are judged by C10"]
NEED = {"samples_compared": 10000, "moving_pairs": 50, "chunk_wraps": 50, "frozen_runs": 5, "static_samples": 1000, "before0_runs": 5, "first_heard_later": 3}


def warm_up():
    warm_up_sim(dynamic=True)


def _sources(scene, n, block, before, drive):
    """The source signals; the column `before` is time 0."""
    x = {}
    for s in scene.srcs:
        v = np.zeros((s["num"], before + n))
        tab = simlib.table(s["num"], s["seed"])
        if not s["ctrl"]:
            v[:] = tab[:, :before + n]
        elif drive:
            v[:, before + block:] = tab[:, block:n]
        x[s["name"]] = v
    return x


def _run(c, must_move, with_proc, before0=False, short=False):
    rng = c.rng
    block = int(rng.choice([1, 2, 5, 8])) if with_proc else 1
    t = timing(rng, block, tot_max=80)
    tot = t["tot_samples"] = max(20, t["tot_samples"])
    freq = int(rng.choice([1, 2, 3, 8, 20, tot]))
    scene = MovingScene(rng, tot, freq, must_move=must_move)
    cfg = dict(t, extra_delay=int(rng.choice([1, 10, 25])), max_room_ir_length=int(rng.choice([30, 60, 100])),
               rt60=0.18 if len(scene.instants) <= 3 and rng.integers(2) else 0.0,
               start_sources_before_0=before0, save_source_contributions=bool(rng.integers(2)))
    if short:
        cfg |= dict(extra_delay=int(rng.integers(1, 4)), max_room_ir_length=80, rt60=0.0)
        starts = [[int(np.argmax(np.any(x, axis=(0, 1)))) for x in h] for k, h in scene.reference_paths(**cfg).items() if k not in scene.user and np.any(h)]
        lengths = [n for on in starts for n in range(min(on) + 1, on[0] + 1)]
        cfg["max_room_ir_length"] = max(2, int(rng.choice(lengths)) if lengths else int(rng.integers(4, 14)))
    ref = scene.reference_paths(**cfg)
    for h in ref.values():
        c.count("first_heard_later", not np.any(h[0]) and any(np.any(x) for x in h))
    sim = scene.build(**cfg).create_simulator()
    drive = {s["name"]: simlib.table(s["num"], s["seed"]) for s in scene.srcs if s["ctrl"]} if with_proc else {}
    if with_proc:
        p = Probe(sim.sim_info, sim.arrays, block, drive, full_history=False)
        p.watch = []
        sim.add_processor(p)
    nums = {a["name"]: a["num"] for a in scene.arrays}
    if cfg["save_source_contributions"]:
        nums |= {f"{s['name']}~{m['name']}": m["num"] for s in scene.srcs for m in scene.mics}
    recs = record(sim, nums)
    sim.run_simulation()
    got = {k: r.get_output() for k, r in recs.items()}
    before = t["sim_buffer"] - 1 if before0 else 0
    x = _sources(scene, tot, block, before, bool(with_proc))
    for s in scene.srcs:
        c.same(got[s["name"]], x[s["name"]][:, before:], "source-signal", s["name"])
    for m in scene.mics:
        total = 0
        for s in scene.srcs:
            h = ref[s["name"], m["name"]]
            moving = s["moves"] or m["moves"]
            y = time_varying(lambda g: h[max(0, g - 1) // freq], x[s["name"]], tot, before)
            total = total + y
            if cfg["save_source_contributions"]:
                c.same(got[f"{s['name']}~{m['name']}"], y, "contribution", f"{s['name']}({s['kind']})~{m['name']}({m['kind']}), {scene.describe()}, {t}")
            c.count("moving_pairs", moving)
            c.count("static_samples", 0 if moving else y.size)
        c.same(got[m["name"]], total, "microphone", f"{m['name']}({m['kind']}) updates every {freq}, {t}, block {block}")
        c.count("samples_compared", total.size)
    c.count("chunk_wraps", tot // t["sim_chunk_size"])
    c.count("before0_runs", before0)
    c.nontrivial(tuple(sorted(a["typ"] + a["kind"] for a in scene.arrays)), freq, tot > t["sim_chunk_size"], with_proc)
    c.note(block=block, **scene.describe(), **cfg)


@case(quick=40, thorough=700)
def passive(c):
    _run(c, "any", False)


@case(quick=30, thorough=500)
def driven(c):
    _run(c, "any", True)


@case(quick=12, thorough=300)
def both_move(c):
    _run(c, "both", bool(c.rng.integers(2)))


@case(quick=20, thorough=400)
def out_of_reach(c):
    """Responses so short that nothing is heard from afar; it must be heard as soon as the distance allows."""
    _run(c, "both", bool(c.rng.integers(2)), before0=c.rng.random() < 0.2, short=True)


@case(quick=8, thorough=200)
def started_before_0(c):
    _run(c, "any", bool(c.rng.integers(2)), before0=True)


@case(quick=12, thorough=300)
def unmoved_equals_static(c):
    """A trajectory that never changes position sounds like a static array there, and others are not affected by movement."""
    rng = c.rng
    block = int(rng.choice([1, 4]))
    t = timing(rng, block, tot_max=60)
    tot = t["tot_samples"] = max(15, t["tot_samples"])
    freq = int(rng.integers(1, 12))
    scene = MovingScene(rng, tot, freq, max_arrays=2, must_move="both")
    for a in scene.arrays:
        if a["moves"]:
            pos = rng.uniform(scene.lo, scene.hi, size=(a["num"], 3))
            a["fixed"] = pos
            a["traj"] = tr.Trajectory(lambda n, pos=pos: pos.copy()) if rng.integers(2) else Frozen(pos)
            a["kind"] = "frozen"
    cfg = dict(t, start_sources_before_0=bool(rng.integers(2)))
    outs = []
    for frozen in (True, False):
        for a in scene.arrays:
            if "fixed" in a and not frozen:
                a["moves"], a["pos"] = False, a["fixed"]
        sim = scene.build(**cfg).create_simulator()
        drive = {s["name"]: simlib.table(s["num"], s["seed"]) for s in scene.srcs if s["ctrl"]}
        p = Probe(sim.sim_info, sim.arrays, block, drive, full_history=False)
        p.watch = []
        sim.add_processor(p)
        recs = record(sim, {a["name"]: a["num"] for a in scene.arrays})
        sim.run_simulation()
        outs.append({k: r.get_output() for k, r in recs.items()})
    for k in outs[0]:
        c.same(outs[0][k], outs[1][k], "frozen-differs", f"{k}: unmoved against static, {scene.describe()}, {cfg}")
    c.count("frozen_runs")
    c.nontrivial("frozen", len(scene.arrays), freq)


class Frozen(tr.Trajectory):
    def __init__(self, pos):
        self.fixed = pos

    def current_pos(self, time_idx):
        return self.fixed  # the same object each time


@case(quick=12, thorough=300)
def static_unaffected(c):
    """Signals between static arrays are the same with and without other arrays moving."""
    rng = c.rng
    t = timing(rng, 1, tot_max=70)
    tot = t["tot_samples"]
    setup_seed = int(rng.integers(1 << 30))
    outs = []
    for moving in (False, True):
        r = np.random.default_rng(setup_seed)
        setup = configure(SimulatorSetup(), reverb="ism", room_size=[5.0, 4.0, 3.0], room_center=[0.0, 0.0, 0.0], max_room_ir_length=50,
                          array_update_freq=int(r.integers(1, 9)), **t)
        setup.add_free_source("s", rand_pos(r, 2), TraceSource(2, 7))
        setup.add_free_source("u", rand_pos(r, 1), TraceSource(1, 8))
        setup.add_mics("m", rand_pos(r, 3))
        user = r.normal(size=(1, 3, 9))
        setup.set_path("u", "m", user)
        if moving:
            setup.add_mics("mm", Jumps(3, 2, [-1] * 3, [1] * 3))
            setup.add_controllable_source("ms", Jumps(4, 2, [-1] * 3, [1] * 3))
        sim = setup.create_simulator()
        recs = record(sim, {"s": 2, "u": 1, "m": 3})
        sim.run_simulation()
        outs.append({k: v.get_output() for k, v in recs.items()})
    for k in outs[0]:
        c.check(np.array_equal(*[o[k] for o in outs]), "static-affected", f"{k} differs by {np.max(np.abs(outs[0][k] - outs[1][k]))}")
    c.count("static_samples", outs[0]["m"].size)
    c.nontrivial("static", tot // t["sim_chunk_size"])
