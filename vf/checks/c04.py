"""C04: the time before 0."""
import numpy as np

from vf.core import case
from vf.simlib import *  # noqa: F403
from vf import simlib

RULE = ("Scenes with and without sound before time 0; the history before time 0 is read by a probe processor and the first samples by "
        "recordings, and both are compared with a convolution that starts at the documented time. Buffers shorter and longer than the "
        "impulse responses. Non-trivial: some impulse response is longer than one sample and some array has several channels.")
ASSUMPTIONS = ["one buffer length = sim_buffer samples up to and including sample 0"]
NEED = {"history_samples": 5000, "first_samples": 3000, "stationary_runs": 20, "silent_runs": 20}


def warm_up():
    warm_up_sim()


def _case(c, before0, moving=False):
    rng = c.rng
    block = int(rng.choice([1, 2, 4, 9]))
    buf = int(2 * block + rng.choice([0, 1, 2, 5, 20, 60, 130]))
    tot = int(rng.integers(5, 90))
    scene = Scene(rng, ctrl="some", max_ch=4)
    if not scene.free():
        scene.srcs[0]["kind"] = "free"
    cfg = dict(tot_samples=tot, sim_buffer=buf, sim_chunk_size=int(rng.integers(max(2, block), 120)),
               start_sources_before_0=before0, save_source_contributions=bool(rng.integers(2)))
    if moving:
        cfg |= dict(reverb="ism", room_size=[6.0, 5.0, 4.0], room_center=[0.0, 0.0, 0.0], max_room_ir_length=50)
    setup = scene.build(**cfg)
    if moving:
        setup.add_mics("moving", tr.Trajectory(lambda n: np.array([[0.3, 1.2, -0.3]])))
        if moving == "both":
            n, seed = int(rng.integers(1, 4)), int(rng.integers(1 << 30))
            places = rng.uniform(-1.4, -0.2, size=(n, 3))
            setup.add_free_source("carried", tr.Trajectory(lambda t: places.copy()), TraceSource(n, seed))
            scene.srcs.append(dict(name="carried", kind="free", num=n, seed=seed))
    sim = setup.create_simulator()
    if moving == "both":
        for m in scene.mics:
            scene.paths["carried", m["name"]] = np.array(sim.arrays.paths["carried"][m["name"]])
    names = {s["name"]: s["num"] for s in scene.srcs} | {m["name"]: m["num"] for m in scene.mics}
    if moving:
        names["moving"] = 1
        scene.mics.append(dict(name="moving", num=1, kind="moving"))
        for s in scene.srcs:
            scene.paths[(s["name"], "moving")] = np.array(sim.arrays.paths[s["name"]]["moving"])
    contrib = {f"{s['name']}~{m['name']}": m["num"] for s in scene.srcs for m in scene.mics} if cfg["save_source_contributions"] else {}
    recs = record(sim, names | contrib)
    with_proc = bool(rng.integers(3))
    if with_proc:
        proc = Probe(sim.sim_info, sim.arrays, block)
        sim.add_processor(proc)
    sim.run_simulation()
    h = buf - 1
    ref = {}
    for s in scene.srcs:
        v = np.zeros((s["num"], h + tot))
        if s["kind"] == "free":
            tab = simlib.table(s["num"], s["seed"])
            if before0:
                v[:] = tab[:, :h + tot]
            else:
                v[:, h:] = tab[:, :tot]
        ref[s["name"]] = v
    for m in scene.mics:
        ref[m["name"]] = 0
        for s in scene.srcs:
            part = convolve(scene.path(s, m), ref[s["name"]])
            ref[f"{s['name']}~{m['name']}"] = part
            ref[m["name"]] = ref[m["name"]] + part
    for name in list(names) + list(contrib):
        kind = "source" if name in [s["name"] for s in scene.srcs] else "mic" if name in names else "contribution"
        c.same(recs[name].get_output(), ref[name][:, h:], f"{kind}-from-0", f"{name} from time 0 on (sound before 0: {before0})")
        c.count("first_samples", ref[name][:, h:].size)
        if with_proc and len(proc.log) and block <= tot:
            e = proc.log[0]
            past = e["sig"][name]
            n_past = past.shape[-1] - block
            # the whole history is visible unless the buffer was wrapped before the first call
            seen = h if cfg["sim_chunk_size"] >= 2 * block else min(h, n_past)
            if c.check(n_past >= seen, "history-missing", f"only {n_past} samples before time 0 with buffer {buf}"):
                before = past[:, n_past - seen:n_past]
                c.same(before, ref[name][:, h - seen:h], f"{kind}-before-0", f"{name} before time 0 (sound before 0: {before0})")
                c.check(not np.any(past[:, :n_past - seen]), "before-history", f"{name} is not silent before the history")
                c.count("history_samples", before.size)
    for s in scene.free():
        calls = sim.arrays[s["name"]].source.calls
        first = buf if before0 else 1
        total = 0
        for start, n in calls:
            c.check(start == total, "source-continues", f"{s['name']} was asked for {n} samples at {start}, {total} were played")
            total += n
        c.check(total >= tot + first - 1, "source-continues", f"{s['name']} played {total} samples")
    c.count("stationary_runs" if before0 else "silent_runs")
    if any(h.shape[-1] > 1 for h in scene.paths.values()) and any(v > 1 for v in names.values()):
        c.nontrivial(before0, moving, buf, block if with_proc else 0, tuple(sorted(names.values())))
    c.note(before0=before0, moving=moving, block=block, probe=with_proc, **cfg, **scene.describe())


@case(quick=50, thorough=2000)
def silent(c):
    _case(c, False)


@case(quick=70, thorough=3000)
def stationary(c):
    _case(c, True)


@case(quick=8, thorough=300)
def stationary_moving(c):
    _case(c, bool(c.rng.integers(2)), moving=True)


@case(quick=10, thorough=300)
def both_moving(c):
    _case(c, bool(c.rng.integers(3)), moving="both")
