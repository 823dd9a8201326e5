"""C01: microphones = sum over sources of source signal convolved with the path."""
import numpy as np

from vf.core import case
from vf.simlib import *  # noqa: F403
from vf import simlib

RULE = ("Random scenes (1-3 source arrays, free or driven by a processor, 1-3 microphone arrays of three kinds, 1-3 channels, "
        "random impulse responses of length 1-61, random buffer/chunk/total lengths), each simulated by the real code and compared "
        "sample by sample with an independent convolution. Non-trivial: some non-zero microphone sample was observed after the "
        "buffer was wrapped at least once, or contributions of several arrays were added.")
ASSUMPTIONS = ["sim_buffer >= 2 blocks, sim_chunk_size >= 1 block, one processor (documented limits)",
               "floating-point comparison with rtol 1e-7"]
NEED = {"mic_samples": 5000, "source_samples": 3000, "contribution_samples": 1000, "chunk_wraps": 50, "pairs_with_the_same_array": 20, "samples_of_any_scale": 2000, "arrays_without_channels": 3}


def warm_up():
    warm_up_sim()


def _observe(c, with_proc):
    rng = c.rng
    block = int(rng.choice([1, 2, 3, 5, 8, 17])) if with_proc else None
    t = timing(rng, block)
    contrib = bool(rng.integers(2))
    scene = Scene(rng, ctrl="one" if with_proc else "some", cfg=dict(save_source_contributions=contrib, **t), empty=0.1 * (c.index % 3 == 0))
    setup = scene.build()
    sim = setup.create_simulator()
    tot = t["tot_samples"]
    drive = {}
    if with_proc:
        for s in scene.ctrl():
            drive[s["name"]] = simlib.table(s["num"], s["seed"])
        proc = Probe(sim.sim_info, sim.arrays, block, drive, full_history=False)
        sim.add_processor(proc)
    sig = {s["name"]: s["num"] for s in scene.srcs} | {m["name"]: m["num"] for m in scene.mics}
    if contrib:
        sig |= {f"{s['name']}~{m['name']}": m["num"] for s in scene.srcs for m in scene.mics}
    recs = record(sim, sig)
    sim.run_simulation()

    x = {}
    for s in scene.srcs:
        x[s["name"]] = np.zeros((s["num"], tot))
        if s["kind"] == "free":
            x[s["name"]] = simlib.table(s["num"], s["seed"])[:, :tot]
        elif with_proc:
            x[s["name"]][:, block:] = simlib.table(s["num"], s["seed"])[:, block:tot]
        c.same(recs[s["name"]].get_output(), x[s["name"]], "source-signal", f"samples of source {s['name']}")
        c.count("source_samples", s["num"] * tot)
    for m in scene.mics:
        parts = {s["name"]: convolve(scene.path(s, m), x[s["name"]]) for s in scene.srcs}
        want = sum(parts.values())
        got = recs[m["name"]].get_output()
        c.same(got, want, "mic-signal", f"samples of microphone {m['name']}")
        c.count("mic_samples", m["num"] * tot)
        if contrib:
            total = 0
            for s in scene.srcs:
                p = recs[f"{s['name']}~{m['name']}"].get_output()
                total = total + p
                c.same(p, parts[s["name"]], "contribution", f"contribution of {s['name']} to {m['name']}")
                c.count("contribution_samples", m["num"] * tot)
            c.same(total, got, "contribution-sum", f"sum of the contributions to {m['name']}")
        else:
            for s in scene.srcs:
                c.check(f"{s['name']}~{m['name']}" not in sim.sig, "contribution-unasked", "contribution saved without being asked for")
    for s in scene.free():
        calls = sim.arrays[s["name"]].source.calls
        ends = [a + n for a, n in calls]
        c.check(all(calls[i][0] == ends[i - 1] for i in range(1, len(calls))) and calls[0][0] == 0 and ends[-1] >= tot,
                "source-calls", f"source {s['name']} was asked for samples out of order: {calls[:5]}")
    c.count("arrays_without_channels", sum(a["num"] == 0 for a in scene.srcs + scene.mics))
    wraps = tot // t["sim_chunk_size"]
    c.count("chunk_wraps", wraps)
    c.note(**t, block=block, contributions=contrib, **scene.describe())
    if wraps > 0 or len(scene.srcs) > 1:
        c.nontrivial(len(scene.srcs), len(scene.mics), block, contrib, t["sim_buffer"], t["sim_chunk_size"], tot)


@case(quick=60, thorough=3000)
def free_sources(c):
    _observe(c, False)


@case(quick=60, thorough=3000)
def with_processor(c):
    _observe(c, True)


@case(quick=10, thorough=300)
def impulse_identifies_path(c):
    """A single impulse on one channel: each microphone must give exactly that row of the path."""
    rng = c.rng
    scene = Scene(rng, max_src=2, max_mic=2, max_ch=3, ctrl="none", max_ir=40)
    ch = int(rng.integers(scene.srcs[0]["num"]))
    at = int(rng.integers(0, 30))
    t = timing(rng, min_buffer=4)
    t["tot_samples"] = at + 45
    setup = scene.build(**t)
    for i, s in enumerate(scene.srcs):
        audio = np.zeros((s["num"], at + 1))
        if i == 0:
            audio[ch, at] = 1.0
        setup.set_source(s["name"], sources.Sequence(audio, end_mode="zeros"))
    sim = setup.create_simulator()
    recs = record(sim, {m["name"]: m["num"] for m in scene.mics})
    sim.run_simulation()
    for m in scene.mics:
        h = scene.path(scene.srcs[0], m)[ch]
        want = np.zeros((m["num"], t["tot_samples"]))
        want[:, at:at + h.shape[-1]] = h
        c.same(recs[m["name"]].get_output(), want, "impulse-response", f"response at {m['name']} to an impulse at {at}", rtol=0, atol=1e-12)
        c.count("mic_samples", want.size)
    c.nontrivial(ch, at, t["sim_chunk_size"])
    c.note(at=at, channel=ch, **t, **scene.describe())


@case(quick=16, thorough=600)
def generated_paths(c):
    """The simulated sound uses precisely the paths which the simulator states, whatever their type."""
    rng = c.rng
    scene = Scene(rng, ctrl="none", all_paths=True)
    for key in list(scene.paths):
        if rng.random() < 0.7:
            del scene.paths[key]
    t = timing(rng)
    reverb = str(rng.choice(["random", "ism", "none", "random"]))
    setup = scene.build(reverb=reverb, save_source_contributions=True, max_room_ir_length=int(rng.integers(1, 200)),
                        room_size=[7.0, 5.0, 4.5], room_center=[0.3, 0.2, 0.1], rt60=float(rng.choice([0, 0.15])), **t)
    for s in scene.srcs:
        for m in scene.mics:
            if rng.random() < 0.3 and s["num"] == m["num"]:
                setup.arrays.set_path_types({s["name"]: {m["name"]: "direct"}})
    np.random.seed(int(rng.integers(1 << 30)))
    sim = setup.create_simulator()
    stated = {k: {k2: np.array(v2) for k2, v2 in v.items()} for k, v in sim.arrays.paths.items()}
    recs = record(sim, {m["name"]: m["num"] for m in scene.mics} | {f"{s['name']}~{m['name']}": m["num"] for s in scene.srcs for m in scene.mics})
    sim.run_simulation()
    for m in scene.mics:
        want = 0
        for s in scene.srcs:
            x = simlib.table(s["num"], s["seed"])[:, :t["tot_samples"]]
            part = convolve(stated[s["name"]][m["name"]], x)
            c.same(recs[f"{s['name']}~{m['name']}"].get_output(), part, "contribution", f"contribution {s['name']} to {m['name']}")
            want = want + part
        c.same(recs[m["name"]].get_output(), want, "mic-signal", f"{m['name']}")
        c.count("mic_samples", want.size)
    types = sorted({sim.arrays.path_type[s["name"]][m["name"]] for s in scene.srcs for m in scene.mics})
    c.nontrivial(*types)
    c.note(types=types, **t, **scene.describe())


@case(quick=24, thorough=800)
def same_object(c):
    """Several pairs are given the very same array, or views of it that are not contiguous."""
    rng = c.rng
    ns, nm = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    scene = Scene(rng, max_src=3, max_mic=3, ctrl="none", max_ir=12)
    for a in scene.srcs:
        a["num"], a["pos"] = ns, rand_pos(rng, ns)
    for a in scene.mics:
        a["num"], a["pos"] = nm, rand_pos(rng, nm)
    pool = rng.normal(size=(ns + 1, nm + 1, int(rng.integers(2, 25)), 2))
    views = [pool[:ns, :nm, :, 0], pool[1:, 1:, ::-1, 1], np.asfortranarray(pool[:ns, :nm, :, 1])][:int(rng.integers(1, 4))]
    scene.paths = {k: views[int(rng.integers(len(views)))] for k in scene.paths}
    t = timing(rng)
    contrib = bool(rng.integers(2))
    setup = scene.build(save_source_contributions=contrib, **t)
    together = {}
    for (s, m), h in scene.paths.items():
        together.setdefault(s, {})[m] = h
        if rng.integers(2):
            setup.set_path(s, m, h)
    if rng.integers(2):
        setup.arrays.set_prop_paths(together)
    before = pool.copy()
    sim = setup.create_simulator()
    recs = record(sim, {a["name"]: a["num"] for a in scene.srcs + scene.mics})
    sim.run_simulation()
    tot = t["tot_samples"]
    for m in scene.mics:
        want = sum(convolve(scene.path(s, m), simlib.table(s["num"], s["seed"])[:, :tot]) for s in scene.srcs)
        c.same(recs[m["name"]].get_output(), want, "mic-signal", f"microphone {m['name']}, {len(views)} arrays for {len(scene.paths)} pairs")
        c.count("mic_samples", want.size)
    c.same(pool, before, "path-changed", "the supplied array", rtol=0, atol=0)
    c.note(**t, **scene.describe())
    if len(scene.paths) > len(views):
        c.count("pairs_with_the_same_array", len(scene.paths))
        c.nontrivial("same object", len(scene.srcs), len(scene.mics), len(views))


@case(quick=24, thorough=800)
def any_scale(c):
    """Paths and signals of any size, silent channels, paths longer than the buffer and paths with all their energy far back."""
    rng = c.rng
    scene = Scene(rng, max_src=3, max_mic=3, max_ch=3, ctrl="none", max_ir=8)
    t = timing(rng, min_buffer=2)
    tot = t["tot_samples"] = int(rng.integers(60, 400))
    setup = scene.build(save_source_contributions=True, **t)
    x, paths, kinds = {}, {}, []
    for s in scene.srcs:
        x[s["name"]] = rng.normal(size=(s["num"], tot)) * 10.0 ** rng.uniform(-10, 6, size=(s["num"], 1))
        if rng.random() < 0.4:
            x[s["name"]][int(rng.integers(s["num"]))] = 0
        if rng.random() < 0.3:
            x[s["name"]][:, rng.random(tot) < 0.9] = 0
        setup.set_source(s["name"], sources.Sequence(x[s["name"]].copy(), end_mode="zeros"))
        for m in scene.mics:
            n = int(rng.choice([1, 2, 30, t["sim_buffer"] + t["sim_chunk_size"] + 7, 350]))
            h = rng.normal(size=(s["num"], m["num"], n))
            kind = str(rng.choice(["plain", "one tap", "late", "fading", "silent row", "constant"]))
            if kind == "one tap":
                h[..., :] = 0
                h[..., int(rng.integers(n))] = rng.normal(size=h.shape[:2])
            elif kind == "late":
                h[..., :(2 * n) // 3] = 0
            elif kind == "fading":
                h *= np.exp(-np.arange(n) / 10)
            elif kind == "silent row":
                h[int(rng.integers(s["num"]))] = 0
                h[:, int(rng.integers(m["num"]))] *= rng.integers(2)
            elif kind == "constant":
                h[...] = h[..., :1]
            h *= 10.0 ** rng.uniform(-12, 6)
            kinds.append(kind)
            paths[s["name"], m["name"]] = h
            setup.set_path(s["name"], m["name"], h.copy())
    sim = setup.create_simulator()
    recs = record(sim, {m["name"]: m["num"] for m in scene.mics} | {f"{s['name']}~{m['name']}": m["num"] for s in scene.srcs for m in scene.mics})
    sim.run_simulation()
    for m in scene.mics:
        total, size = 0, 0
        for s in scene.srcs:
            h = paths[s["name"], m["name"]]
            want = convolve(h, x[s["name"]])
            bound = max(np.max(np.abs(h[i])) * np.max(np.abs(x[s["name"]][i])) for i in range(s["num"])) * 1e-10 * min(h.shape[-1], tot)
            c.same(recs[f"{s['name']}~{m['name']}"].get_output(), want, "contribution", f"{s['name']} to {m['name']}, path of size {np.max(np.abs(h)):.1e}",
                   rtol=1e-7, atol=bound)
            total, size = total + want, size + bound
        c.same(recs[m["name"]].get_output(), total, "mic-signal", f"microphone {m['name']}", rtol=1e-7, atol=size)
        c.count("mic_samples", total.size)
        c.count("samples_of_any_scale", int(np.count_nonzero(total)))
    c.nontrivial("any scale", *sorted(set(kinds)))
    c.note(kinds=kinds, **t, **scene.describe())
