"""C03: what a processor sees, and what becomes of what it writes."""
import numpy as np

from vf.core import case
from vf.simlib import *  # noqa: F403
from vf import simlib

RULE = ("A probe processor logs the whole visible past and future of every signal at each call and plays known unique samples; an offline "
        "checker compares the log with a reference simulation by convolution. Random block, buffer, chunk and total lengths, scenes with "
        "1-3 source and microphone arrays, own signals with 0-2 leading dimensions. "
        "Closed loops, also with the debug processor of the package, are compared sample by sample with a recursion. Non-trivial: at least two calls and one buffer wrap.")
ASSUMPTIONS = ["sim_buffer >= 2 blocks, sim_chunk_size >= 1 block, one processor", "the visible past is everything before the current index in the signal"]
NEED = {"loop_samples": 5000, "calls": 1000, "past_samples": 50000, "future_samples": 50000, "driven_samples": 1000, "own_signal_samples": 500, "chunk_wraps": 100}


def warm_up():
    warm_up_sim()


def _setup(c, ctrl, blocks=(1, 2, 3, 5, 8, 13, 32)):
    rng = c.rng
    block = int(rng.choice(blocks))
    t = timing(rng, block)
    scene = Scene(rng, ctrl=ctrl, cfg=dict(t, save_source_contributions=bool(rng.integers(2))))
    return rng, block, t, scene


def _reference(scene, drive, block, n, buf, before0):
    """All signals for the times -(buf-1) .. n-1."""
    h = buf - 1
    x, sig = {}, {}
    for s in scene.srcs:
        v = np.zeros((s["num"], h + n))
        if s["kind"] == "free":
            tab = simlib.table(s["num"], s["seed"])
            if before0:
                v[:] = tab[:, :h + n]
            else:
                v[:, h:] = tab[:, :n]
        elif s["name"] in drive:
            v[:, h + block:] = drive[s["name"]][:, block:n]
        x[s["name"]] = v
    sig |= x
    for m in scene.mics:
        sig[m["name"]] = 0
        for s in scene.srcs:
            part = convolve(scene.path(s, m), x[s["name"]])
            sig[m["name"]] = sig[m["name"]] + part
            sig[f"{s['name']}~{m['name']}"] = part
    return sig


def _check_log(c, proc, ref, block, t, own=()):
    buf, chunk, tot = t["sim_buffer"], t["sim_chunk_size"], t["tot_samples"]
    h = buf - 1
    c.count("calls", len(proc.log))
    c.check(len(proc.log) >= -(-tot // block), "too-few-calls", f"{len(proc.log)} calls with block {block} for {tot} samples")
    c.check(len(proc.log) <= tot // block + 1, "too-many-calls", f"{len(proc.log)} calls with block {block} for {tot} samples")
    for k, e in enumerate(proc.log):
        idx = e["idx"]
        now = (k + 1) * block  # first time not yet simulated
        c.check(e["num"] == block, "block-size", f"called with {e['num']} samples instead of {block}")
        c.check(idx - block >= 0, "block-incomplete", f"call {k}: only {idx} samples of {block} visible", stop=True)
        c.check(idx >= buf - block, "history-short", f"call {k}: only {idx} past samples with buffer {buf} and block {block}")
        for name, s in e["sig"].items():
            if name in own:
                continue
            if not c.check(name in ref, "unknown-signal", f"signal {name}"):
                continue
            want = ref[name][..., :now + h]
            want = np.concatenate((np.zeros(want.shape[:-1] + (max(0, idx - want.shape[-1]),)), want), -1)[..., -idx:]
            c.same(s[..., -block:], want[..., -block:], "block-samples", f"call {k}: block of {name}, time {now - block} to {now}")
            c.same(s, want, "history-samples", f"call {k}: past of {name} before time {now}")
            c.count("past_samples", s.size)
            fut = e["future"][name]
            c.check(fut.shape[-1] >= block, "no-room", f"call {k}: only {fut.shape[-1]} samples can be written to {name}")
            c.check(not np.any(fut), "future-visible", f"call {k}: {name} has values at time {now} or later")
            c.count("future_samples", fut.size)
    c.count("chunk_wraps", tot // chunk)
    if len(proc.log) > 1 and tot > chunk:
        c.nontrivial(block, buf, chunk, tot, tuple(sorted(proc.log[0]["sig"])))


@case(quick=50, thorough=2000)
def listens(c):
    rng, block, t, scene = _setup(c, "none")
    before0 = bool(rng.random() < 0.3)
    sim = scene.build(start_sources_before_0=before0).create_simulator()
    proc = Probe(sim.sim_info, sim.arrays, block)
    sim.add_processor(proc if rng.integers(2) else [proc])
    sim.run_simulation()
    n = len(proc.log) * block
    _check_log(c, proc, _reference(scene, {}, block, n, t["sim_buffer"], before0), block, t)
    c.check(all(f"{s['name']}~{m['name']}" in proc.log[0]["sig"] for s in scene.srcs for m in scene.mics)
            if scene.cfg["save_source_contributions"] else True, "contributions-not-visible")
    c.note(block=block, before0=before0, calls=len(proc.log), **t, **scene.describe())


@case(quick=60, thorough=2500)
def drives(c):
    """What is written for a block is played in that block, unchanged, and heard through the paths."""
    rng, block, t, scene = _setup(c, "one")
    before0 = bool(rng.random() < 0.2)
    sim = scene.build(start_sources_before_0=before0).create_simulator()
    drive = {s["name"]: simlib.table(s["num"], s["seed"]) for s in scene.ctrl()}
    kept = {k: v.copy() for k, v in drive.items()}
    proc = Probe(sim.sim_info, sim.arrays, block, drive, add=bool(rng.integers(2)))
    sim.add_processor(proc)
    recs = record(sim, {s["name"]: s["num"] for s in scene.srcs} | {m["name"]: m["num"] for m in scene.mics})
    sim.run_simulation()
    n, tot, h = len(proc.log) * block, t["tot_samples"], t["sim_buffer"] - 1
    ref = _reference(scene, drive, block, n, t["sim_buffer"], before0)
    _check_log(c, proc, ref, block, t)
    for s in scene.ctrl():
        want = np.zeros((s["num"], tot))
        want[:, block:] = kept[s["name"]][:, block:tot]
        c.same(recs[s["name"]].get_output(), want, "driven-signal", f"what {s['name']} played (block {block})")
        c.count("driven_samples", want.size)
    upto = min(n, tot)
    for m in scene.mics:
        c.same(recs[m["name"]].get_output()[:, :upto], ref[m["name"]][:, h:h + upto], "heard-signal", f"what {m['name']} heard")
    for k, v in kept.items():
        c.check(np.array_equal(drive[k], v), "user-values-changed", f"values written to {k} were changed")
    c.note(block=block, before0=before0, calls=len(proc.log), **t, **scene.describe())


class OwnSignals(AudioProcessor):
    def __init__(self, sim_info, arrays, block_size, dims, where):
        super().__init__(sim_info, arrays, block_size)
        self.name = "own"
        self.dims, self.where = dims, where
        self.k = 0
        self.log = []
        if where == "constructor":
            self.make()

    def make(self):
        for name, dim in self.dims.items():
            self.sig.create_signal(name, dim)

    def prepare(self):
        if self.where == "prepare":
            self.make()

    def process(self, num_samples):
        i, b = self.sig.idx, self.block_size
        entry = {"idx": i}
        for name in self.dims:
            entry[name] = self.sig[name][..., :i].copy()
            entry["shape", name] = self.sig[name].shape
            entry["future", name] = self.sig[name][..., i:].copy()
        self.log.append(entry)
        for j, name in enumerate(self.dims):
            shape = self.sig[name].shape[:-1]
            times = np.arange((self.k + 1) * b, (self.k + 2) * b)
            self.sig[name][..., i:i + b] = own_value(shape, times, j)
        self.k += 1


def own_value(shape, times, j):
    n = int(np.prod(shape, dtype=int))
    return (np.arange(n)[:, None] * 1000003 + times[None, :] + 0.25 * j + 1).reshape(shape + (len(times),))


@case(quick=30, thorough=800)
def own_signals(c):
    rng, block, t, scene = _setup(c, "some")
    dims = {"q": int(rng.integers(1, 4)), "r": (int(rng.integers(1, 3)), int(rng.integers(1, 4))), "t": (1,)}
    if rng.random() < 0.4:
        dims["u"] = ()
    if rng.random() < 0.4:
        dims["deep"] = tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(3, 6))))
    sim = scene.build().create_simulator()
    proc = OwnSignals(sim.sim_info, sim.arrays, block, dims, str(rng.choice(["constructor", "prepare"])))
    sim.add_processor(proc)
    recs = record(sim, {"q": dims["q"]})
    sim.run_simulation()
    length = t["sim_buffer"] + t["sim_chunk_size"]
    for k, e in enumerate(proc.log):
        now = (k + 1) * block
        for j, (name, dim) in enumerate(dims.items()):
            shape = (dim,) if isinstance(dim, int) else tuple(dim)
            c.check(e["shape", name] == shape + (length,), "own-shape", f"signal {name} has shape {e['shape', name]}")
            i = e["idx"]
            times = np.arange(now - i, now)
            want = own_value(shape, times, j)
            want[..., times < block] = 0
            c.same(e[name], want, "own-values", f"call {k}: past of the own signal {name}")
            c.check(not np.any(e["future", name]), "own-future", f"call {k}: {name} has values not yet written")
            c.count("own_signal_samples", want.size)
    tot = t["tot_samples"]
    want = own_value((dims["q"],), np.arange(tot), 0)
    want[:, :block] = 0
    c.same(recs["q"].get_output(), want, "own-recorded", "recording of the own signal")
    c.check(len(proc.log) >= -(-tot // block), "too-few-calls", f"{len(proc.log)} calls")
    c.count("calls", len(proc.log))
    c.nontrivial("own", block, proc.where, tuple(sorted(dims)))
    c.note(block=block, dims=dims, where=proc.where, **t)


@case(quick=10, thorough=300)
def moving_scene(c):
    """The contract is the same when arrays move: what is recorded is what the processor saw."""
    rng, block, t, scene = _setup(c, "one", blocks=(1, 3, 4, 7))
    setup = scene.build(reverb="ism", room_size=[6.0, 5.0, 4.0], room_center=[0.0, 0.0, 0.0], max_room_ir_length=60,
                        array_update_freq=int(rng.integers(1, 20)), tot_samples=min(70, t["tot_samples"]))
    t["tot_samples"] = min(70, t["tot_samples"])
    setup.add_mics("moving", tr.Trajectory(lambda n: np.array([[0.5 * np.sin(n / 13), 1.2, 0.3 * np.cos(n / 7)]])))
    sim = setup.create_simulator()
    drive = {s["name"]: simlib.table(s["num"], s["seed"]) for s in scene.ctrl()}
    proc = Probe(sim.sim_info, sim.arrays, block, drive)
    sim.add_processor(proc)
    recs = record(sim, {s["name"]: s["num"] for s in scene.srcs} | {m["name"]: m["num"] for m in scene.mics} | {"moving": 1})
    sim.run_simulation()
    n, tot, h = len(proc.log) * block, t["tot_samples"], t["sim_buffer"] - 1
    ref = {k: r.get_output() for k, r in recs.items()}
    for name, r in ref.items():
        c.check(np.all(np.isfinite(r)), "not-recorded", f"{name} has {np.sum(~np.isfinite(r))} samples that are not finite")
    static = _reference(scene, drive, block, n, t["sim_buffer"], False)
    full = {}
    for name, r in ref.items():
        v = np.zeros((r.shape[0], h + max(n, tot)))
        v[:, h:h + tot] = r
        if n > tot:  # not recorded, but seen by the last call
            v[:, h + tot:h + n] = proc.log[-1]["sig"][name][:, proc.log[-1]["idx"] - (n - tot):]
        full[name] = v
        if name != "moving":
            c.same(v[:, :h + n], static[name], "static-in-moving-scene", f"{name}")
    for e in proc.log:
        e["sig"] = {k: v for k, v in e["sig"].items() if k in full}
    _check_log(c, proc, full, block, t)
    c.note(block=block, **t)


class Feedback(AudioProcessor):
    """Plays a mix of what the microphones heard in the block that just passed."""

    def __init__(self, sim_info, arrays, block_size, mix, where):
        super().__init__(sim_info, arrays, block_size)
        self.name, self.mix, self.where = "feedback", mix, where

    def process(self, num_samples):
        i, b = self.sig.idx, num_samples
        for (mic, ls), g in self.mix.items():
            self.sig[ls][:, i:i + b] += g @ self.sig[mic][:, i - b:i]


def _closed_loop(paths, free, ctrl, mics, mix, block, n):
    """paths: (source, mic) to response; free: name to samples; ctrl, mics: name to number of channels. Sample by sample."""
    x = {**{k: v[:, :n] for k, v in free.items()}, **{k: np.zeros((num, n)) for k, num in ctrl.items()}}
    y = {k: np.zeros((num, n)) for k, num in mics.items()}
    for t in range(n):
        if t >= block:
            for (mic, ls), g in mix.items():
                x[ls][:, t] += g @ y[mic][:, t - block]
        for (s, m), h in paths.items():
            k = min(h.shape[-1], t + 1)
            y[m][:, t] += np.einsum("smk,sk->m", h[..., :k], x[s][:, t - k + 1:t + 1][:, ::-1])
    return {**x, **y}


@case(quick=30, thorough=900)
def feedback(c):
    """A processor that reacts to the microphones: each sample depends on all before it through paths and blocks."""
    rng, block, t, scene = _setup(c, "one")
    sim = scene.build().create_simulator()
    mix, paths = {}, {}
    for s in scene.srcs:
        for m in scene.mics:
            h = scene.path(s, m)
            paths[s["name"], m["name"]] = h
            if s["kind"] == "ctrl" and rng.random() < 0.8:
                g = rng.normal(size=(s["num"], m["num"]))
                strength = np.sum(np.abs(np.einsum("smk,sn->mnk", h, g))) if h.size else 0
                mix[m["name"], s["name"]] = g * 0.8 / max(strength, 1e-3) / len(scene.mics)
    sim.add_processor(Feedback(sim.sim_info, sim.arrays, block, mix, ""))
    recs = record(sim, {a["name"]: a["num"] for a in scene.srcs + scene.mics})
    sim.run_simulation()
    tot = t["tot_samples"]
    free = {s["name"]: simlib.table(s["num"], s["seed"]) for s in scene.free()}
    if not free:  # nothing to react to: only silence may come out
        c.count("silent_loops")
    want = _closed_loop(paths, free, {s["name"]: s["num"] for s in scene.ctrl()}, {m["name"]: m["num"] for m in scene.mics}, mix, block, tot)
    for name, r in recs.items():
        c.same(r.get_output(), want[name], "closed-loop", f"{name}, block {block}", rtol=1e-7, atol=1e-7)
        c.count("loop_samples", want[name].size)
    if free and mix:
        c.nontrivial("loop", block, len(mix))
    c.note(block=block, **t, **scene.describe())


@case(quick=8, thorough=200)
def debug_processor(c):
    """The processor of the package for debugging repeats the microphones, and keeps what both signals were."""
    from aspsim.processor import DebugProcessor
    rng = c.rng
    block, n = int(rng.choice([1, 3, 8, 17])), int(rng.integers(1, 4))
    t = timing(rng, block)
    setup = configure(SimulatorSetup(), **t)
    seed = int(rng.integers(1 << 30))
    paths = {("loudspeaker", "mic"): rng.normal(size=(n, n, int(rng.integers(1, 20)))), ("source", "mic"): rng.normal(size=(2, n, int(rng.integers(1, 20))))}
    paths["loudspeaker", "mic"] *= 0.7 / np.sum(np.abs(paths["loudspeaker", "mic"]))
    for f in rng.permutation(3):
        if f == 0:
            setup.add_mics("mic", rand_pos(rng, n))
        elif f == 1:
            setup.add_controllable_source("loudspeaker", rand_pos(rng, n))
        else:
            setup.add_free_source("source", rand_pos(rng, 2), TraceSource(2, seed))
    for (s, m), h in paths.items():
        setup.set_path(s, m, h.copy())
    sim = setup.create_simulator()
    proc = DebugProcessor(sim.sim_info, sim.arrays, block)
    first = np.array(proc.filt.ir)
    sim.add_processor(proc)
    sim.run_simulation()
    tot = t["tot_samples"]
    want = _closed_loop(paths, {"source": simlib.table(2, seed)}, {"loudspeaker": n}, {"mic": n}, {("mic", "loudspeaker"): np.eye(n)}, block, tot)
    c.check(proc.manual_idx == tot, "debug-count", f"{proc.manual_idx} samples noted of {tot}")
    c.check(proc.processed_samples >= tot and proc.processed_samples % block == 0, "debug-count", f"{proc.processed_samples} samples processed of {tot}")
    c.same(proc.mic, want["mic"], "debug-mic", f"block {block}", rtol=1e-7, atol=1e-7)
    c.same(proc.ls, want["loudspeaker"], "debug-ls", f"block {block}", rtol=1e-7, atol=1e-7)
    c.same(proc.filt.ir, first + proc.processed_samples, "debug-filter", f"block {block}")
    c.count("loop_samples", 2 * n * tot)
    c.nontrivial("debug", block, n)
    c.note(block=block, **t)
