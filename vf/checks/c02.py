"""C02: buffer, chunk and listening block size never change results."""
import numpy as np

import aspsim.diagnostics.diagnosticscollection as diacol

from vf.core import case
from vf.simlib import *  # noqa: F403
from vf import simlib

RULE = ("Each case runs one scene with a reference size (one chunk longer than the simulation) and with 4-6 other admissible sizes, among "
        "them the smallest ones; all signals, diagnostics and exported arrays must be equal. Non-trivial: the compared run wrapped its "
        "buffer at least once or used another block size.")
ASSUMPTIONS = ["sim_buffer >= 2 blocks, sim_chunk_size >= max(block, 2)", "start_sources_before_0 is off (stated in the property)"]
NEED = {"runs_compared": 100, "chunk_wraps": 500, "files_compared": 50}


def warm_up():
    warm_up_sim(dynamic=True)


def _cos(val):
    return float(np.sum(np.cos(val)))


class Adaptive(AudioProcessor):
    """Drives the sources with a function of everything it has heard, and keeps a state."""

    def __init__(self, sim_info, arrays, block_size, ins, outs):
        super().__init__(sim_info, arrays, block_size)
        self.name = "adaptive"
        self.ins, self.outs = ins, outs
        self.state = np.zeros(3)
        self.mat = np.eye(3)
        self.sig.create_signal("memory", (2,))

    def process(self, num_samples):
        i, b = self.sig.idx, self.block_size
        heard = sum(np.sum(self.sig[n][:, i - b:i], axis=0) for n in self.ins)
        old = sum(np.sum(self.sig[n][:, i - 2 * b:i - b], axis=0) for n in self.ins)
        self.sig["memory"][0, i:i + b] = 0.5 * self.sig["memory"][0, i - b:i] + 0.01 * heard
        self.sig["memory"][1, i:i + b] = heard
        self.state = 0.9 * self.state + 0.01 * np.array([np.sum(heard), np.sum(old), heard[-1]])
        self.mat = np.eye(3) + np.outer(self.state, self.state)
        for k, n in enumerate(self.outs):
            self.sig[n][:, i:i + b] = 0.01 * (k + 1) * np.tanh(heard) + 0.003 * old + self.state[2] * 0.01


def _listen(sim, block):
    p = Probe(sim.sim_info, sim.arrays, block, {}, full_history=False)
    p.watch = []
    return p


def _run(c, scene, cfg, diags, block, driven, fig):
    setup = scene["scene"].build(fig, **cfg)
    for name, traj in scene["moving"].items():
        if name.startswith("mm"):
            setup.add_mics(name, traj)
        else:
            setup.add_free_source(name, traj, TraceSource(1, scene["seed"]))
    for pair, h in scene["extra_paths"].items():
        setup.set_path(*pair, h)
    sim = setup.create_simulator()
    if block is not None:
        if driven:
            ins = [m["name"] for m in scene["scene"].mics]
            outs = [s["name"] for s in scene["scene"].ctrl()]
            sim.add_processor(Adaptive(sim.sim_info, sim.arrays, block, ins, outs))
        else:
            sim.add_processor(_listen(sim, block))
    recs = record(sim, {a.name: a.num for a in sim.arrays})
    if cfg.get("save_source_contributions"):
        recs |= record(sim, {f"{s.name}~{m.name}": m.num for s, m in sim.arrays.mic_src_combos()})
    extra = {}
    mic = scene["scene"].mics[0]["name"]
    tot = cfg["tot_samples"]
    kw = dict(export_func="npz")
    extra["pow"] = dia.SignalPower(mic, sim.sim_info, diags["exports"], **kw)
    extra["ratio"] = dia.SignalPowerRatio(mic, scene["scene"].srcs[0]["name"], sim.sim_info, diags["exports"], **kw)
    extra["part"] = dia.RecordSignal(mic, sim.sim_info, diags["exports"], diacore.IntervalCounter(diags["intervals"]), num_channels=scene["scene"].mics[0]["num"], **kw)
    a, b = diags["range"]
    extra["summary"] = diacol.SignalSummary(mic, sim.sim_info, (a, b))
    if driven and block is not None:
        extra["state"] = dia.RecordState("state", 3, sim.sim_info, diags["exports"], diags["freq"], **kw)
        extra["spow"] = dia.StatePower("state", sim.sim_info, diags["exports"], diags["freq"], **kw)
        extra["ssum"] = dia.StateSummary(_cos, "state", sim.sim_info, diags["exports"], diags["freq"], **kw)
        extra["eig"] = diacol.EigenvaluesOverTime("mat", (0, 2), sim.sim_info, diags["exports"], diags["freq"], **kw)
        extra["filt"] = dia.RecordFilter("state", sim.sim_info, save_at=list(diags["exports"]), **kw)
        extra["mem"] = dia.RecordSignal("memory", sim.sim_info, diags["exports"], num_channels=2, **kw)
    for n, d in extra.items():
        sim.diag.add_diagnostic(n, d)
    sim.run_simulation()
    out = {"rec:" + k: v.get_output() for k, v in recs.items()}
    out |= {"diag:" + k: np.array(d.get_output(), dtype=float) for k, d in extra.items() if k != "filt"}
    files = {}
    if sim.folder_path is not None:
        for f in sorted(sim.folder_path.iterdir()):
            if f.suffix == ".npz":
                with np.load(f) as d:
                    files[f.name] = {k: d[k].copy() for k in d.files}
            elif f.name.startswith("summary"):
                files[f.name] = {"text": np.array(list(__import__("json").loads(f.read_text()).values()))}
    for name in scene["moving"]:
        arr = sim.arrays[name]
        out["pos:" + name] = np.array([p for t, p in zip(arr.time_all, arr.pos_all) if t < tot])
    return out, files


def _compare(c, ref, other, what):
    c.count("runs_compared")
    (ro, rf), (oo, of) = ref, other
    c.check(set(ro) == set(oo), "signals-differ", lambda: f"{what}: signals {set(ro) ^ set(oo)}")
    for k in sorted(set(ro) & set(oo)):
        c.same(oo[k], ro[k], k.split(":")[0] + "-differs", f"{what}: {k}")
    c.check(set(rf) == set(of), "files-differ", lambda: f"{what}: files {sorted(set(rf) ^ set(of))}")
    for f in sorted(set(rf) & set(of)):
        c.check(set(rf[f]) == set(of[f]), "file-keys-differ", f"{what}: {f}")
        for k in set(rf[f]) & set(of[f]):
            c.same(of[f][k], rf[f][k], "export-differs", f"{what}: {k} in {f}")
        c.count("files_compared")


def _case(c, driven, moving):
    rng = c.rng
    block = int(rng.choice([1, 2, 3, 4, 6, 7, 11])) if driven else None
    tot = int(rng.integers(25, 130))
    sc = Scene(rng, max_src=2, max_mic=2, max_ch=2, ctrl="one" if driven else "none", max_ir=25)
    scene = {"scene": sc, "moving": {}, "extra_paths": {}, "seed": int(rng.integers(1 << 30))}
    f = int(rng.integers(1, 12))
    cfg = dict(tot_samples=tot, save_source_contributions=bool(rng.integers(2)), array_update_freq=f)
    if moving:
        a, b = rng.normal(size=3), rng.normal(size=3)
        tra = tr.Trajectory(lambda n: (0.3 * np.sin(n / 9 + a))[None, :])
        name = ["mm", "mf"][int(rng.integers(2))]
        scene["moving"][name] = tra
        cfg |= dict(reverb="ism", room_size=[5.0, 4.0, 3.0], room_center=[0.0, 0.0, 0.0], max_room_ir_length=40)
    exports = sorted(set(int(v) for v in rng.integers(max(block or 1, 1), tot + 1, size=3)))
    cuts = sorted(set(int(v) for v in rng.integers(0, tot + 1, size=6)))
    intervals = [(cuts[i], cuts[i + 1]) for i in range(0, len(cuts) - 1, 2)] or [(0, tot)]
    start = int(rng.integers(0, tot - 5))
    diags = dict(exports=exports, intervals=intervals, freq=int(rng.integers(max(2, block or 1), max(3, tot // 2))),
                 range=(start, int(rng.integers(start + 2, tot + 1))))
    plot = "pdf" if rng.random() < 0.3 else "none"
    b = block or 1

    def once(buf, chunk, blk):
        fig = c.tmp() if plot != "none" else None
        return _run(c, scene, dict(cfg, sim_buffer=buf, sim_chunk_size=chunk, plot_output=plot), diags, blk, driven, fig)

    # A processor can look back at least buffer - block samples at any time, and this one looks back two blocks
    least = 3 * b if driven else max(2 * b, 2)
    ref = once(least + 5, tot + 50, block)
    sizes = [(least, max(b, 2)), (least + 1, max(b, 2) + 1)]
    for _ in range(2):
        sizes.append((int(least + rng.integers(0, 60)) + 1, int(max(b, 2) + rng.integers(0, 40))))
    for buf, chunk in sizes:
        _compare(c, ref, once(buf, chunk, block), f"buffer {buf}, chunk {chunk}, block {block} against one chunk")
        c.count("chunk_wraps", tot // chunk)
        c.nontrivial(driven, moving, buf, chunk, block, tot)
    if not driven:
        for blk in (1, int(rng.integers(2, 14))):
            buf, chunk = 2 * blk + int(rng.integers(0, 9)), blk + int(rng.integers(1, 30))
            _compare(c, ref, once(max(buf, 2), max(chunk, 2), blk), f"listening block {blk} (buffer {buf}, chunk {chunk}) against no processor")
            c.nontrivial("listen", buf, chunk, blk, tot)
    c.note(tot=tot, block=block, sizes=sizes, exports=exports, intervals=intervals, moving=list(scene["moving"]), **sc.describe())


@case(quick=24, thorough=800)
def passive(c):
    _case(c, False, False)


@case(quick=24, thorough=800)
def driven_sources(c):
    _case(c, True, False)


@case(quick=8, thorough=250)
def moving_passive(c):
    _case(c, False, True)


@case(quick=8, thorough=250)
def moving_driven(c):
    _case(c, True, True)
