"""C05: signal recordings hold exactly the requested samples."""
import numpy as np

from vf.core import case
from vf.simlib import *  # noqa: F403
from vf import simlib

RULE = ("Several recordings with random intervals (lists of tuples, arrays, nested lists, single indices, generators), channel selections and "
        "signals run at the same time over random scenes and admissible buffer/chunk/block lengths. An offline checker compares each recorded "
        "value with the sample known from the source tables and the convolution reference, and demands nan everywhere else. Non-trivial: a "
        "recording with at least one boundary, and a run that wrapped its buffer.")
ASSUMPTIONS = ["intervals are increasing and do not overlap (documented)", "sim_buffer >= 1 block and 2 samples, sim_chunk_size >= max(block, 2)"]
NEED = {"recordings": 300, "requested_samples": 20000, "unrequested_samples": 10000, "chunk_wraps": 100, "intervals_across_chunks": 50,
        "channel_selections": 50, "incremental_reads": 500}


def warm_up():
    warm_up_sim()


def _intervals(rng, tot, chunk):
    """A set of increasing intervals within the simulation, and the indices it requests."""
    style = str(rng.choice(["one", "many", "single", "chunk", "adjacent", "ends", "equal", "equal", "equal"]))
    if style == "one":
        a = int(rng.integers(0, tot))
        ivs = [(a, int(rng.integers(a + 1, tot + 1)))]
    elif style == "chunk":  # boundaries at and next to the ends of the chunks
        pts = sorted({int(p) for k in range(1, tot // chunk + 1) for p in k * chunk + rng.integers(-2, 3, size=2)} | {0, tot})
        pts = [p for p in pts if 0 <= p <= tot]
        ivs = [(a, b) for a, b in zip(pts[:-1], pts[1:]) if rng.random() < 0.6] or [(0, tot)]
        ivs = [iv for i, iv in enumerate(ivs)]
    elif style == "adjacent":
        pts = sorted(rng.choice(tot + 1, size=min(tot + 1, int(rng.integers(2, 8))), replace=False).tolist())
        ivs = list(zip(pts[:-1], pts[1:]))
    elif style == "ends":
        ivs = [(0, 1), (tot - 1, tot)] if tot > 1 else [(0, 1)]
    elif style == "equal":  # one length over and over, with gaps
        n, gap = int(rng.integers(1, max(2, min(tot // 3, rng.choice([6, 12, 20, tot]))))), int(rng.integers(1, 4))
        ivs = [(a, min(a + n, tot)) for a in range(int(rng.integers(0, n + 1)), tot, n + gap)] or [(0, tot)]
    elif style == "single":
        pts = sorted(rng.choice(np.arange(1, tot + 1), size=min(tot, int(rng.integers(1, 12))), replace=False).tolist())
        ivs = [(p - 1, p) for p in pts]
    else:
        n = min((tot + 1) // 2, int(rng.integers(1, 7)))
        pts = sorted(rng.choice(tot + 1, size=2 * n, replace=False).tolist())
        ivs = list(zip(pts[::2], pts[1::2]))
    return style, [(int(a), int(b)) for a, b in ivs]


def _counter(rng, style, ivs):
    forms = ["tuples", "lists", "array", "iterator", "mixed"] + (["indices"] * 3 if style == "single" else [])
    form = str(rng.choice(forms))
    if form == "tuples":
        ic = diacore.IntervalCounter(tuple(ivs))
    elif form == "lists":
        ic = diacore.IntervalCounter([list(iv) for iv in ivs])
    elif form == "array":
        ic = diacore.IntervalCounter(np.array(ivs))
    elif form == "mixed":
        ic = diacore.IntervalCounter([iv if i % 2 else list(iv) for i, iv in enumerate(ivs)])
    elif form == "iterator":
        ic = diacore.IntervalCounter(iter(ivs), sum(b - a for a, b in ivs))
    else:
        ic = diacore.IntervalCounter([b for _, b in ivs])
    return form, ic


class Writer(AudioProcessor):
    """Writes known values into its own signal and plays known samples, and reads the recordings while they are made."""

    def __init__(self, sim_info, arrays, block_size, drive):
        super().__init__(sim_info, arrays, block_size)
        self.name = "writer"
        self.drive = drive
        self.k = 0
        self.recs = []
        self.seen = []
        self.sig.create_signal("own", 2)

    def process(self, num_samples):
        i, b = self.sig.idx, self.block_size
        t = np.arange((self.k + 1) * b, (self.k + 2) * b)
        self.sig["own"][:, i:i + b] = own_value(t)
        for name, v in self.drive.items():
            self.sig[name][:, i:i + b] = v[:, t[0]:t[-1] + 1]
        self.seen.append([r.get_output().copy() for r in self.recs])
        self.k += 1


def own_value(t):
    return np.stack([t * 7 + 0.5, -t * 3 - 0.25])


def _run(c, with_proc, before0=False):
    rng = c.rng
    block = int(rng.choice([1, 2, 3, 5, 8, 14, 21])) if with_proc else None
    t = timing(rng, block, tot_max=220)
    if with_proc and rng.random() < 0.4:  # the buffer holds little more than what one call of the processor adds
        t["sim_buffer"] = max(2, block + int(rng.integers(0, block // 2 + 2)))
        t["sim_chunk_size"] = max(2, block) + int(rng.integers(0, block + 2))
        t["tot_samples"] = max(t["tot_samples"], int(rng.integers(5, 12)) * block)
    tot, chunk, buf = t["tot_samples"], t["sim_chunk_size"], t["sim_buffer"]
    scene = Scene(rng, ctrl="one" if with_proc else "none", cfg=t)
    contrib = bool(rng.integers(2))
    sim = scene.build(save_source_contributions=contrib, start_sources_before_0=before0).create_simulator()
    drive = {s["name"]: simlib.table(s["num"], s["seed"]) for s in scene.ctrl()}
    x, ref, off = {}, {}, (buf - 1 if before0 else 0)
    for s in scene.srcs:
        if s["kind"] == "free":
            x[s["name"]] = simlib.table(s["num"], s["seed"])[:, :tot + off]
        else:
            x[s["name"]] = np.zeros((s["num"], tot + off))
            if with_proc:
                x[s["name"]][:, off + block:] = drive[s["name"]][:, block:tot]
    for m in scene.mics:
        parts = {s["name"]: convolve(scene.path(s, m), x[s["name"]]) for s in scene.srcs}
        ref[m["name"]] = sum(parts.values())
        if contrib:
            ref |= {f"{k}~{m['name']}": v for k, v in parts.items()}
    ref |= x
    ref = {k: v[:, off:] for k, v in ref.items()}
    proc = None
    if with_proc:
        proc = Writer(sim.sim_info, sim.arrays, block, drive)
        own = own_value(np.arange(tot))
        own[:, :block] = 0
        ref["own"] = own
        sim.add_processor(proc)
    recs = []
    names = sorted(ref)
    for k in range(int(rng.integers(2, 7))):
        name = str(rng.choice(names))
        full = ref[name]
        kw, want_rows = {"num_channels": full.shape[0]}, np.arange(full.shape[0])
        if rng.random() < 0.5:
            if rng.random() < 0.4:
                sel = int(rng.integers(full.shape[0]))
                if rng.random() < 0.3:
                    sel -= full.shape[0]
                kw, want_rows = {"channel_idx": sel}, [sel]
            else:
                sel = tuple(int(v) for v in rng.permutation(full.shape[0])[:int(rng.integers(1, full.shape[0] + 1))])
                if rng.random() < 0.25:  # a channel more than once, as any other numpy index
                    sel = tuple(int(v) for v in rng.integers(full.shape[0], size=int(rng.integers(1, 5))))
                if rng.random() < 0.3:
                    sel = tuple(v - full.shape[0] for v in sel)  # counted from the last channel
                kw, want_rows = {"channel_idx": list(sel) if rng.integers(2) else sel, "num_channels": len(sel)}, list(sel)
            c.count("channel_selections")
        elif full.shape[0] == 1 and rng.random() < 0.5:
            kw = {}
        if rng.random() < 0.2:
            style, form, ivs = "all", "default", [(0, tot)]
        else:
            style, ivs = _intervals(rng, tot, chunk)
            form, ic = _counter(rng, style, ivs)
            kw["save_at"] = ic
        rec = dia.RecordSignal(name, sim.sim_info, export_func="npz", **kw)
        if rng.integers(2):
            sim.diag.add_diagnostic(f"r{k}", rec)
        else:
            sim.diag[f"r{k}"] = rec
        want = np.full((len(want_rows), tot), np.nan)
        for a, b in ivs:
            want[:, a:b] = full[want_rows, a:b]
        recs.append((rec, want, name, style, form, ivs))
    if proc is not None:
        proc.recs = [r[0] for r in recs]
    sim.run_simulation()
    for rec, want, name, style, form, ivs in recs:
        got = rec.get_output()
        c.count("recordings")
        msg = f"recording of {name} with {form} {style} intervals {ivs[:6]}, {t}, block {block}"
        if c.check(got.shape == want.shape, "shape", f"{msg}: {got.shape} instead of {want.shape}"):
            req = ~np.isnan(want)
            c.check(not np.any(np.isnan(got) & req), "missing-samples", lambda: f"{msg}: no value at {np.argwhere(np.isnan(got) & req)[:4].tolist()}")
            c.check(not np.any(~np.isnan(got) & ~req), "unrequested-samples", lambda: f"{msg}: value at {np.argwhere(~np.isnan(got) & ~req)[:4].tolist()}")
            c.same(got[req], want[req], "values", msg)
            c.count("requested_samples", req.sum())
            c.count("unrequested_samples", (~req).sum())
        c.count("intervals_across_chunks", sum(a // chunk != (b - 1) // chunk for a, b in ivs))
        c.nontrivial(style, form, tot > chunk, block is None, contrib)
    if proc is not None:
        # whatever is readable during the run is final: never a wrong value, never one of the future
        for k, snap in enumerate(proc.seen):
            for got, (rec, want, name, *_r) in zip(snap, recs):
                there = ~np.isnan(got)
                c.count("incremental_reads")
                c.same(got[there], want[there], "values-during-run", f"{name} read at call {k}")
                c.check(not np.any(there[:, (k + 1) * block:]), "recorded-early", f"{name} read at call {k}")
    c.count("chunk_wraps", tot // chunk)
    c.note(block=block, before0=before0, recordings=[(r[2], r[3], r[4], r[5][:4]) for r in recs], **t)


@case(quick=70, thorough=3000)
def without_processor(c):
    _run(c, False, bool(c.rng.random() < 0.3))


@case(quick=70, thorough=3000)
def with_processor(c):
    _run(c, True, bool(c.rng.random() < 0.2))


@case(quick=12, thorough=300)
def moving_arrays(c):
    """Recordings of parts agree with a recording of everything while arrays move."""
    rng = c.rng
    block = int(rng.choice([1, 3, 7]))
    t = timing(rng, block, tot_max=90)
    tot, chunk = t["tot_samples"], t["sim_chunk_size"]
    setup = configure(SimulatorSetup(), **t, reverb="ism", max_room_ir_length=40, room_size=[5.0, 4.0, 3.0], room_center=[0.0, 0.0, 0.0],
                      array_update_freq=int(rng.integers(1, 12)))
    setup.add_free_source("s", tr.Trajectory(lambda n: np.array([[np.cos(n / 20), 1.0, 0.1]])), TraceSource(1, 5))
    setup.add_mics("m", rand_pos(rng, 3))
    sim = setup.create_simulator()
    if rng.integers(2):
        p = Probe(sim.sim_info, sim.arrays, block, {}, full_history=False)
        p.watch = []
        sim.add_processor(p)
    full = dia.RecordSignal("m", sim.sim_info, num_channels=3, export_func="npz")
    sim.diag.add_diagnostic("full", full)
    parts = []
    for k in range(4):
        style, ivs = _intervals(rng, tot, chunk)
        form, ic = _counter(rng, style, ivs)
        rec = dia.RecordSignal("m", sim.sim_info, num_channels=3, export_func="npz", save_at=ic)
        sim.diag.add_diagnostic(f"p{k}", rec)
        parts.append((rec, ivs))
    sim.run_simulation()
    all_ = full.get_output()
    c.check(not np.any(np.isnan(all_)), "missing-samples", "default recording with moving arrays")
    for rec, ivs in parts:
        want = np.full((3, tot), np.nan)
        for a, b in ivs:
            want[:, a:b] = all_[:, a:b]
        c.check(np.array_equal(rec.get_output(), want, equal_nan=True), "parts-differ", f"{ivs}, {t}")
        c.count("recordings")
    c.nontrivial("moving", tot > chunk, len(sim.processors))


@case(quick=8, thorough=100)
def refused(c):
    """A selection of channels that does not match the number of channels is refused."""
    sim = Scene(c.rng, cfg=dict(tot_samples=30)).build().create_simulator()
    c.raises(lambda: dia.RecordSignal("m", sim.sim_info, num_channels=2, channel_idx=(0,), export_func="npz"), "channel-mismatch-accepted",
             "two channels with one index")
    rec = dia.RecordSignal("m", sim.sim_info, export_func="npz")
    sim.diag.add_diagnostic("a", rec)
    c.raises(lambda: sim.diag.add_diagnostic("a", rec), "duplicate-accepted", "a second diagnostic with the same name")
    c.nontrivial("refused")
