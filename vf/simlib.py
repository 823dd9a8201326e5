"""Workload building blocks: scenes, sources with unique samples, probe processors, reference models."""
import warnings

import numpy as np

import aspsim.array as ar
import aspsim.diagnostics.core as diacore
import aspsim.diagnostics.diagnostics as dia
import aspsim.room.region as region
import aspsim.room.trajectory as tr
import aspsim.signal.sources as sources
from aspsim.processor import AudioProcessor
from aspsim.simulator import SimulatorSetup

warnings.filterwarnings("ignore")

TABLE_LEN = 6000


def table(num_channels, seed):
    """The samples of a TraceSource: practically unique values, so each of them identifies itself."""
    return np.random.default_rng(seed).normal(size=(num_channels, TABLE_LEN)) * (1 + np.arange(num_channels))[:, None]


class TraceSource(sources.Source):
    """Plays known samples and logs how they are asked for."""

    def __init__(self, num_channels, seed):
        super().__init__(num_channels)
        self.seed = seed
        self.table = table(num_channels, seed)
        self.next = 0
        self.calls = []

    def get_samples(self, num_samples):
        out = self.table[:, self.next:self.next + num_samples].copy()
        self.calls.append((self.next, int(num_samples)))
        self.next += int(num_samples)
        return out


def configure(setup, **kw):
    base = dict(tot_samples=100, sim_buffer=40, sim_chunk_size=30, start_sources_before_0=False,
                save_source_contributions=False, array_update_freq=1, samplerate=1000, reverb="none",
                max_room_ir_length=12, rt60=0.0, randomized_ism=False, extra_delay=20, highpass_cutoff=0.0,
                export_frequency=1000000, plot_output="none", output_smoothing=1, auto_save_load=False)
    base.update(kw)
    for k, v in base.items():
        assert hasattr(setup.sim_info, k), k
        setattr(setup.sim_info, k, v)
    return setup


def rand_pos(rng, n, dim=3, scale=1.0):
    return rng.uniform(-scale, scale, size=(n, dim))


NAMES = ["a", "aa", "A", "ls", "ls1", "ls10", "1", "0", "10", "mic", "mic_1", "mic.1", "mic_10", "left ear", "left", "x_", "x", "s", "ms", "sm", "src", "rec",
         "e-1", "B", "b.b", "source", "mics", "None", "name", "pos", "paths", "all", "ö"]


def unique_names(rng, typs, nested=False):
    """A name for each array ("s" or "m"): plain ones, or ones that are parts of each other or mean something elsewhere."""
    if not nested and rng.random() < 0.5:
        return [f"{t}{i}" + "xy"[t == "m"] * int(rng.integers(3)) for i, t in enumerate(typs)]
    if nested or rng.random() < 0.4:  # each is a part of all longer ones
        return [("xy" * len(typs))[:1 + i] for i in rng.permutation(len(typs))]
    return [NAMES[i] for i in rng.permutation(len(NAMES))[:len(typs)]]


class Scene:
    """Static arrays with paths supplied by the user. Rebuilding a scene gives an equal setup."""

    def __init__(self, rng, max_src=3, max_mic=3, max_ch=3, ctrl="some", max_ir=None, cfg=None, all_paths=True, empty=0.0):
        self.cfg = dict(cfg or {})
        self.empty = empty
        n_src, n_mic = int(rng.integers(1, max_src + 1)), int(rng.integers(1, max_mic + 1))
        self.srcs, self.mics = [], []
        names = unique_names(rng, "s" * n_src + "m" * n_mic)
        for i in range(n_src):
            kind = {"none": "free", "all": "ctrl", "some": ["free", "ctrl"][int(rng.integers(2))],
                    "one": "ctrl" if i == 0 else ["free", "ctrl"][int(rng.integers(2))]}[ctrl]
            if ctrl == "one" and i == n_src - 1 and n_src > 1:
                kind = "free"
            n = self.channels(rng, max_ch)
            self.srcs.append(dict(name=names[i], kind=kind, num=n, pos=rand_pos(rng, n), seed=int(rng.integers(1 << 30))))
        for i in range(n_mic):
            n = self.channels(rng, max_ch)
            self.mics.append(dict(name=names[n_src + i], kind=["mic", "groups", "region"][int(rng.integers(3))], num=n, pos=rand_pos(rng, n)))
        items = [("s", i) for i in range(n_src)] + [("m", i) for i in range(n_mic)]
        self.order = [items[i] for i in rng.permutation(len(items))]
        self.paths = {}
        for s in self.srcs:
            for m in self.mics:
                length = int(rng.choice([1, 2, 3, 7, 12, 30, 61] if max_ir is None else np.arange(1, max_ir + 1)))
                h = rng.normal(size=(s["num"], m["num"], length))
                if length > 3 and rng.random() < 0.3:
                    h[..., :int(rng.integers(1, length))] = 0  # pure delay first
                if rng.random() < 0.15 and s["num"]:
                    h[int(rng.integers(s["num"]))] = 0
                if all_paths or rng.random() < 0.8:
                    self.paths[(s["name"], m["name"])] = h

    def channels(self, rng, max_ch):
        return 0 if self.empty and rng.random() < self.empty else int(rng.integers(1, max_ch + 1))

    def free(self):
        return [s for s in self.srcs if s["kind"] == "free"]

    def ctrl(self):
        return [s for s in self.srcs if s["kind"] == "ctrl"]

    def path(self, s, m):
        return self.paths.get((s["name"], m["name"]), np.zeros((s["num"], m["num"], 1)))

    def build(self, base_fig_path=None, **cfg):
        setup = SimulatorSetup(base_fig_path)
        configure(setup, **{**self.cfg, **cfg})
        for typ, i in self.order:
            if typ == "s":
                s = self.srcs[i]
                if s["kind"] == "free":
                    setup.add_free_source(s["name"], s["pos"].copy(), TraceSource(s["num"], s["seed"]))
                else:
                    setup.add_controllable_source(s["name"], s["pos"].copy())
            else:
                m = self.mics[i]
                if m["kind"] == "groups" and m["num"] > 1:
                    setup.add_mics(m["name"], [m["pos"][:1].copy(), m["pos"][1:].copy()])
                elif m["kind"] == "region":
                    setup.add_array(ar.RegionArray(m["name"], region.Ball(1.0, (0, 0, 0)), pos=m["pos"].copy()))
                else:
                    setup.add_mics(m["name"], m["pos"].copy())
        for (s, m), h in self.paths.items():
            setup.set_path(s, m, h.copy())
        return setup

    def describe(self):
        return {"sources": [f"{s['name']}({s['kind']},{s['num']})" for s in self.srcs],
                "mics": [f"{m['name']}({m['kind']},{m['num']})" for m in self.mics],
                "path_lengths": {f"{k[0]}->{k[1]}": v.shape[-1] for k, v in self.paths.items()}}


def convolve(h, x):
    """h of shape (src, mic, len), x of shape (src, time): the causal response of shape (mic, time)."""
    n = x.shape[-1]
    out = np.zeros((h.shape[1], n))
    for s in range(h.shape[0]):
        for m in range(h.shape[1]):
            out[m] += np.convolve(x[s], h[s, m])[:n]
    return out


def record(sim, names_num, **kw):
    """Adds a recording for each signal. Returns the recordings by name."""
    recs = {}
    for name, num in names_num.items():
        recs[name] = dia.RecordSignal(name, sim.sim_info, num_channels=num, export_func="npz", **kw)
        sim.diag.add_diagnostic("rec_" + name, recs[name])
    return recs


class Probe(AudioProcessor):
    """Logs what is visible at each call and drives controllable sources with known unique samples.

    drive: dict from source name to the samples (channels, time) to play, where column t is played at time t.
    """

    def __init__(self, sim_info, arrays, block_size, drive=None, full_history=True, add=False):
        super().__init__(sim_info, arrays, block_size)
        self.name = "Probe"
        self.drive = drive or {}
        self.calls = 0
        self.log = []
        self.full_history = full_history
        self.add = add
        self.watch = None

    def process(self, num_samples):
        idx, b = self.sig.idx, self.block_size
        names = self.watch if self.watch is not None else list(self.sig.keys())
        entry = {"idx": idx, "num": num_samples, "sig": {}, "future": {}}
        for name in names:
            s = self.sig[name]
            entry["sig"][name] = (s[..., :idx] if self.full_history else s[..., idx - b:idx]).copy()
            entry["future"][name] = s[..., idx:].copy()
        self.log.append(entry)
        start = (self.calls + 1) * b
        for name, vals in self.drive.items():
            if self.add:
                self.sig[name][:, idx:idx + b] += vals[:, start:start + b]
            else:
                self.sig[name][:, idx:idx + b] = vals[:, start:start + b]
        self.calls += 1


def warm_up_sim(dynamic=False):
    rng = np.random.default_rng(0)
    setup = configure(SimulatorSetup(), tot_samples=5)
    setup.add_free_source("s", rand_pos(rng, 2), TraceSource(2, 0))
    setup.add_mics("m", rand_pos(rng, 2))
    setup.set_path("s", "m", rng.normal(size=(2, 2, 3)))
    if dynamic:
        setup.add_mics("d", tr.Trajectory(lambda t: np.zeros((1, 3))))
    sim = setup.create_simulator()
    sim.run_simulation()


def timing(rng, block=None, tot_max=160, min_buffer=1):
    """Admissible lengths: buffer at least two blocks, chunk at least one block and two samples."""
    b = int(block or 1)
    tot = int(rng.integers(max(3, b), tot_max))
    buf = max(2 * b, min_buffer, 2) + int(rng.choice([0, 1, 2, 3, 7, 20, 64]))
    chunk = max(b, 2) + int(rng.choice([0, 0, 1, 2, 5, 13, 50, 300]))
    return dict(tot_samples=tot, sim_buffer=int(buf), sim_chunk_size=int(chunk))
