"""C13: a source gives the same signal however it is divided into blocks."""
import copy

import numpy as np

from vf.core import case
from vf.simlib import *  # noqa: F403

RULE = ("Sources of every type with random parameters are asked for their samples in one request, one by one, in random blocks (many of one sample, some "
        "longer than periods and sequences) and through a free source array in a running simulation. Shape, values and the values after changing the power "
        "in between are compared. Non-trivial: distinct combinations of source type, channels and kind of division.")
ASSUMPTIONS = ["requests ask for at least one sample", "signals with one channel may have one or two dimensions"]
NEED = {"divisions": 300, "blocks": 5000, "single_sample_blocks": 1000, "values_compared": 100000, "types_seen": 10, "twins": 100, "power_changes": 20,
        "simulated_sources": 20, "long_divisions": 40}


def warm_up():
    warm_up_sim()


def _powers(rng, ch):
    return float(rng.uniform(0.1, 5)) if rng.random() < 0.5 else rng.uniform(0.1, 5, size=ch)


def make(rng, kind=None):
    """A random source: (name, channels, function of a seed which makes it)."""
    ch = int(rng.choice([1, 1, 2, 3, 5]))
    sr = int(rng.choice([1000, 8000, 48000]))
    kind = kind or str(rng.choice(KINDS))
    if kind in ("Counter", "MLS", "MultiSine"):
        ch = 1
    if kind == "White":
        p = _powers(rng, ch)
        return kind, ch, lambda g: sources.WhiteNoiseSource(ch, copy.deepcopy(p), g)
    if kind == "Sine":
        p, f = _powers(rng, ch), float(rng.uniform(0.001, 0.49) * sr)
        return kind, ch, lambda g: sources.SineSource(ch, copy.deepcopy(p), f, sr, g)
    if kind == "Counter":
        n = int(rng.integers(-50, 50))
        return kind, 1, lambda g: sources.Counter(1, n)
    if kind == "MultiSine":
        f = rng.uniform(0.001, 0.49, size=int(rng.integers(1, 7))) * sr
        f = f if rng.integers(2) else f.tolist()
        return kind, 1, lambda g: sources.MultiSineSource(1, 1.7, copy.deepcopy(f), sr, g)
    if kind == "Band":
        lo = float(rng.uniform(0.05, 0.25))
        p = _powers(rng, ch)
        return kind, ch, lambda g: sources.BandlimitedNoiseSource(ch, copy.deepcopy(p), (lo * sr, (lo + 0.2) * sr), sr, g)
    if kind == "Pulse":
        amp = float(rng.uniform(0.5, 3)) if rng.integers(2) else rng.uniform(0.5, 3, size=ch)
        per = int(rng.integers(1, 30)) if rng.integers(2) else rng.integers(1, 30, size=ch)
        dly = int(rng.integers(0, 40)) if rng.integers(2) else rng.integers(0, 40, size=ch)
        return kind, ch, lambda g: sources.PulseTrain(ch, amp, per, dly)
    if kind == "Autocorr":
        rho = rng.uniform(-0.8, 0.8, size=ch)
        corr = rho[:, None] ** np.arange(int(rng.integers(2, 6)))[None] * rng.uniform(0.3, 3, size=(ch, 1))
        return kind, ch, lambda g: sources.AutocorrSource(ch, corr.copy(), g)
    if kind == "MLS":
        order, taps = [(3, [2]), (5, [3]), (6, [5]), (7, None), (10, [7])][int(rng.integers(5))]
        state = None
        if rng.random() < 0.5:
            state = rng.integers(0, 2, size=order)
            state[int(rng.integers(order))] = 1
        return kind, 1, lambda g: sources.MLS(1, order, taps, None if state is None else state.copy())
    if kind == "Gold":
        order, p = int(rng.integers(5, 9)), _powers(rng, ch)
        return kind, ch, lambda g: sources.GoldSequenceSource(ch, copy.deepcopy(p), order)
    if kind == "SourceArray":
        p = rng.uniform(0.2, 3, size=ch)
        f = float(rng.uniform(0.01, 0.4) * sr)
        return kind, ch, lambda g: sources.SourceArray(lambda a: sources.SineSource(1, a, f, sr, np.random.default_rng(int(a * 1e6))), ch, list(p))
    mode = {"SequenceRepeat": "repeat", "SequenceZeros": "zeros", "SequenceRaise": "raise"}[kind]
    length = int(rng.integers(1, 60)) if mode != "raise" else 2000
    audio = rng.normal(size=(ch, length))
    if ch == 1 and rng.integers(2):
        audio = audio[0]
    amp = float(rng.uniform(0.3, 2))
    return kind, ch, lambda g: sources.Sequence(audio.copy(), amp, mode)


KINDS = ["White", "Sine", "Counter", "MultiSine", "Band", "Pulse", "Autocorr", "MLS", "Gold", "SourceArray", "SequenceRepeat", "SequenceZeros", "SequenceRaise"]


def ask(c, src, ch, n, what):
    x = src.get_samples(n)
    c.count("blocks")
    c.count("single_sample_blocks", n == 1)
    c.check(isinstance(x, np.ndarray) and (x.shape == (ch, n) or ch == 1 and x.shape == (n,)), "number-of-samples",
            f"{what}: {np.shape(x)} instead of {ch} channels of {n} samples", stop=True)
    return np.array(x, dtype=float, copy=True).reshape(ch, n)


def divide(rng, n, how):
    if how == "ones":
        return [1] * n
    out = []
    while sum(out) < n:
        b = {"small": lambda: int(rng.integers(1, 5)), "mixed": lambda: int(rng.choice([1, 2, 7, 31, 32, 200])),
             "long": lambda: int(rng.integers(50, 700)), "two": lambda: int(rng.integers(1, n))}[how]()
        out.append(min(b, n - sum(out)))
    return out


def gen(seed):
    return np.random.default_rng(seed)


@case(quick=130, thorough=3000)
def divisions(c):
    rng = c.rng
    kind, ch, mk = make(rng, KINDS[c.index % len(KINDS)])
    seed, n = int(rng.integers(1 << 30)), int(rng.choice([40, 150, 700]))
    whole = ask(c, mk(gen(seed)), ch, n, kind)
    c.check(np.all(np.isfinite(whole)), "not-finite", kind)
    twin = ask(c, mk(gen(seed)), ch, n, kind)
    c.check(np.array_equal(whole, twin), "twin-differs", f"{kind}({ch}) with an equally seeded generator")
    c.count("twins")
    for how in ("ones", "small", "mixed", "long", "two"):
        src = mk(gen(seed))
        blocks = divide(rng, n, how)
        got = np.concatenate([ask(c, src, ch, b, kind) for b in blocks], axis=-1)
        c.same(got, whole, "depends-on-blocks", f"{kind}({ch}), {how} blocks {blocks[:12]}", rtol=1e-7, atol=1e-8)
        c.count("divisions")
        c.nontrivial(kind, ch, how)
    if c.index < len(KINDS):
        c.count("types_seen")
    c.note(kind=kind, channels=ch, samples=n)


@case(quick=26, thorough=400)
def long_signals(c):
    """As divisions, for signals much longer than any buffer that a source may keep."""
    rng = c.rng
    kind, ch, mk = make(rng, [k for k in KINDS if k != "SequenceRaise"][c.index % (len(KINDS) - 1)])
    seed, n = int(rng.integers(1 << 30)), int(rng.integers(9000, 40000))
    whole = ask(c, mk(gen(seed)), ch, n, kind)
    for top in (int(rng.integers(100, 400)), int(rng.integers(400, 6000))):
        src, out, left = mk(gen(seed)), [], n
        while left:
            b = min(left, int(rng.integers(1, top)))
            out.append(ask(c, src, ch, b, kind))
            left -= b
        c.same(np.concatenate(out, axis=-1), whole, "depends-on-blocks", f"{kind}({ch}), {n} samples in blocks of up to {top}", rtol=1e-6, atol=1e-6)
        c.count("long_divisions")
    c.nontrivial(kind, ch, "long")


@case(quick=26, thorough=400)
def without_generator(c):
    """Without a generator two sources are alike as well."""
    rng = c.rng
    kind, ch, mk = make(rng, KINDS[c.index % len(KINDS)])
    a, b = ask(c, mk(None), ch, 60, kind), mk(None)
    got = np.concatenate([ask(c, b, ch, k, kind) for k in divide(rng, 60, "small")], axis=-1)
    c.same(got, a, "depends-on-blocks", f"{kind}({ch}) without a generator", rtol=1e-7, atol=1e-8)
    c.count("twins")
    c.nontrivial(kind, ch, "default")


@case(quick=26, thorough=400)
def results_are_not_shared(c):
    """A block that was handed out neither changes later nor, when changed, alters what follows."""
    rng = c.rng
    kind, ch, mk = make(rng, KINDS[c.index % len(KINDS)])
    seed = int(rng.integers(1 << 30))
    a, b = mk(gen(seed)), mk(gen(seed))
    for k in range(8):
        n = int(rng.integers(1, 40))
        x = a.get_samples(n)
        y = np.array(b.get_samples(n), copy=True)
        c.same(np.reshape(x, (ch, n)), np.reshape(y, (ch, n)), "changed-by-user", f"{kind}({ch}) block {k}", rtol=1e-9, atol=1e-10)
        x[...] = -7
    c.nontrivial(kind, ch, "shared")


@case(quick=24, thorough=300)
def power_changes(c):
    """A change of the power takes effect at its sample for any division."""
    rng = c.rng
    kind, ch, mk = make(rng, ["White", "Band", "Gold"][c.index % 3])
    seed = int(rng.integers(1 << 30))
    parts = [(int(rng.integers(1, 80)), _powers(rng, ch)) for _ in range(3)]

    def play(how):
        src, out = mk(gen(seed)), []
        for n, p in parts:
            src.set_power(copy.deepcopy(p))
            out += [ask(c, src, ch, b, kind) for b in (divide(rng, n, how) if how else [n])]
        return np.concatenate(out, axis=-1)
    whole = play(None)
    for how in ("ones", "small"):
        c.same(play(how), whole, "depends-on-blocks", f"{kind}({ch}) with changing power, {how} blocks", rtol=1e-7, atol=1e-8)
    c.count("power_changes", 3)
    c.nontrivial(kind, ch, "power")


@case(quick=39, thorough=500)
def in_simulation(c):
    """The samples that a simulation plays are those of the source asked once."""
    rng = c.rng
    kind, ch, mk = make(rng, KINDS[c.index % len(KINDS)])
    seed = int(rng.integers(1 << 30))
    t = timing(rng, 1)
    setup = configure(SimulatorSetup(), **t)
    src = mk(gen(seed))
    if not isinstance(src, sources.Source):
        src.num_channels, src.metadata = ch, {}
    setup.add_free_source("s", rand_pos(rng, ch), src)
    setup.add_mics("m", rand_pos(rng, 1))
    sim = setup.create_simulator()
    rec = record(sim, {"s": ch})["s"]
    sim.run_simulation()
    want = ask(c, mk(gen(seed)), ch, t["tot_samples"], kind)
    c.same(rec.get_output(), want, "simulated-source", f"{kind}({ch})", rtol=1e-7, atol=1e-8)
    c.count("simulated_sources")
    c.nontrivial(kind, ch, "simulation")
