"""C10: image-source paths match the physics of the configured room."""
import numpy as np

from vf.core import case
from vf.simlib import *  # noqa: F403
from vf import ism

RULE = ("Simulators with random rooms, room centres, speeds of sound, sample rates, reverberation times, extra delays, lengths and numbers of "
        "arrays are created, and every path is compared sample by sample with an image-source model written independently from the textbook. "
        "Reciprocity, translation, independence of the other arrays (also for more than 500 microphones) and the zero-phase high-pass are "
        "compared between simulators. Non-trivial: distinct combinations of order, delay and length.")
ASSUMPTIONS = ["fractional delays are windowed with a Hann window of 2*extra_delay+1 taps whose position is the whole part of the delay",
               "tolerance of 0.2 % of each image for the single-precision delays and the interpolated sinc of pyroomacoustics",
               "the order of the images follows pyroomacoustics.inverse_sabine plus 8"]
NEED = {"paths_compared": 150, "reverberant_paths": 30, "reflections": 10000, "direct_peaks": 100, "batched_mics": 1000, "reciprocal_paths": 10,
        "translated_paths": 10, "subset_paths": 30, "filtered_paths": 20, "no_delay_runs": 4}


def warm_up():
    warm_up_sim()


def room_cfg(rng, reverberant, lo=2.0, hi=5.0):
    size = rng.uniform(lo, hi, size=3)
    cfg = dict(reverb="ism", room_size=size.tolist(), room_center=rng.uniform(-3, 3, size=3).tolist(),
               c=float(rng.choice([343, 342.7, 343.3, 340.5, 300, 420, 600])), samplerate=int(rng.choice([500, 1000, 2000, 4000, 8000])),
               extra_delay=int(rng.choice([1, 2, 5, 10, 20, 40, 65])), rt60=0.0)
    if reverberant:
        cfg["rt60"] = float(ism.sabine_limit(size, cfg["c"]) * rng.uniform(1.02, 1.4))
        cfg["extra_delay"] = int(rng.choice([2, 5, 10, 25]))
        cfg["samplerate"] = int(rng.choice([500, 1000, 2000]))
    flight = np.linalg.norm(size) / cfg["c"] * cfg["samplerate"] + 2 * cfg["extra_delay"]
    cfg["max_room_ir_length"] = int(rng.choice([max(4, flight // 2), flight + 3, 2 * flight, 500]))
    return cfg


def inside(rng, cfg, n):
    size, center = np.asarray(cfg["room_size"]), np.asarray(cfg["room_center"])
    return center + rng.uniform(-0.46, 0.46, size=(n, 3)) * size


def place(rng, cfg, n_src, n_mic, min_dist=0.25):
    """Positions of sources and microphones that are not at the same place."""
    src = inside(rng, cfg, n_src)
    mic = []
    while len(mic) < n_mic:
        p = inside(rng, cfg, 4 * n_mic + 8)
        d = np.linalg.norm(p[:, None] - src[None], axis=-1).min(axis=1)
        mic.extend(p[d > min_dist])
    return src, np.array(mic[:n_mic])


def paths(cfg, srcs, mics):
    """Creates a simulator. srcs and mics are dicts from name to positions."""
    setup = configure(SimulatorSetup(), **cfg)
    for name, p in srcs.items():
        setup.add_controllable_source(name, p.copy())
    for name, p in mics.items():
        setup.add_mics(name, p.copy())
    sim = setup.create_simulator()
    return {(s.name, m.name): np.array(p, copy=True) for s, m, p in sim.arrays.iter_paths()}, sim


def _against_model(c, cfg, n_arr=2, n_ch=3):
    rng = c.rng
    ns, nm = [int(rng.integers(1, n_ch + 1)) for _ in range(n_arr)], [int(rng.integers(1, n_ch + 1)) for _ in range(n_arr)]
    src, mic = place(rng, cfg, sum(ns), sum(nm))
    srcs = {f"s{i}": p for i, p in enumerate(np.split(src, np.cumsum(ns)[:-1]))}
    mics = {f"m{i}": p for i, p in enumerate(np.split(mic, np.cumsum(nm)[:-1]))}
    got, sim = paths(cfg, srcs, mics)
    info, length = sim.sim_info, cfg["max_room_ir_length"]
    for (s, m), h in got.items():
        if not c.check(h.shape == (len(srcs[s]), len(mics[m]), length), "shape", f"{h.shape} for {len(srcs[s])}x{len(mics[m])}x{length}"):
            continue
        c.check(np.all(np.isfinite(h)), "not-finite", f"{cfg}")
        for i, ps in enumerate(srcs[s]):
            for j, pm in enumerate(mics[m]):
                want, tol, amp, t = ism.rir(ps, pm, info, length)
                off = np.abs(h[i, j] - want) - tol
                k = int(np.argmax(off))
                c.check(off[k] <= 0, "impulse-response", lambda: f"{s}[{i}]->{m}[{j}] sample {k}: {h[i, j, k]} instead of {want[k]} +- {tol[k]}; {cfg}")
                c.count("paths_compared")
                c.count("reverberant_paths", info.rt60 > 0)
                c.count("reflections", np.sum(t < length) - 1)
                if info.rt60 == 0:
                    # the direct sound alone: its energy-weighted centre is the delay, and its strength the inverse distance
                    d = np.linalg.norm(ps - pm)
                    delay = d / info.c * info.samplerate + info.extra_delay
                    if delay + info.extra_delay + 2 < length and info.extra_delay >= 10:
                        peak = int(np.argmax(np.abs(h[i, j])))
                        c.check(abs(peak - delay) <= 0.6, "direct-delay", f"peak at {peak}, {delay} expected; {cfg}")
                        c.check(abs(np.linalg.norm(h[i, j]) * d - 1) < 0.1, "direct-strength", f"{np.linalg.norm(h[i, j])} at distance {d}; {cfg}")
                        c.count("direct_peaks")
    c.nontrivial(ism.order(cfg["room_size"], cfg["c"], cfg["rt60"]), cfg["extra_delay"], length)
    c.note(**cfg)


@case(quick=40, thorough=600)
def direct_sound(c):
    _against_model(c, room_cfg(c.rng, False))


@case(quick=32, thorough=500)
def reverberation(c):
    _against_model(c, room_cfg(c.rng, True), n_arr=int(c.rng.integers(1, 3)), n_ch=2)


@case(quick=3, thorough=40)
def long_reverberation(c):
    """A higher order with a response that is long enough to hear the decay."""
    rng = c.rng
    cfg = room_cfg(rng, True, 2.5, 4.0)
    cfg |= dict(rt60=float(ism.sabine_limit(cfg["room_size"], cfg["c"]) * rng.uniform(2, 3)), extra_delay=int(rng.choice([5, 20])), samplerate=1000)
    cfg["max_room_ir_length"] = int(1.1 * cfg["rt60"] * 1000)
    _against_model(c, cfg, n_arr=1, n_ch=1)


@case(quick=6, thorough=60)
def many_microphones(c):
    """The response of a microphone does not depend on its place in a large array."""
    rng = c.rng
    reverberant = c.index % 3 == 2
    cfg = room_cfg(rng, reverberant, 2, 3)
    cfg |= dict(extra_delay=int(rng.choice([3, 10])), samplerate=500, max_room_ir_length=60)
    n = int(rng.choice([499, 500, 501, 503, 700] if reverberant else [500, 501, 733, 999, 1000, 1001, 1203]))
    src, mic = place(rng, cfg, 1 if reverberant else 2, n, 0.1)
    got, sim = paths(cfg, {"s": src}, {"m": mic})
    h = got["s", "m"]
    c.check(h.shape == (len(src), n, 60), "shape", f"{h.shape}")
    which = {0, 1, n - 1, n // 2} | {k for k in (498, 499, 500, 501, 998, 999, 1000, 1001) if k < n} | {int(i) for i in rng.integers(0, n, 20)}
    for j in sorted(which):
        for i in range(len(src)):
            want, tol, amp, t = ism.rir(src[i], mic[j], sim.sim_info, 60)
            c.check(np.all(np.abs(h[i, j] - want) <= tol), "impulse-response", f"source {i}, microphone {j} of {n}; {cfg}")
    c.check(np.all(np.any(h != 0, axis=-1)), "silent-microphone", f"{np.argwhere(np.all(h == 0, axis=-1))[:3]} of {n}")
    part = sorted(which)
    alone, _ = paths(cfg, {"s": src}, {"m": mic[part]})
    c.same(alone["s", "m"], h[:, part], "depends-on-other-microphones", f"{n} microphones", rtol=1e-9, atol=1e-12)
    c.count("batched_mics", n)
    c.nontrivial("many", n)


@case(quick=16, thorough=200)
def others_have_no_influence(c):
    rng = c.rng
    cfg = room_cfg(rng, bool(c.index % 2), 2, 4)
    src, mic = place(rng, cfg, 4, 5)
    full, _ = paths(cfg, {"s": src}, {"m": mic})
    si, mi = sorted(rng.choice(4, 2, replace=False)), sorted(rng.choice(5, 3, replace=False))
    part, _ = paths(cfg, {"s": src[si]}, {"m": mic[mi]})
    c.same(part["s", "m"], full["s", "m"][np.ix_(si, mi)], "depends-on-other-arrays", "subset", rtol=1e-9, atol=1e-12)
    split, _ = paths(cfg, {f"s{i}": src[i:i + 1] for i in range(4)}, {"b": mic[2:], "a": mic[:2]})
    for i in range(4):
        c.same(split[f"s{i}", "a"], full["s", "m"][i:i + 1, :2], "depends-on-other-arrays", "split", rtol=1e-9, atol=1e-12)
        c.same(split[f"s{i}", "b"], full["s", "m"][i:i + 1, 2:], "depends-on-other-arrays", "split", rtol=1e-9, atol=1e-12)
    c.count("subset_paths", 2 * 3 + 20)
    c.nontrivial("subset", cfg["rt60"] > 0, cfg["extra_delay"])


def _close(c, a, b, key, msg):
    """Equal up to the effect of the single-precision delays."""
    c.check(a.shape == b.shape, key, f"{a.shape} {b.shape}", stop=True)
    for i, j in np.ndindex(a.shape[:2]):
        d, n = np.linalg.norm(a[i, j] - b[i, j]), np.linalg.norm(a[i, j])
        c.check(d <= 0.02 * n + 1e-9, key, f"{msg} {i},{j}: differs by {d} at a norm of {n}")


@case(quick=14, thorough=200)
def symmetries(c):
    rng = c.rng
    cfg = room_cfg(rng, bool(c.index % 2), 2, 4)
    cfg["extra_delay"] = max(5, cfg["extra_delay"])
    src, mic = place(rng, cfg, 2, 3)
    h = paths(cfg, {"s": src}, {"m": mic})[0]["s", "m"]
    back = paths(cfg, {"s": mic}, {"m": src})[0]["s", "m"]
    _close(c, back.transpose(1, 0, 2), h, "reciprocity", f"{cfg}")
    c.count("reciprocal_paths", 6)
    move = rng.uniform(-20, 20, size=3)
    cfg2 = dict(cfg, room_center=(np.asarray(cfg["room_center"]) + move).tolist())
    _close(c, paths(cfg2, {"s": src + move}, {"m": mic + move})[0]["s", "m"], h, "translation", f"{move} {cfg}")
    axes = rng.permutation(3)
    cfg3 = dict(cfg, room_center=[cfg["room_center"][a] for a in axes], room_size=[cfg["room_size"][a] for a in axes])
    _close(c, paths(cfg3, {"s": src[:, axes]}, {"m": mic[:, axes]})[0]["s", "m"], h, "axes", f"{axes} {cfg}")
    flip = rng.choice([-1, 1], size=3)
    ce = np.asarray(cfg["room_center"])
    _close(c, paths(cfg, {"s": ce + flip * (src - ce)}, {"m": ce + flip * (mic - ce)})[0]["s", "m"], h, "mirror", f"{flip} {cfg}")
    c.count("translated_paths", 6)
    c.nontrivial("symmetry", cfg["rt60"] > 0, tuple(axes), tuple(flip))


@case(quick=16, thorough=200)
def highpass(c):
    """Zero phase: the spectrum of the path times the squared magnitude of a second-order Butterworth high-pass."""
    rng = c.rng
    cfg = room_cfg(rng, bool(c.index % 2), 2, 4)
    cfg["samplerate"] = int(rng.choice([500, 1000, 2000]))
    cut = float(cfg["samplerate"] * np.exp(rng.uniform(np.log(0.01), np.log(0.4))))
    if c.index % 4 > 1:  # the filter is much longer than the paths
        cfg["max_room_ir_length"] = int(rng.integers(8, 60))
        cut = float(cfg["samplerate"] * rng.uniform(0.008, 0.03))
    src, mic = place(rng, cfg, 2, 3)
    plain = paths(dict(cfg, max_room_ir_length=cfg["max_room_ir_length"]), {"s": src}, {"m": mic})[0]["s", "m"]
    got = paths(dict(cfg, highpass_cutoff=cut), {"s": src}, {"m": mic})[0]["s", "m"]
    sr, n = cfg["samplerate"], plain.shape[-1]
    size = n + 2 * sr
    w = np.tan(np.pi * np.arange(size // 2 + 1) / size) / np.tan(np.pi * cut / sr)  # prewarped frequency relative to the cutoff
    with np.errstate(divide="ignore"):
        mag2 = 1 / (1 + (1 / w) ** 4)
    mag2[0] = 0
    want = np.fft.irfft(np.fft.rfft(plain, size, axis=-1) * mag2, size, axis=-1)[..., :n]
    c.same(got, want, "highpass", f"cutoff {cut}; {cfg}", rtol=1e-5, atol=1e-6 * np.max(np.abs(plain)))
    c.count("filtered_paths", 6)
    c.nontrivial("highpass", cfg["rt60"] > 0, cfg["extra_delay"])


@case(quick=8, thorough=60)
def randomized(c):
    """The randomized image-source method moves the images slightly: another response of the same strength."""
    rng = c.rng
    cfg = room_cfg(rng, True, 2, 4)
    cfg |= dict(extra_delay=3, samplerate=2000)
    cfg["max_room_ir_length"] = 300
    src, mic = place(rng, cfg, 2, 2)
    np.random.seed(int(rng.integers(1 << 30)))
    h = paths(dict(cfg, randomized_ism=True), {"s": src}, {"m": mic})[0]["s", "m"]
    plain = paths(cfg, {"s": src}, {"m": mic})[0]["s", "m"]
    c.check(h.shape == plain.shape and np.all(np.isfinite(h)), "randomized", f"{h.shape}")
    c.check(not np.allclose(h, plain, atol=1e-6), "randomized-has-no-effect", f"{cfg}")
    e1, e2 = np.sum(h ** 2), np.sum(plain ** 2)
    c.check(0.5 < e1 / e2 < 2, "randomized-energy", f"{e1} {e2}")
    c.nontrivial("randomized", cfg["c"])


@case(quick=8, thorough=80)
def long_extra_delay(c):
    """Also with a very long extra delay the direct sound comes when and as strong as it should."""
    rng = c.rng
    cfg = room_cfg(rng, False)
    cfg |= dict(extra_delay=int(rng.integers(80, 400)), samplerate=int(rng.choice([2000, 8000, 16000])))
    cfg["max_room_ir_length"] = int(2 * cfg["extra_delay"] + 9 / cfg["c"] * cfg["samplerate"] + 40)
    src, mic = place(rng, cfg, 2, 2)
    h = paths(cfg, {"s": src}, {"m": mic})[0]["s", "m"]
    for i in range(2):
        for j in range(2):
            d = np.linalg.norm(src[i] - mic[j])
            t = d / cfg["c"] * cfg["samplerate"] + cfg["extra_delay"]
            peak = int(np.argmax(np.abs(h[i, j])))
            c.check(abs(peak - t) <= 0.7, "direct-delay", f"peak at {peak}, {t} expected; {cfg}")
            c.check(abs(np.linalg.norm(h[i, j]) * d - 1) < 0.1, "direct-strength", f"{np.linalg.norm(h[i, j])} at distance {d}; {cfg}")
            c.count("direct_peaks")
    c.nontrivial("long delay", cfg["extra_delay"] // 100)


@case(quick=4, thorough=20)
def no_extra_delay(c):
    """Without extra delay the path must still be finite and start at the flight time."""
    rng = c.rng
    cfg = room_cfg(rng, False)
    cfg |= dict(extra_delay=0, max_room_ir_length=400)
    src, mic = place(rng, cfg, 1, 2)
    h = paths(cfg, {"s": src}, {"m": mic})[0]["s", "m"]
    c.check(h.shape == (1, 2, 400), "shape", f"{h.shape}")
    if np.all(np.isfinite(h)):
        for j in range(2):
            t = np.linalg.norm(src[0] - mic[j]) / cfg["c"] * cfg["samplerate"]
            c.check(abs(int(np.argmax(np.abs(h[0, j]))) - t) <= 1 if t < 398 else True, "direct-delay", f"{t}")
    else:
        c.fail("nan-path-extra_delay-0", f"every path is not a number: {cfg}")
    c.count("no_delay_runs")
    c.nontrivial("no delay", cfg["c"])
