"""C22: frequency-domain paths and the differential microphone match their definition."""
import importlib.util
import math

import numpy as np

import aspsim.room.directional as directional
from vf.core import case
from vf.moving import MovingScene
from vf.simlib import *  # noqa: F403

RULE = ("Frequency-domain paths of random scenes (user-supplied, simulated and moving, longer and shorter than the transform, asked for before and during a run) are compared with "
        "Fourier sums calculated term by term. The differential microphone hears plane waves of many frequencies from many angles: on the frequencies of its filters the response must "
        "be exactly that of the cardioid of its distance and in between close to it; random signals monitor linearity, time invariance, independence of channels, length and "
        "unchanged inputs; below the limit given the response must fade. Non-trivial: distinct relations of lengths, orders, distances, angles.")
ASSUMPTIONS = ["an even number of frequencies", "the working range ends at c / (2 distance), where the two microphones are half a wavelength apart"]
NEED = {"frequency_values": 20000, "paths": 80, "plane_waves": 2000, "exact_gains": 1500, "between_gains": 200, "low_gains": 100, "lti": 60, "calls_in_a_row": 80}


def warm_up():
    warm_up_sim(dynamic=True)


def dft(path, num, keep):
    """sum over t < num of path[t] exp(-2 pi i k t / num), for the bins in keep; axes (bin, mic, src)."""
    h = path[..., :num]
    k, t = np.asarray(keep)[:, None], np.arange(h.shape[-1])[None, :]
    e = np.exp(-2j * np.pi * ((k * t) % num) / num)
    return np.einsum("kt,smt->kms", e, h)


def judge_paths(c, arrays, paths, num, sr, rng, what):
    fp, freqs = arrays.get_freq_paths(num, sr)
    bins = num // 2 + 1
    c.check(np.shape(freqs) == (bins,), "frequencies", f"{np.shape(freqs)} for {num}", stop=True)
    c.same(freqs, np.arange(bins) * (sr / num), "frequencies", f"{num} at {sr}")
    c.check({(s, m) for s in fp for m in fp[s]} == set(paths), "which-paths", f"{ {s: list(fp[s]) for s in fp} } for {sorted(paths)}", stop=True)
    for (s, m), h in paths.items():
        got = fp[s][m]
        c.check(got.shape == (bins, h.shape[1], h.shape[0]), "form", f"{got.shape} for a path of {h.shape}, {num} frequencies", stop=True)
        keep = np.arange(bins) if bins <= 40 else np.unique(np.concatenate([[0, 1, bins - 2, bins - 1], rng.integers(0, bins, size=30)]))
        c.same(got[keep], dft(h, num, keep), "response", f"{s} to {m}, {h.shape[-1]} samples, {num} frequencies, {what}", atol=1e-8, rtol=1e-7)
        c.count("frequency_values", got[keep].size)
        c.count("paths")


@case(quick=60, thorough=1500)
def freq_paths(c):
    rng = c.rng
    scene = Scene(rng, all_paths=False, max_ch=4)
    setup = scene.build()
    for s in scene.srcs:
        for m in scene.mics:
            if (s["name"], m["name"]) not in scene.paths:
                setup.arrays.path_type[s["name"]][m["name"]] = "none"
    sim = setup.create_simulator()
    paths = {(s["name"], m["name"]): np.array(sim.arrays.paths[s["name"]][m["name"]], copy=True) for s in scene.srcs for m in scene.mics}
    for key, h in scene.paths.items():
        c.same(paths[key][..., :h.shape[-1]], h, "path-changed", f"{key}")
    for _ in range(4):
        num = int(rng.choice([2, 4, 8, 16, 30, 50, 62, 64, 128, 256]))
        sr = [1000, 8000, 44100, 16000.0, 12.5][int(rng.integers(5))]
        judge_paths(c, sim.arrays, paths, num, sr, rng, "static")
    for (s, m), h in paths.items():
        c.same(sim.arrays.paths[s][m], h, "path-changed", f"{s} {m}")
    c.nontrivial("paths", len(scene.srcs), len(scene.mics), tuple(sorted({h.shape for h in paths.values()})))


@case(quick=16, thorough=200)
def moving_freq_paths(c):
    """During a run with moving arrays, the responses are those of the paths at that time."""
    rng = c.rng
    tot = int(rng.integers(10, 25))
    scene = MovingScene(rng, tot, int(rng.choice([1, 2, 5])), max_arrays=1, must_move="any")
    sim = scene.build(max_room_ir_length=int(rng.choice([24, 60])), extra_delay=5).create_simulator()
    judged = []

    class P(AudioProcessor):
        def process(self, num):
            now = {(s.name, m.name): np.array(p, copy=True) for s, m, p in self.arrays.iter_paths()}
            judge_paths(c, self.arrays, now, int(rng.choice([8, 32, 64])), self.sim_info.samplerate, rng, "moving")
            judged.append(now)
    p = P(sim.sim_info, sim.arrays, 1)
    p.name = "p"
    sim.add_processor(p)
    sim.run_simulation()
    c.check(len(judged) >= tot, "too-few", f"{len(judged)} of {tot}")
    c.nontrivial("moving", scene.freq, tuple(a["kind"] for a in scene.arrays))


def working_setting(rng):
    sr = int(rng.choice([1000, 4000, 8000, 16000, 44100]))
    sound = float(rng.choice([343.0, 340.0, 300.0, 500.0]))
    dist = float(rng.uniform(0.15, 0.9)) * sound / sr
    order = int(rng.choice([8, 20, 33, 64, 100, 255, 500]))
    return sr, sound, dist, order


def gain(f, angle, dist, sound):
    """Difference of the microphones, the second one delayed, relative to that from the front."""
    w = 2 * np.pi * f * dist / sound
    return (1 - np.exp(-1j * w * (1 + np.cos(angle)))) / (1 - np.exp(-2j * w))


def plane_waves(rng, freqs, angles, dist, sound, sr, n):
    """Both microphones' signals for a wave of each frequency from each angle, and the phase used: complex amplitude at time 0."""
    phase = rng.uniform(0, 2 * np.pi, size=len(freqs))
    t = np.arange(n) / sr
    main = np.cos(2 * np.pi * freqs[:, None] * t + phase[:, None])
    delay = dist * np.cos(angles) / sound
    second = np.cos(2 * np.pi * freqs[:, None] * (t - delay[:, None]) + phase[:, None])
    return main, second, phase


def measure(out, freqs, phase, sr, lo, hi):
    """Complex gain relative to the main microphone, by a least-squares fit of a sinusoid."""
    g = np.zeros(len(freqs), complex)
    t = np.arange(lo, hi) / sr
    for i, f in enumerate(freqs):
        a = np.stack([np.cos(2 * np.pi * f * t + phase[i]), -np.sin(2 * np.pi * f * t + phase[i])], axis=1)
        co, res, *_ = np.linalg.lstsq(a, out[i, lo:hi], rcond=None)
        g[i] = co[0] + 1j * co[1]
    return g


@case(quick=60, thorough=1500, cpu=240)
def cardioid(c):
    rng = c.rng
    sr, sound, dist, order = working_setting(rng)
    taps = 2 * order + 1
    n = 2 * taps + 120
    lo, hi = taps + 10, n - taps - 10
    what = f"distance {dist:.4f}, order {order}, c {sound}, samplerate {sr}"
    # on the frequencies of the filter
    bins = rng.integers(1, order + 1, size=36)
    freqs = bins * (sr / taps)
    angles = rng.uniform(0, 2 * np.pi, size=36)
    angles[:6], angles[6:12], angles[12:16] = 0, np.pi, np.pi / 2
    main, second, phase = plane_waves(rng, freqs, angles, dist, sound, sr, n)
    keep = main.copy(), second.copy()
    args = {} if rng.integers(2) else dict(filter_below=None)
    out = directional.differential_cardioid_microphone(main, second, dist, order, sound, sr, **args)
    c.check(out.shape == main.shape, "form", f"{out.shape} for {main.shape}", stop=True)
    c.check(np.isrealobj(out) and bool(np.all(np.isfinite(out))), "form", f"{out.dtype}", stop=True)
    c.check(np.array_equal(main, keep[0]) and np.array_equal(second, keep[1]), "argument-changed", what)
    want = gain(freqs, angles, dist, sound)
    got = measure(out, freqs, phase, sr, lo, hi)
    c.same(got, want, "response", what, atol=2e-6, rtol=2e-6)
    c.same(out[:6, lo:hi], main[:6, lo:hi], "front", what, atol=1e-6)
    c.same(out[6:12, lo:hi], np.zeros((6, hi - lo)), "null", what, atol=1e-6)
    c.count("exact_gains", len(freqs))
    c.count("plane_waves", len(freqs))
    # the pattern is a cardioid where the distance is small compared to the wavelength
    low = 2 * np.pi * freqs * dist / sound < 0.3
    c.check(bool(np.all(np.abs(np.abs(got) - (1 + np.cos(angles)) / 2)[low] < 0.05)), "cardioid-pattern", what)
    # in between, with long filters
    if order >= 100:
        fb = rng.uniform(0.15, 0.85, size=12) * sr / 2
        an = rng.uniform(0, 2 * np.pi, size=12)
        an[:2], an[2:4] = 0, np.pi
        main, second, phase = plane_waves(rng, fb, an, dist, sound, sr, n)
        out = directional.differential_cardioid_microphone(main, second, dist, order, sound, sr)
        got = measure(out, fb, phase, sr, lo, hi)
        c.note(between=float(np.abs(got - gain(fb, an, dist, sound)).max()))
        c.same(got, gain(fb, an, dist, sound), "response-between", what, atol=0.15, rtol=0)
        c.count("between_gains", 12)
        c.count("plane_waves", 12)
    c.nontrivial("cardioid", sr, order, round(dist * sr / sound, 1))


@case(quick=40, thorough=800, cpu=240)
def low_frequencies(c):
    rng = c.rng
    sr, sound, dist, order = working_setting(rng)
    order = int(rng.choice([64, 100, 255]))
    taps = 2 * order + 1
    n = 2 * taps + 60
    lo, hi = taps + 5, n - taps - 5
    limit = float(rng.uniform(0.2, 0.6)) * sr / 2
    what = f"below {limit:.1f}, distance {dist:.4f}, order {order}, samplerate {sr}"
    freqs = np.arange(1, order + 1)[rng.permutation(order)[:30]] * (sr / taps)
    angles = np.where(np.arange(30) % 5 == 0, np.pi, rng.uniform(-1.5, 1.5, size=30))
    main, second, phase = plane_waves(rng, freqs, angles, dist, sound, sr, n)
    out = directional.differential_cardioid_microphone(main, second, dist, order, sound, sr, filter_below=limit)
    c.check(out.shape == main.shape, "form", f"{out.shape} for {main.shape}", stop=True)
    want, got = gain(freqs, angles, dist, sound), measure(out, freqs, phase, sr, lo, hi)
    above = freqs > limit
    c.same(got[above], want[above], "response-above-limit", what, atol=2e-6, rtol=2e-6)
    back = np.cos(angles) < -0.99
    c.same(got[back], 0 * got[back], "null", what, atol=1e-6)
    below = freqs <= limit
    c.check(bool(np.all(np.abs(got[below]) <= np.abs(want[below]) + 1e-6)), "amplified-below-limit", what)
    deep = (freqs < limit / 2) & ~back
    c.check(bool(np.all(np.abs(got[deep]) <= 0.12 * np.abs(want[deep]) + 1e-6)), "not-suppressed", lambda: f"{what}: {(np.abs(got) / np.abs(want))[deep]} at {freqs[deep]}")
    # the nearer to the limit the more passes
    idx = np.flatnonzero(below & ~back)
    idx = idx[np.argsort(freqs[idx])]
    ratio = np.abs(got[idx]) / np.abs(want[idx])
    c.check(bool(np.all(np.diff(ratio) >= -1e-6)), "not-monotone", f"{what}: {ratio}")
    c.count("low_gains", int(deep.sum()))
    c.count("plane_waves", 30)
    const = directional.differential_cardioid_microphone(np.ones((1, n)), np.ones((1, n)), dist, order, sound, sr, filter_below=limit)
    c.same(const[:, lo:hi], np.zeros((1, hi - lo)), "constant", what, atol=1e-6)
    c.nontrivial("low", sr, order, round(limit / sr, 1))


@case(quick=80, thorough=1500)
def linear_time_invariant(c):
    rng = c.rng
    sr, sound, dist, order = working_setting(rng)
    order = int(rng.choice([8, 20, 33, 64]))
    taps = 2 * order + 1
    ch, n = int(rng.integers(1, 5)), int(rng.choice([1, 5, taps - 1, taps, 3 * taps, 400]))
    limit = None if rng.integers(2) else float(rng.uniform(0.02, 0.5)) * sr / 2
    f = lambda a, b: directional.differential_cardioid_microphone(a, b, dist, order, sound, sr, filter_below=limit)  # noqa: E731
    a, b, x, y = [rng.normal(size=(ch, n)) for _ in range(4)]
    one = f(a, b)
    c.check(one.shape == (ch, n), "form", f"{one.shape} for {(ch, n)}, order {order}", stop=True)
    scale = np.abs(one).max() + 1e-9
    c.same(f(a, b), one, "not-repeatable", "")
    c.same(f(2 * a - 3 * x, 2 * b - 3 * y) / scale, (2 * one - 3 * f(x, y)) / scale, "not-linear", f"order {order}", atol=1e-8)
    perm = rng.permutation(ch)
    c.same(f(a[perm], b[perm]) / scale, one[perm] / scale, "channels", "order of channels", atol=1e-8)
    for k in range(ch):
        c.same(f(a[k:k + 1], b[k:k + 1]) / scale, one[k:k + 1] / scale, "channels", f"channel {k} alone", atol=1e-8)
    # a shift of the input is a shift of the output, as long as nothing leaves the window
    pad, shift = order + 40, int(rng.integers(1, 40))
    wide = lambda v, s: np.pad(v, ((0, 0), (pad + s, pad + 40 - s)))  # noqa: E731
    base, later = f(wide(a, 0), wide(b, 0)), f(wide(a, shift), wide(b, shift))
    c.same(later[:, shift:] / scale, base[:, :base.shape[1] - shift] / scale, "not-time-invariant", f"shift {shift}, order {order}", atol=1e-8)
    c.same(base[:, pad:pad + n] / scale, one / scale, "depends-on-outside", f"order {order}, length {n}", atol=1e-8)
    # the response reaches exactly the order of the filter to both sides
    imp = np.zeros((1, 4 * order + 1))
    imp[0, 2 * order] = 1
    for u, v in ((imp, 0 * imp), (0 * imp, imp)):
        h = f(u, v)[0]
        c.same(h[:order], np.zeros(order), "filter-length", f"order {order}", atol=1e-9 * max(1, np.abs(h).max()))
        c.same(h[3 * order + 1:], np.zeros(order), "filter-length", f"order {order}", atol=1e-9 * max(1, np.abs(h).max()))
    c.count("lti")
    c.nontrivial("lti", ch, n, order, limit is None)


def fresh():
    """The module as it is in a new process."""
    spec = importlib.util.spec_from_file_location("fresh_directional", directional.__file__)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


@case(quick=24, thorough=400)
def history(c):
    """Calls that differ in a single argument, one after another, give what they give in a new process."""
    rng = c.rng
    sr, sound, dist, order = working_setting(rng)
    order = int(rng.choice([8, 20, 33]))
    values = dict(microphone_distance=dist, filter_order=order, c=sound, samplerate=sr, filter_below=None)
    ch, n = int(rng.integers(1, 3)), int(rng.integers(30, 120))
    a, b = rng.normal(size=(ch, n)), rng.normal(size=(ch, n))
    other = dict(microphone_distance=lambda: values["microphone_distance"] * float(rng.choice([0.8, 0.999, 0.5])), filter_order=lambda: int(values["filter_order"] + rng.integers(1, 4)),
                 c=lambda: values["c"] * float(rng.choice([1.1, 1.001, 1.5])), samplerate=lambda: int(values["samplerate"] * rng.choice([2, 1.01]) + 1),
                 filter_below=lambda: None if values["filter_below"] and rng.random() < 0.3 else float(rng.uniform(0.05, 0.4)) * sr)
    for step in range(8):
        if step:
            k = list(values)[int(rng.integers(len(values)))]
            values[k] = other[k]() if step % 4 or values[k] is None else values[k]
        else:
            k = "nothing"
        got = directional.differential_cardioid_microphone(a, b, **values)
        want = fresh().differential_cardioid_microphone(a, b, **values)
        c.same(got, want, "depends-on-history", f"call {step}, {k} was changed: {values}", rtol=1e-12, atol=1e-12)
        got[...] = 7
        c.same(directional.differential_cardioid_microphone(a, b, **values), want, "result-shared", f"{values}", rtol=1e-12, atol=1e-12)
        c.count("calls_in_a_row")
    c.nontrivial("history", sr, order)
