"""C14: each source generates the signal it documents."""
import numpy as np
import scipy.signal as spsig
import soundfile as sf

from vf.core import case
from vf.simlib import *  # noqa: F403

RULE = ("The samples of every source type with random parameters, asked for in random blocks, are judged by the definition of the signal: recurrence and "
        "quadrature of sines, exact pulses, correlation of binary sequences, end modes, counters, and statistics of long noise signals against "
        "requested power, spectrum and autocorrelation. Audio files are written and loaded. Non-trivial: distinct source types with the features of their parameters.")
ASSUMPTIONS = ["statistical bounds are at least seven standard deviations of the estimate, so that a correct source fails with a probability below 1e-9",
               "pulses before the delay are not judged when the delay is longer than the period", "Gold sequences of order 5 to 11, 13 and 15",
               "audio files have a higher sample rate than desired, as the loader demands"]
NEED = {"sines": 30, "multisines": 12, "pulses": 200, "mls_periods": 10, "gold_pairs": 20, "sequence_blocks": 100, "noise_channels": 60,
        "spectra": 15, "autocorrelations": 15, "audio_files": 20, "ar_models": 20, "counters": 5, "high_tones": 10}


def warm_up():
    warm_up_sim()


def play(c, src, ch, n):
    out = []
    while n > 0:
        b = min(n, int(c.rng.choice([1, 3, 50, 1000, 20000])))
        x = np.asarray(src.get_samples(b), dtype=float)
        c.check(x.size == ch * b, "number-of-samples", f"{x.shape} for {ch}x{b}", stop=True)
        out.append(x.reshape(ch, b))
        n -= b
    return np.concatenate(out, axis=-1)


def gen(c):
    return np.random.default_rng(int(c.rng.integers(1 << 31)))


def power_of(rng, ch):
    """(what is given to the source, power of each channel)"""
    kind = int(rng.integers(3))
    scale = float(10.0 ** rng.choice([0, 0, 0, -8, -4, 4, 8]))
    if kind == 0:
        p = float(rng.uniform(0.1, 5)) * scale
        return p, np.full(ch, p)
    if kind == 1:
        p = int(rng.integers(1, 6))
        return p, np.full(ch, float(p))
    p = rng.uniform(0.1, 5, size=ch) * scale
    return p.copy(), p


@case(quick=30, thorough=400)
def sine(c):
    rng = c.rng
    ch, sr = int(rng.integers(1, 5)), int(rng.choice([1000, 8000, 44100]))
    f = float(rng.uniform(0.005, 0.45) * sr) if rng.integers(2) else int(rng.integers(1, sr // 2 - sr // 20))
    given, p = power_of(rng, ch)
    x = play(c, sources.SineSource(ch, given, f, sr, gen(c)), ch, 3000)
    w = 2 * np.pi * f / sr
    c.same(x[:, 2:] + x[:, :-2], 2 * np.cos(w) * x[:, 1:-1], "sine-frequency", f"{f} Hz at {sr}", rtol=0, atol=1e-6 * np.sqrt(p.max()))
    quad = (x[:, 1:] - np.cos(w) * x[:, :-1]) / np.sin(w)
    c.same(x[:, :-1] ** 2 + quad ** 2, np.broadcast_to(2 * p[:, None], quad.shape), "sine-amplitude", f"power {p}, {f} Hz at {sr}", rtol=1e-4, atol=1e-4 * p.max())
    c.count("sines", ch)
    c.nontrivial("sine", ch, sr, type(given).__name__)


@case(quick=16, thorough=200)
def multisine(c):
    rng = c.rng
    sr, k = int(rng.choice([1000, 8000])), int(rng.integers(1, 7))
    f = np.sort(rng.choice(np.arange(2, 90), size=k, replace=False)) * sr / 200 + (0.3 if rng.integers(2) else 0.0)
    p = float(rng.uniform(0.2, 4))
    x = play(c, sources.MultiSineSource(1, p, f if rng.integers(2) else list(f), sr, gen(c)), 1, 4000)[0]
    t = np.arange(4000)
    basis = np.concatenate([[np.cos(2 * np.pi * q / sr * t), np.sin(2 * np.pi * q / sr * t)] for q in f])
    coef = np.linalg.lstsq(basis.T, x, rcond=None)[0]
    c.same(coef @ basis, x, "multisine-content", f"{f} Hz at {sr}", rtol=0, atol=1e-6 * np.sqrt(p))
    c.same(np.hypot(coef[::2], coef[1::2]) ** 2 / 2, np.full(k, p / k), "multisine-power", f"power {p} in {k} sines", rtol=1e-4)
    c.count("multisines")
    c.nontrivial("multisine", k, sr)


@case(quick=24, thorough=300)
def pulse_train(c):
    rng = c.rng
    ch = int(rng.integers(1, 4))
    pick = lambda lo, hi, wrap=(lambda v: v): (lambda v: (wrap(v), v))(rng.integers(lo, hi, size=ch)) if rng.integers(2) else (lambda k: (k, np.full(ch, k)))(int(rng.integers(lo, hi)))  # noqa: E731
    per_in, per = pick(1, 40, list)
    dly_in, dly = pick(0, 60)
    amp_in, amp = pick(1, 9, tuple)
    length = 400 if c.index % 4 else 9000
    if length > 400 and rng.integers(2):
        per_in = per = rng.integers(500, 4000, size=ch)
    x = play(c, sources.PulseTrain(ch, amp_in, per_in, dly_in), ch, length)
    for i in range(ch):
        n = np.arange(length)
        want = np.where((n >= dly[i]) & ((n - dly[i]) % per[i] == 0), amp[i], 0)
        start = dly[i] if dly[i] >= per[i] else 0
        c.same(x[i, start:], want[start:], "pulses", f"channel {i}: period {per[i]}, delay {dly[i]}, amplitude {amp[i]}", rtol=1e-12)
        c.count("pulses", np.count_nonzero(want))
    c.nontrivial("pulse", ch, type(per_in).__name__, type(dly_in).__name__, type(amp_in).__name__)


TAPS = {3: [2], 4: [3], 5: [3], 6: [5], 7: [6], 9: [5], 10: [7], 11: [9]}


def circular(a, b):
    return np.rint(np.fft.irfft(np.fft.rfft(a) * np.conj(np.fft.rfft(b)), len(a))).astype(int)


@case(quick=16, thorough=150)
def mls(c):
    rng = c.rng
    order = int(rng.choice(list(TAPS)))
    taps = None if rng.integers(2) else TAPS[order]
    state = None
    if rng.random() < 0.6:
        state = rng.integers(0, 2, size=order)
        state[int(rng.integers(order))] = 1
    n = 2 ** order - 1
    x = play(c, sources.MLS(1, order, taps, None if state is None else state.copy()), 1, 2 * n)[0]
    c.check(set(np.unique(x)) <= {-1.0, 1.0}, "mls-values", f"{np.unique(x)[:5]}")
    c.check(np.array_equal(x[:n], x[n:]), "mls-period", f"order {order}")
    c.check(np.array_equal(circular(x[:n], x[:n]), np.where(np.arange(n) == 0, n, -1)), "mls-autocorrelation", f"order {order}")
    c.check(abs(x[:n].sum()) == 1, "mls-balance", f"{x[:n].sum()}")
    if state is not None:
        want = spsig.max_len_seq(order, state=state.copy(), taps=taps)[0] * 2.0 - 1
        c.same(x[:n], want, "mls-start-state", f"order {order}, state {state}")
    c.count("mls_periods", 2)
    c.nontrivial("mls", order, taps is None, state is None)


@case(quick=14, thorough=100)
def gold(c):
    rng = c.rng
    order = 5 + c.index % 7
    if c.index % 7 == 6 and c.index > 7:
        order = int(rng.choice([11, 13, 15]))
    n = 2 ** order - 1
    ch = int(rng.choice([1, 2, 3, 4, 6, 12, 31] + ([40, 66] if order > 6 else [])))
    given, p = power_of(rng, ch)
    if rng.random() < 0.3:
        given = np.array(given)[..., None] if np.ndim(given) else np.array(given)
    x = play(c, sources.GoldSequenceSource(ch, given, order), ch, 2 * n)
    c.same(np.abs(x), np.broadcast_to(np.sqrt(p)[:, None], x.shape), "gold-power", f"power {p}", rtol=1e-9)
    b = np.sign(x)
    c.check(np.array_equal(b[:, :n], b[:, n:]), "gold-period", f"order {order}")
    t = 1 + 2 ** ((order + 2) // 2)
    for i in range(ch):
        for j in range(i + 1):
            r = circular(b[i, :n], b[j, :n])
            off = r[1:] if i == j else r
            if order % 4:
                c.check(set(np.unique(off)) <= {-1, -t, t - 2}, "gold-correlation", f"order {order}, channels {i} and {j}: {np.unique(off)}")
            else:
                c.check(np.max(np.abs(off)) < n / 2, "gold-correlation", f"order {order}, channels {i} and {j}: {np.unique(off)}")
            c.count("gold_pairs", i != j)
    c.nontrivial("gold", order, ch)


@case(quick=36, thorough=400)
def sequence(c):
    rng = c.rng
    ch, n = int(rng.integers(1, 4)), int(rng.integers(1, 50))
    audio, amp = rng.normal(size=(ch, n)), float(rng.choice([1, 0.3, -2]))
    mode = ["repeat", "zeros", "raise"][c.index % 3]
    if rng.random() < 0.3:  # as audio files of whole numbers
        kind, top = [("int16", 30000), ("int32", 2 ** 30), ("float32", 2)][int(rng.integers(3))]
        audio = (np.clip(audio / 3, -1, 1) * top).astype(kind)
    given = audio[0].copy() if ch == 1 and rng.integers(2) else audio.copy()
    before = given.copy()
    src = sources.Sequence(given, amp, mode) if mode != "repeat" or rng.integers(2) else sources.Sequence(given, amp)
    at, ended = 0, False
    for _ in range(12):
        b = int(rng.choice([1, 2, 5, 17, 60]))
        if mode == "raise" and at + b > n:
            c.raises(lambda: src.get_samples(b), "sequence-does-not-raise", f"{at}+{b} of {n}")
            ended = True
            break
        x = np.asarray(src.get_samples(b)).reshape(ch, b)
        k = np.arange(at, at + b)
        want = np.where(k < n, audio[:, k % n], 0) if mode == "zeros" else audio[:, k % n]
        c.same(x, amp * want, "sequence", f"{mode}, samples {at} to {at + b} of {n}", rtol=1e-12 if audio.dtype == float else 1e-6, atol=0 if audio.dtype.kind == "f" else 1e-6 * top)
        at += b
        c.count("sequence_blocks")
    c.check(np.array_equal(given, before), "sequence-changes-the-audio", f"{mode}: the audio given to the source is not the same after it was played")
    c.nontrivial("sequence", mode, ch, ended, str(audio.dtype))


@case(quick=6, thorough=40)
def counter(c):
    s = int(c.rng.integers(-100, 100))
    x = play(c, sources.Counter(1, s) if c.index % 2 else sources.Counter(1), 1, 500)
    c.same(x[0], np.arange(500) + (s if c.index % 2 else 0), "counter", f"from {s}")
    c.count("counters")
    c.nontrivial("counter", c.index % 2)


def uncorrelated(c, x, n_eff, key, what):
    ch = len(x)
    for i in range(ch):
        for j in range(i):
            for lag in (0, 1, -1, 2, ch, -ch):
                a, b = (x[i, lag:], x[j, :x.shape[1] - lag]) if lag >= 0 else (x[i, :lag], x[j, -lag:])
                r = np.mean(a * b) / np.sqrt(np.mean(a ** 2) * np.mean(b ** 2))
                c.check(abs(r) < 8 / np.sqrt(n_eff), key, f"{what}: channels {i} and {j} have correlation {r} at lag {lag}")


@case(quick=24, thorough=200)
def white(c):
    rng = c.rng
    ch, n = int(rng.integers(1, 5)), 30000
    given, p = power_of(rng, ch)
    src = sources.WhiteNoiseSource(ch, given, gen(c))
    if rng.random() < 0.3:
        play(c, src, ch, 7)
        given, p = power_of(rng, ch)
        src.set_power(given)
    x = play(c, src, ch, n)
    for i in range(ch):
        c.check(abs(np.mean(x[i])) < 7 * np.sqrt(p[i] / n), "white-mean", f"channel {i}: {np.mean(x[i])}")
        c.check(abs(np.mean(x[i] ** 2) / p[i] - 1) < 8 * np.sqrt(2 / n), "white-power", f"channel {i}: {np.mean(x[i] ** 2)} instead of {p[i]}")
        for lag in (1, 2, 3, ch, 50):
            r = np.mean(x[i, lag:] * x[i, :-lag]) / p[i]
            c.check(abs(r) < 8 / np.sqrt(n), "white-spectrum", f"channel {i}: correlation {r} at lag {lag}")
    uncorrelated(c, x, n, "white-channels", f"{ch} channels")
    c.count("noise_channels", ch)
    c.nontrivial("white", ch, type(given).__name__)


@case(quick=18, thorough=200)
def bandlimited(c):
    rng = c.rng
    ch, n, sr = int(rng.integers(1, 4)), 60000, int(rng.choice([1000, 8000]))
    lo = float(rng.uniform(0.05, 0.25) * sr)
    hi = lo + float(rng.uniform(0.1, 0.2) * sr)
    given, p = power_of(rng, ch)
    src = sources.BandlimitedNoiseSource(ch, given, (lo, hi) if rng.integers(2) else [lo, hi], sr, gen(c))
    if rng.random() < 0.3:
        given, p = power_of(rng, ch)
        src.set_power(given)
    x = play(c, src, ch, n)[:, 1000:]
    bw = 2 * (hi - lo) / sr
    bound = 8 * np.sqrt(2 / (bw * n)) + 8 * np.sqrt(2 / (bw * 10000 * ch)) + 0.02
    for i in range(ch):
        c.check(abs(np.mean(x[i] ** 2) / p[i] - 1) < bound, "band-power", f"channel {i}: {np.mean(x[i] ** 2)} instead of {p[i]} (within {bound:.2f})")
        c.check(abs(np.mean(x[i])) < 0.02 * np.sqrt(p[i]), "band-mean", f"channel {i}: {np.mean(x[i])}")
        f, s = spsig.welch(x[i], sr, nperseg=512)
        inside, margin = (f > lo * 1.1) & (f < hi * 0.95), 0.04 * sr
        outside = (f < lo - margin) | (f > hi + margin)
        level = np.mean(s[inside])
        c.check(np.max(s[outside]) < 1e-2 * level, "band-leak", f"{np.max(s[outside]) / level} outside of {lo} to {hi} Hz at {sr}")
        c.check(np.max(s[inside]) < 2 * level and np.min(s[inside]) > 0.4 * level, "band-not-flat", f"{s[inside] / level}")
        c.count("spectra")
    uncorrelated(c, x, n * bw / 2, "band-channels", f"{ch} channels")
    c.count("noise_channels", ch)
    c.nontrivial("band", ch, sr, type(given).__name__)


def comb_autocorr(rng, order):
    """The same for an echo after order samples."""
    g, p = float(rng.uniform(0.3, 0.6) * rng.choice([-1, 1])), float(rng.uniform(0.3, 3))
    h = np.zeros(600)
    h[::order] = g ** np.arange(len(h[::order]))
    return p * np.array([np.dot(h[:600 - k], h[k:]) for k in range(order + 1)]), np.concatenate((np.zeros(order - 1), [g])), p, h


def ar_autocorr(rng, order):
    """The autocorrelation of a stable autoregressive process at lags 0 to order, and its coefficients."""
    poles = []
    while len(poles) < order:
        if order - len(poles) >= 2 and rng.integers(2):
            z = rng.uniform(0.1, 0.8) * np.exp(1j * rng.uniform(0.2, 2.9))
            poles += [z, np.conj(z)]
        else:
            poles.append(rng.uniform(-0.8, 0.8))
    a = np.real(np.poly(poles))
    h = spsig.lfilter([1], a, np.eye(1, 600)[0])
    p = float(rng.uniform(0.3, 3))
    return p * np.array([np.dot(h[:600 - k], h[k:]) for k in range(order + 1)]), -a[1:], p, h


@case(quick=24, thorough=300)
def ar_model(c):
    """The coefficients found for an autocorrelation make a process with it."""
    r, a, p, _ = ar_autocorr(c.rng, int(c.rng.integers(1, 6))) if c.rng.random() < 0.7 else comb_autocorr(c.rng, int(c.rng.integers(6, 33)))
    coef, noise = sources.ar_coeffs_from_autocorr(r if c.index % 2 else r[None])
    c.same(coef, a, "ar-coefficients", f"{r}", rtol=1e-5, atol=1e-7)
    c.same(noise, p, "ar-noise", f"{r}", rtol=1e-6)
    num, den = sources.ar_coeffs_to_transfer_function(np.asarray(coef))
    h = spsig.lfilter(num, den, np.eye(1, 800)[0])
    c.same([noise * np.dot(h[:800 - k], h[k:]) for k in range(len(r))], r, "ar-transfer-function", f"{r}", rtol=1e-5, atol=1e-7)
    c.count("ar_models")
    c.nontrivial("ar", len(r))


@case(quick=18, thorough=200)
def autocorr(c):
    rng = c.rng
    ch, order, n = int(rng.integers(1, 4)), int(rng.integers(1, 5)), 60000
    long = rng.random() < 0.3
    if long:
        order = int(rng.integers(6, 33))
    model = [(comb_autocorr if long else ar_autocorr)(rng, order) for _ in range(ch)]
    r = np.stack([m[0] for m in model])
    x = play(c, sources.AutocorrSource(ch, r.copy(), gen(c)), ch, n + 500)[:, 500:]
    for i in range(ch):
        full = np.array([np.dot(model[i][3][:600 - k], model[i][3][k:]) for k in range(500)]) * model[i][2]
        std = np.sqrt((full[0] ** 2 + 2 * np.sum(full[1:] ** 2)) * 2 / n)  # bound on the deviation of any estimated lag
        for k in range(order + 1):
            est = np.mean(x[i, k:] * x[i, :n - k])
            c.check(abs(est - r[i, k]) < 8 * std, "autocorrelation", f"channel {i} of {ch}, lag {k}: {est} instead of {r[i, k]} +- {std}")
        c.check(abs(np.mean(x[i])) < 8 * np.sqrt((full[0] + 2 * np.sum(np.abs(full[1:]))) / n), "autocorr-mean", f"{np.mean(x[i])}")
        c.count("autocorrelations")
    if ch > 1:
        white_ = np.stack([spsig.lfilter(np.concatenate(([1], -model[i][1])), [1], x[i])[10:] for i in range(ch)])
        uncorrelated(c, white_, n, "autocorr-channels", f"{ch} channels")
    c.count("noise_channels", ch)
    c.nontrivial("autocorr", ch, order)


@case(quick=12, thorough=100)
def in_band_of_each_channel(c):
    """Channels of one array keep their own power when they are simulated."""
    rng = c.rng
    ch = int(rng.integers(2, 4))
    p = np.array([0.5, 5.0, 50.0])[:ch]
    kind = c.index % 3
    src = [lambda: sources.WhiteNoiseSource(ch, p.copy(), gen(c)), lambda: sources.BandlimitedNoiseSource(ch, p.copy(), (100, 300), 1000, gen(c)),
           lambda: sources.SineSource(ch, p.copy(), 123.4, 1000, gen(c))][kind]()
    setup = configure(SimulatorSetup(), tot_samples=2500, sim_buffer=500, sim_chunk_size=500)
    setup.add_free_source("s", rand_pos(rng, ch), src)
    setup.add_mics("m", rand_pos(rng, 1))
    sim = setup.create_simulator()
    rec = record(sim, {"s": ch})["s"]
    sim.run_simulation()
    got = np.mean(np.asarray(rec.get_output())[:, 300:] ** 2, axis=-1)
    c.check(np.all(np.abs(got / p - 1) < 0.6), "channel-power", f"{got} instead of {p}")
    c.count("noise_channels", ch)
    c.nontrivial("simulated power", kind, ch)


@case(quick=28, thorough=300)
def audio_file(c):
    rng = c.rng
    ch, sr, n = int(rng.integers(1, 5)), int(rng.choice([8000, 16000, 44100, 48000])), int(rng.integers(3000, 9000))
    t = np.arange(n) / sr
    desired = None if rng.random() < 0.25 else sr if rng.random() < 0.15 else int(rng.choice([q for q in (4000, 6000, 7990, 8000, 11025, 16000, 15950, 22000, 24000, 32000) if q < sr]))
    out_sr = desired or sr
    f = rng.uniform(0.05, 0.35, size=ch) * out_sr
    amp = np.linspace(0.2, 0.8, ch)
    audio = amp[:, None] * np.sin(2 * np.pi * f[:, None] * t + rng.uniform(0, 6, size=(ch, 1)))
    path = c.tmp() / str(rng.choice(["a.wav", "b c.wav", "x.flac"]))
    sf.write(str(path), audio.T, sr, subtype="PCM_24")
    want_ch = None if rng.random() < 0.5 else int(rng.integers(1, ch + 1))
    kw = {}
    if desired is not None or rng.integers(2):
        kw["desired_sr"] = desired
    if want_ch is not None or rng.integers(2):
        kw["num_channels"] = want_ch
    got = sources.load_audio_file(str(path) if rng.integers(2) else path, **kw)
    k = want_ch or ch
    what = f"{ch} channels at {sr} Hz, {kw}"
    length = -(-n * out_sr // sr)
    if not c.check(got.shape == (k, length), "audio-shape", f"{got.shape} instead of {(k, length)}: {what}"):
        return
    if out_sr == sr:
        c.same(got, audio[:k], "audio-samples", what, rtol=0, atol=1e-6)
    else:
        tt = np.arange(length) / out_sr
        mid = slice(60, length - 60)
        for i in range(k):
            basis = np.stack([np.sin(2 * np.pi * f[i] * tt), np.cos(2 * np.pi * f[i] * tt)])[:, mid]
            coef, *_ = np.linalg.lstsq(basis.T, got[i, mid], rcond=None)
            c.check(np.max(np.abs(coef @ basis - got[i, mid])) < 0.05 * amp[i], "audio-pitch", f"channel {i}, {f[i]} Hz: {what}")
            c.check(abs(np.hypot(*coef) / amp[i] - 1) < 0.12, "audio-level", f"channel {i}: {np.hypot(*coef)} instead of {amp[i]}: {what}")
            phase = np.array([np.sin(2 * np.pi * f[i] * t), np.cos(2 * np.pi * f[i] * t)])
            c0, *_ = np.linalg.lstsq(phase.T, audio[i], rcond=None)
            c.check(np.linalg.norm(coef - c0) < 0.15 * amp[i], "audio-time", f"channel {i} is shifted: {what}")
    src = sources.Sequence(got)
    c.same(play(c, src, k, length), got, "audio-sequence", what)
    c.count("audio_files")
    c.nontrivial("audio", ch, want_ch, sr, desired)


@case(quick=14, thorough=150)
def nothing_mirrored(c):
    """What is above half the desired sample rate is not heard at all, least of all at another pitch."""
    rng = c.rng
    sr, out_sr = [(8000, 2000), (16000, 8000), (48000, 16000), (44100, 11025), (48000, 24000), (44100, 8000), (16000, 6000), (48000, 4000)][c.index % 8]
    ch, n = int(rng.integers(1, 4)), int(rng.integers(3000, 9000))
    f = rng.uniform(0.62 * out_sr, 0.48 * sr, size=ch) if 0.62 * out_sr < 0.48 * sr else np.full(ch, 0.48 * sr)
    audio = 0.7 * np.sin(2 * np.pi * f[:, None] * np.arange(n) / sr + rng.uniform(0, 6, size=(ch, 1)))
    path = c.tmp() / "a.wav"
    sf.write(str(path), audio.T, sr, subtype="PCM_24")
    got = sources.load_audio_file(path, desired_sr=out_sr)
    mid = got[:, 60:-60] if got.shape[-1] > 200 else got
    level = np.sqrt(2 * np.mean(mid ** 2, axis=-1)) / 0.7
    c.check(np.all(level < 0.03), "audio-mirrored", f"{f} Hz at {sr} Hz, loaded with {out_sr} Hz, has a level of {level}")
    c.note(level=level.tolist())
    c.count("high_tones", ch)
    c.nontrivial("mirror", sr, out_sr, ch)
