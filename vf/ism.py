"""An image-source reference written from the textbook (Allen and Berkley), independent of the code under test."""
import itertools

import numpy as np

from vf.simlib import *  # noqa: F403


def sabine_limit(size, c):
    """The reverberation time at which Sabine's formula asks for full absorption."""
    a, b, h = size
    return 24 * np.log(10) * (a * b * h) / (2 * (a * b + a * h + b * h) * c)


def order(size, c, rt60):
    if rt60 == 0:
        return 0
    r = min(x * y / np.hypot(x, y) for x, y in itertools.combinations(size, 2))
    return int(np.ceil(c * rt60 / r - 1)) + 8


def images(src, size, max_order):
    """Positions (n, 3) and numbers of reflections of all images up to the order, for a room from 0 to size."""
    n = np.arange(-max_order, max_order + 1)
    coord = [np.where(n % 2 == 0, n * size[d] + src[d], n * size[d] + size[d] - src[d]) for d in range(3)]
    out, refl = [], []
    for i in n:
        rest = max_order - abs(i)
        m = np.arange(-rest, rest + 1)
        for j in m:
            k = np.arange(-(rest - abs(j)), rest - abs(j) + 1)
            p = np.empty((len(k), 3))
            p[:, 0], p[:, 1], p[:, 2] = coord[0][i + max_order], coord[1][j + max_order], coord[2][k + max_order]
            out.append(p)
            refl.append(abs(i) + abs(j) + np.abs(k))
    return np.concatenate(out), np.concatenate(refl)


def rir(src, mic, info, ir_len):
    """The impulse response and a tolerance for each of its samples."""
    size = np.asarray(info.room_size, float)
    shift = size / 2 - np.asarray(info.room_center, float)
    o = order(size, info.c, info.rt60)
    e_abs = sabine_limit(size, info.c) / info.rt60 if info.rt60 > 0 else 0.9
    img, refl = images(np.asarray(src) + shift, size, o)
    dist = np.linalg.norm(img - (np.asarray(mic) + shift), axis=1)
    amp = np.sqrt(1 - e_abs) ** refl / dist
    half = info.extra_delay
    t = dist / info.c * info.samplerate + half
    near = t < ir_len + half + 2
    t, amp = t[near], amp[near]
    whole = np.floor(t).astype(int)
    frac = t - whole
    f = np.arange(-half, half + 1)
    taps = amp[:, None] * np.hanning(2 * half + 1) * np.sinc(f - frac[:, None])
    # float32 time and interpolated sinc; next to a whole sample, the window may be one sample away
    edge = np.minimum(frac, 1 - frac) < 1e-6 * t + 1e-4
    err = np.abs(amp) * (2e-3 + 1e-6 * t + edge * 4 / (half + 1))
    n = ir_len + 4 * half + 8
    h, tol = np.zeros(n), np.zeros(n)
    at = whole[:, None] + f
    ok = (at >= 0) & (at < n)
    np.add.at(h, at[ok], taps[ok])
    np.add.at(tol, at[ok], np.broadcast_to(err[:, None], at.shape)[ok])
    for d in -1, 1:
        at2 = whole[edge] + d * (half + 1)
        k2 = (at2 >= 0) & (at2 < n)
        np.add.at(tol, at2[k2], err[edge][k2])
    return h[:ir_len], tol[:ir_len] + 1e-6 * np.max(amp, initial=0), amp, t
