"""Independent reference computations (numpy only; nothing imported from the code under test)."""
import numpy as np


def ref_migrate(onsets, tt, first, last, available):
    """Geometric mean of clipped, shifted onsets, shape(*grid, n_samples)."""
    onsets = np.maximum(np.asarray(onsets, dtype=np.longdouble), np.longdouble(0.01))
    lo = np.log(onsets).astype(float)
    n_on, n_t = lo.shape
    ns = n_t - first - last
    grid = tt.shape[:-1]
    acc = np.zeros((int(np.prod(grid)), ns))
    flat = tt.reshape(-1, n_on)
    s = np.arange(ns)
    for k in range(n_on):
        idx = np.maximum(flat[:, k], 0)[:, None] + first + s[None, :]
        acc += lo[k][idx]
    return np.exp(acc / available).reshape(tuple(grid) + (ns,))


def ref_peak(map4d):
    """max, normalised max and all argmax candidates."""
    ns = map4d.shape[-1]
    flat = map4d.reshape(-1, ns)
    mx = flat.max(axis=0)
    mean = flat.mean(axis=0)
    return mx, mx / mean, flat.argmax(axis=0)


def ref_sta_lta(x, nsta, nlta, position):
    """Short/long window mean ratio summed window by window (no running sums).

    Returns (ratio, fits): 1 wherever a window does not fit or the long window is empty."""
    x = np.asarray(x, dtype=np.longdouble)
    n = len(x)
    out = np.ones(n, dtype=np.longdouble)
    fits = np.zeros(n, dtype=bool)
    if position == "overlapping":
        lo, hi = nlta - 1, n
    else:
        lo, hi = nlta - 1, n - nsta
    if hi > lo:
        w = np.lib.stride_tricks.sliding_window_view
        lta = w(x, nlta).mean(axis=1)[:hi - lo]
        sw = w(x, nsta).mean(axis=1)
        s0 = nlta - nsta if position == "overlapping" else nlta
        sta = sw[s0:s0 + hi - lo]
        with np.errstate(all="ignore"):
            out[lo:hi] = np.where(lta > 0, sta / lta, 1.0)
        fits[lo:hi] = True
    return out.astype(float), fits


def ref_recursive(x, nsta, nlta):
    sta = lta = 0.0
    out = np.ones(len(x))
    for i in range(1, len(x)):
        sta = x[i] / nsta + (1 - 1 / nsta) * sta
        lta = x[i] / nlta + (1 - 1 / nlta) * lta
        out[i] = sta / lta if lta > 0 else 1.0
    out[:nlta] = 1.0
    return out
