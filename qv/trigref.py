"""Writer of continuous-coalescence files and an independent reading of the trigger rules."""
from fractions import Fraction
import math, pathlib
import numpy as np
import pandas as pd
from obspy import Stream, Trace, UTCDateTime

FACTOR = {"COA": 1e5, "COA_N": 1e5, "X": 1e6, "Y": 1e6, "Z": 1e3}


class Scan:
    """A stored scan: integer counts on the sampling grid `t0 + i/sr`."""

    def __init__(self, t0, sr, coa, coa_n, x, y, z, ucf=1.0):
        self.t0, self.sr, self.ucf = UTCDateTime(t0), sr, ucf
        f = dict(FACTOR)
        f["Z"] *= ucf
        self.counts = {c: np.round(np.asarray(v, dtype=float) * f[c]).astype(np.int32)
                       for c, v in zip(FACTOR, (coa, coa_n, x, y, z))}
        self.val = {c: v / f[c] for c, v in self.counts.items()}
        self.n = len(self.counts["COA"])

    def ns(self, i):
        return self.t0.ns + int(round(Fraction(int(i) * 10 ** 9) / Fraction(str(self.sr))))

    def time(self, i):
        return UTCDateTime(ns=self.ns(i))

    def index(self, t):
        """Position of an instant on the grid, in samples (a Fraction)."""
        return Fraction(UTCDateTime(t).ns - self.t0.ns, 10 ** 9) * Fraction(str(self.sr))

    def write(self, run_dir, spans=None, max_file=None):
        """Day files; `spans` are the (first, last+1) stretches that exist (all by default)."""
        p = pathlib.Path(run_dir) / "detect" / "scanmseed"
        p.mkdir(parents=True, exist_ok=True)
        days = {}
        for a, b in spans or [(0, self.n)]:
            i = a
            while i < b:
                t = self.time(i) + 5e-7
                day = UTCDateTime(t.date)
                nxt = day + 86400
                j = min(b, int(math.ceil(self.index(nxt) - Fraction(1, 1000))))
                days.setdefault((day.year, day.julday), []).append((i, j))
                i = j
        for (y, jd), parts in days.items():
            st = Stream()
            for c in FACTOR:
                for a, b in parts:
                    st += Trace(self.counts[c][a:b].copy(), dict(network="NW", station=c, sampling_rate=self.sr,
                                                                 starttime=self.time(a)))
            st.write(str(p / f"{y}_{jd:03d}.scanmseed"), format="MSEED", encoding="STEIM2" if all(
                np.abs(np.diff(tr.data.astype(np.int64))).max(initial=0) < 2 ** 29 and abs(int(tr.data[0])) < 2 ** 29 for tr in st) else "INT32")


def smooth(x, sigma, truncate):
    """Normalised Gaussian, cut at a number of standard deviations, edges mirrored."""
    r = int(truncate * sigma + 0.5)
    k = np.exp(-0.5 * (np.arange(-r, r + 1) / sigma) ** 2)
    k /= k.sum()
    n = len(x)
    idx = np.arange(-r, n + r)
    idx = np.mod(idx, 2 * n)
    idx = np.where(idx < n, idx, 2 * n - 1 - idx)
    e = np.asarray(x, dtype=float)[idx]
    return np.array([float(np.dot(e[i:i + 2 * r + 1], k)) for i in range(n)]) if n * (2 * r + 1) < 4e5 else \
        np.convolve(e, k, mode="valid")


def med(v):
    v = np.sort(np.asarray(v, dtype=float))
    m = len(v) // 2
    return v[m] if len(v) % 2 else 0.5 * (v[m - 1] + v[m])


def threshold(x, sr, method, static=None, window=None, mult=None):
    x = np.asarray(x, dtype=float)
    if method == "static":
        return np.full(len(x), float(static))
    w = int(Fraction(str(window)) * Fraction(str(sr)))
    out = np.empty(len(x))
    for a in range(0, len(x), w):
        c = x[a:a + w]
        m = med(c)
        out[a:a + w] = m * mult if method == "median_ratio" else m + mult * 1.4826 * med(np.abs(c - m))
    return out


def candidates(coa, trig, thr, dt, mw, interval):
    """Runs of samples at or above the threshold: (peak, value, earliest, latest) with times in
    samples as exact fractions relative to the first sample."""
    mw, interval = Fraction(str(mw)) / dt, Fraction(str(interval)) / dt
    above = np.asarray(trig) >= np.asarray(thr)
    out, i, n = [], 0, len(above)
    while i < n:
        if not above[i]:
            i += 1
            continue
        j = i
        while j + 1 < n and above[j + 1]:
            j += 1
        pk = max(range(i, j + 1), key=lambda k: (coa[k], -k))
        lo = Fraction(pk) - interval if pk - i < mw else Fraction(i) - (interval - mw)
        hi = Fraction(pk) + interval if j - pk < mw else Fraction(j) + (interval - mw)
        out.append(dict(peak=pk, value=trig[pk], lo=lo, hi=hi, first=i, last=j))
        i = j + 1
    return out


def events(cands, dt, mw):
    mw = Fraction(str(mw)) / dt
    groups = []
    for c in cands:
        if groups:
            a = groups[-1][-1]
            if a["hi"] < c["peak"] - mw and c["lo"] > a["peak"] + mw:
                groups.append([c])
            else:
                groups[-1].append(c)
        else:
            groups.append([c])
    out = []
    for g in groups:
        best = max(g, key=lambda c: (c["value"], -c["peak"]))
        out.append(dict(peak=best["peak"], value=best["value"], lo=min(c["lo"] for c in g), hi=max(c["hi"] for c in g),
                        merged=len(g), first=g[0]["first"], last=g[-1]["last"]))
    return out


def read_files(run_dir, sub=""):
    out = {}
    for f in sorted((pathlib.Path(run_dir) / "trigger" / sub / "events").glob("*_TriggeredEvents.csv")):
        out[f.name] = pd.read_csv(f, dtype={"EventID": str})
    return out


def day_of(fname):
    """Day a triggered-events file is named after."""
    y, j = fname.split("_TriggeredEvents")[0].split("_")[-2:]
    return UTCDateTime(year=int(y), julday=int(j))
