"""C13: detection thresholds equal their documented statistic of the coalescence."""
from fractions import Fraction
import numpy as np
import pandas as pd
from obspy import UTCDateTime
from qv import harness, synth, trigref
from checks.c12 import lut_for


def settings(rng, sr, dynamic=None):
    method = dynamic or str(rng.choice(["static", "mad", "median_ratio", "dynamic"]))
    m = "mad" if method == "dynamic" else method
    if m == "static":
        return m, dict(threshold_method=m, static_threshold=float(np.round(rng.uniform(1.05, 3), 3)))
    w = float(rng.choice([3.0, 4.5, 7.3, 10.0, 13.7, 29.0, 60.0, 3600.0, 2.9, 4.35, 1.15]))
    if (Fraction(str(w)) * Fraction(str(sr))).denominator != 1:   # windows are whole numbers of samples
        w = float(max(1, round(w * sr)) / Fraction(str(sr)))
        if (Fraction(str(w)) * Fraction(str(sr))).denominator != 1:
            w = 3600.0
    if m == "mad":
        return m, dict(threshold_method=method, mad_window_length=w, mad_multiplier=float(rng.choice([1.0, 3.0, 5.0, 8.0, 12.5])))
    return m, dict(threshold_method=method, median_window_length=w, median_multiplier=float(rng.choice([1.02, 1.1, 1.2, 2.0])))


def ref_thr(v, sr, m, kw):
    if m == "static":
        return trigref.threshold(v, sr, m, static=kw["static_threshold"])
    p = "mad" if m == "mad" else "median"
    return trigref.threshold(v, sr, m, window=kw[p + "_window_length"], mult=kw[p + "_multiplier"])


def probe(case, rng, obs):
    """Isolated peaks placed just above and just below the threshold tell what the threshold was."""
    d = harness.case_dir()
    sr = case["sr"]
    dt = Fraction(1) / Fraction(str(sr))
    units = "km"
    lut = lut_for(units)
    m, kw = settings(rng, sr, case.get("method"))
    mw, interval = 0.2, 0.4
    n = int(float(rng.uniform(500, 700) if case.get("long") else rng.uniform(20, 120)) * sr)
    win = int(Fraction(str(kw.get("mad_window_length", kw.get("median_window_length", 10.0)))) * sr)
    level = 1.0 + 0.5 * rng.random(n // win + 2)[np.arange(n) // win] * (rng.random() < 0.8)
    scale = 0.02 * (0.3 + rng.random(n // win + 2))[np.arange(n) // win]
    x = level + scale * np.abs(rng.normal(0, 1, n))
    if rng.random() < 0.2:       # a stretch filled with zeros, as detect writes where there were no data
        a = int(rng.integers(0, n)); x[a:a + int(rng.uniform(0.1, 0.6) * n)] = 0.0
    other = 1.0 + 0.1 * rng.random(n)
    step = max(2, int(1.1 * sr))
    pos = np.arange(int(rng.integers(0, step)), n, step) if rng.random() < 0.5 else np.unique(np.concatenate(
        [np.arange(win - 1, n, win), np.arange(win, n, win)[1::2], rng.integers(0, n, 3)]))
    pos = [int(p) for i, p in enumerate(pos) if i == 0 or True]
    keep = []
    for p in sorted(pos):
        if not keep or p - keep[-1] > 1.02 * sr * (interval + mw) + 1:
            keep.append(p)
    pos = np.array(keep, dtype=int)
    sign = np.where(rng.random(len(pos)) < 0.5, 1.0, -1.0)
    eps = 10 ** rng.uniform(-4, -2.3, len(pos)) * sign
    smoothing = case.get("smooth", False)
    norm = bool(rng.random() < 0.5)
    if not smoothing:
        for _ in range(6):
            thr = ref_thr(np.round(x * 1e5) / 1e5, sr, m, kw)
            x[pos] = np.where(thr[pos] > 0, thr[pos] * (1 + eps), x[pos])
    else:
        x[pos] = (level + 8 * scale)[pos] * (1 + rng.uniform(0, 0.5, len(pos)))
        s_sig = float(rng.choice([0.1, 0.2, 0.05, 0.33]))
        s_w = float(rng.choice([4.0, 2.0, 3.3]))
        kw.update(smooth_coa=True, smoothing_kernel_sigma=s_sig, smoothing_kernel_width=s_w)
    t0 = UTCDateTime("2022-03-03T10:00:00")
    coa, coan = (other, x) if norm else (x, other)
    scan = trigref.Scan(t0, sr, coa, coan, np.full(n, -17.0), np.full(n, 64.5), rng.uniform(0, 9, n), 1000.0)
    scan.write(d / "run")
    a, e = (int(rng.integers(0, n // 5)), n - 1 - int(rng.integers(0, n // 5))) if rng.random() < 0.4 else (0, n - 1)
    pad = float(rng.choice([0, 2, 120]))
    if case.get("long"):         # more scanned on either side than the pad takes in
        pad = float(rng.choice([30, 90, 120, 120, 150]))
        a, e = int(rng.uniform(100, 220) * sr), n - 1 - int(rng.uniform(100, 220) * sr)
        obs.count("long_runs")
    tr = synth.make_trigger(lut, d, marginal_window=mw, min_event_interval=interval, normalise_coalescence=norm, pad=pad, **kw)
    with synth.quiet():
        tr.trigger(scan.time(a), scan.time(e))
    p = int(pad * sr)
    lo, hi = max(0, a - p), min(n, e + p + 1)
    c, cn = scan.val["COA"][lo:hi], scan.val["COA_N"][lo:hi]
    if smoothing:
        c, cn = (trigref.smooth(q, s_sig * sr, s_w) for q in (c, cn))
    v = cn if norm else c
    thr = ref_thr(v, sr, m, kw)
    info = dict(sr=sr, params=kw, norm=norm, pad=pad, n=hi - lo)
    if m != "static" and (np.abs(v - thr) < (1e-9 if smoothing else 1e-12)).any():
        if not (v == 0).any():
            obs.count("ambiguous_skipped")
            return
    cands = trigref.candidates(c, v, thr, dt, mw, interval)
    if smoothing and any(sorted(c[q["first"]:q["last"] + 1])[-2:][0] > c[q["peak"]] - 1e-9 for q in cands if q["last"] > q["first"]):
        obs.count("ambiguous_skipped")
        return
    want = [q for q in trigref.events(cands, dt, mw) if a <= lo + q["peak"] <= e]
    files = trigref.read_files(d / "run")
    if not obs.check(len(files) == 1, "one_file", str(sorted(files)), **info):
        return
    df = next(iter(files.values()))
    gi = [int(round(float(scan.index(t)))) - lo for t in df["CoaTime"]]
    wi = [q["peak"] for q in want]
    bad = sorted(set(gi) ^ set(wi))
    obs.check(gi == wi, "events_at_threshold", lambda: f"{len(bad)} peaks judged differently from the documented threshold, e.g. sample {bad[:1]}"
              f" value {v[bad[0]] if bad else None}, threshold {thr[bad[0]] if bad else None}, reported {bad[0] in gi if bad else None}", **info)
    if gi == wi:
        k = gi
        tol = 1e-9 if smoothing else 1e-12
        obs.close("TRIG_COA", df["TRIG_COA"], v[k], rtol=tol, msg="value of the stream triggered on", **info)
        obs.close("COA", df["COA"], c[k], rtol=tol, msg="COA", **info)
        obs.close("COA_NORM", df["COA_NORM"], cn[k], rtol=tol, msg="COA_NORM", **info)
    if not smoothing:
        inside = [q for q in pos if a <= q <= e and thr[q - lo] > 0]
        obs.count("probes_above", sum(v[q - lo] >= thr[q - lo] for q in inside))
        obs.count("probes_below", sum(v[q - lo] < thr[q - lo] for q in inside))
        r = [abs(v[q - lo] / thr[q - lo] - 1) for q in inside]
        if r:
            obs.count("probes_within_1e-3", sum(q < 1e-3 for q in r))
    else:
        obs.count("smoothed_events", len(gi))
    obs.count("runs_" + m)
    obs.key("probe", sr, repr(kw), norm, pad, len(gi))
    obs.sample = dict(info, events=len(gi), probes=len(pos))


def arrays(case, rng, obs):
    """The threshold and smoothing steps on arbitrary series."""
    d = harness.case_dir()
    lut = lut_for("km")
    for _ in range(case["k"]):
        sr = float(rng.choice([1, 2, 5, 10, 25, 50, 100, 0.5, 20.0]))
        m, kw = settings(rng, sr)
        if m != "static" and Fraction(str(kw.get("mad_window_length", kw.get("median_window_length")))) * Fraction(str(sr)) < 1:
            continue
        n = int(rng.integers(1, 400))
        v = rng.choice([rng.random(n) * 5, np.round(rng.random(n) * 4) / 2, np.full(n, 1.7), np.where(rng.random(n) < .4, 0, rng.random(n) + 1)])
        tr = synth.make_trigger(lut, d, **kw)
        if hasattr(tr, "_get_threshold"):
            with synth.quiet():
                got = tr._get_threshold(pd.Series(v), sr)
            obs.close("threshold/" + m, np.asarray(got), ref_thr(v, sr, m, kw), rtol=1e-12, atol=1e-14, msg=f"{kw} n={n} sr={sr}")
            obs.count("thresholds")
            obs.key("thr", m, repr(kw), sr, n)
        if hasattr(tr, "_smooth_coa") and n > 1:
            sig, wd = float(rng.choice([0.1, 0.2, 0.5, 1.0])), float(rng.choice([4.0, 2.0, 1.5]))
            tr.smoothing_kernel_sigma, tr.smoothing_kernel_width = sig, wd
            df = pd.DataFrame({"COA": v.astype(float), "COA_N": v[::-1].astype(float).copy(), "X": np.arange(n) * 1.0})
            with synth.quiet():
                out = tr._smooth_coa(df.copy(), sr)
            for col in ("COA", "COA_N"):
                obs.close("smooth", out[col], trigref.smooth(df[col].values, sig * sr, wd), rtol=1e-9, atol=1e-12, msg=f"{col} sigma={sig * sr} w={wd}")
            obs.close("smooth", out["X"], df["X"], msg="other columns")
            obs.count("smoothings")


def main(chk):
    rates = [50, 20, 25, 10, 100, 40, 5]
    methods = ["mad", "median_ratio", "mad", "median_ratio", "static", "dynamic"]
    N = chk.pick(260, 5000)
    chk.run(probe, [dict(id=f"p{i}", sr=rates[i % len(rates)], method=methods[i % len(methods)], smooth=i % 5 == 4) for i in range(N)])
    chk.run(probe, [dict(id=f"l{i}", sr=[5, 10, 20][i % 3], method=methods[i % len(methods)], smooth=i % 5 == 4, long=True) for i in range(chk.pick(20, 200))])
    chk.run(arrays, [dict(id=f"a{i}", k=40) for i in range(chk.pick(16, 200))])
    chk.require(probes_above=1000, probes_below=1000, smoothed_events=200, runs_mad=60, runs_median_ratio=50, runs_static=20, long_runs=18)
    chk.rule = ("triggers over streams whose peaks straddle the documented threshold by 1e-4 to 5e-3, and direct calls on arbitrary series; "
                "a key is a distinct (rate, settings, options, outcome)")
