"""C12: the trigger reports exactly the events defined by threshold and window rules."""
from fractions import Fraction
import numpy as np
from obspy import UTCDateTime
from qv import harness, synth, trigref

_lut = {}


def lut_for(units):
    if units not in _lut:
        rng = np.random.default_rng(0)
        f = 1.0 if units == "km" else 1000.0
        spec = synth.grid_spec((5, 5, 5), np.array([1.0, 1.0, 1.0]) * f, zmin=-1.0 * f, units=units)
        _lut[units] = synth.make_lut(spec, synth.stations_df(rng, spec, 2, units=units), 5 * f, 3 * f)
    return _lut[units]


def stream(rng, n, sr, kind):
    """A coalescence series with the features that matter to the rules."""
    x = 1.0 + 0.03 * np.abs(rng.normal(0, 1, n))
    t = np.arange(n) / sr
    if kind == "spikes":
        for _ in range(int(rng.integers(3, 40))):
            x[int(rng.integers(0, n))] += rng.uniform(0.2, 3)
    elif kind == "steps":        # few distinct values: ties and exact threshold hits
        lv = np.array([1.0, 1.2, 1.5, 1.5, 1.75, 2.0, 3.0])
        k = max(1, int(rng.integers(1, max(2, sr))))
        x = np.repeat(lv[rng.integers(0, len(lv), n // k + 1)], k)[:n]
    elif kind == "long":         # above threshold for long, with several summits
        for _ in range(int(rng.integers(1, 5))):
            a = int(rng.integers(0, n)); b = min(n, a + int(rng.uniform(0.5, 15) * sr))
            x[a:b] += 1.0 + 0.3 * rng.random(b - a)
    elif kind == "edge":         # above threshold at both ends of the data
        x[:int(rng.integers(1, 3 * sr))] += 1.5
        x[-int(rng.integers(1, 3 * sr)):] += 1.5
        x[n // 2] += 2
    if kind in ("bursts", "mix", "long"):
        for _ in range(int(rng.integers(1, 25))):
            c = rng.uniform(0, t[-1])
            w = rng.uniform(0.5 / sr, 3)
            x += rng.uniform(0.2, 4) * np.exp(-0.5 * ((t - c) / w) ** 2) * (1 + 0.05 * rng.normal(0, 1, n))
    if kind == "pairs":          # pairs at about the distances where the rules switch
        return None
    return x


def rules(case, rng, obs):
    d = harness.case_dir()
    sr = case["sr"]
    units = str(rng.choice(["km", "m"]))
    ucf = 1000.0 if units == "km" else 1.0
    lut = lut_for(units)
    dt = Fraction(1) / Fraction(str(sr))
    exact_ns = (10 ** 9 * dt).denominator == 1
    mw = float(rng.choice([0.5, 1.0, 2.0, 0.3, 0.75, 1.37, 0.05]))
    interval = round(2 * mw + float(rng.choice([0.0, 0.0, 0.5, 1.0, 3.0, 0.123])), 6)
    if not exact_ns:             # stay away from ties, which nanosecond rounding would decide
        mw, interval = mw + 0.00037, interval + 0.0010
        mw, interval = round(mw, 6), round(interval, 6)
    n = int(rng.integers(30, 200)) * max(1, int(sr)) if sr <= 50 else int(rng.integers(20, 60)) * sr
    kind = case["kind"]
    x = stream(rng, n, sr, kind)
    if x is None:
        x = 1.0 + 0.01 * rng.random(n)
        i = int(3 * sr)
        while True:
            i += int(max(1, (interval + mw * rng.choice([0, 1, 2]) + float(rng.integers(-2, 3)) / sr + rng.choice([0, 0, 1.0])) * sr))
            if i >= n - 2 * sr:
                break
            w = int(rng.choice([0, 0, 1, max(0, int(mw * sr) - 1), int(mw * sr), int(mw * sr) + 1]))
            a, b = max(0, i - int(rng.integers(0, w + 1))), min(n, i + 1 + int(rng.integers(0, w + 1)))
            x[a:b] += 1.0
            x[i] += rng.uniform(0.1, 1)
    # the normalised series ranks peaks differently
    y = 1.0 + (x - 1.0) * rng.uniform(0.3, 1.0, n) * rng.choice([0.5, 1.0]) + 0.01 * rng.random(n)
    if kind == "steps":
        y = np.roll(x, int(rng.integers(0, 5)))
    ll, ur = np.array(lut.ll_corner), np.array(lut.ur_corner)
    lon = -17 + rng.uniform(-1, 1, n); lat = 64.5 + rng.uniform(-1, 1, n)
    z = rng.uniform(-1, 15, n) * 1000.0 / ucf
    base = UTCDateTime("2021-02-03T04:05:06") + int(rng.integers(0, 1000))
    base = UTCDateTime(ns=base.ns + (int(rng.integers(0, 100)) * int(10 ** 9 * dt) if exact_ns else 0))
    scan = trigref.Scan(base, sr, x, y, lon, lat, z, ucf)
    scan.write(d / "run")
    norm = bool(rng.random() < 0.4)
    kw = dict(marginal_window=mw, min_event_interval=interval, normalise_coalescence=norm, write_event_time_windows=True)
    method = str(rng.choice(["static", "static", "mad", "median_ratio"]))
    if kind in ("steps", "pairs"):
        method = "static"
    trig = scan.val["COA_N" if norm else "COA"]
    if method == "static":
        st = float(rng.choice([1.5, 1.2, 2.0, 1.1])) if rng.random() < 0.7 else float(trig[int(rng.integers(0, n))])
        if rng.random() < 0.05:
            st = float(trig.max()) if rng.random() < 0.5 else 50.0
        kw.update(threshold_method="static", static_threshold=st)
    else:
        w = float(rng.choice([5, 10, 30, 3600]))
        m = float(rng.choice([3.0, 5.0, 8.0])) if method == "mad" else float(rng.choice([1.05, 1.2, 1.5]))
        kw.update({"threshold_method": method, ("mad" if method == "mad" else "median") + "_window_length": w,
                   ("mad" if method == "mad" else "median") + "_multiplier": m})
    # period: inside the stored data, with a pad that may or may not reach past it
    pad = float(rng.choice([0, 5, 20, 120])) if exact_ns else 120.0
    i0, i1 = 0, n - 1
    if rng.random() < 0.5:
        i0 = int(rng.integers(0, n // 4)); i1 = n - 1 - int(rng.integers(0, n // 4))
    s, e = scan.time(i0), scan.time(i1)
    kw["pad"] = pad
    tr = synth.make_trigger(lut, d, **kw)
    with synth.quiet():
        tr.trigger(s, e)
    # reference on the samples read: the period with its pads, as far as they are stored
    p = int(Fraction(str(pad)) / dt)
    a, b = max(0, i0 - p), min(n, i1 + p + 1)
    v = trig[a:b]
    coa = scan.val["COA"][a:b]
    if method == "static":
        thr = trigref.threshold(v, sr, "static", static=kw["static_threshold"])
    else:
        thr = trigref.threshold(v, sr, method, window=w, mult=m)
        if (np.abs(v - thr) < 1e-12).any():
            obs.count("ambiguous_skipped")
            return
    cands = trigref.candidates(coa, v, thr, dt, mw, interval)
    evs = trigref.events(cands, dt, mw)
    want = [ev for ev in evs if i0 <= a + ev["peak"] <= i1]
    files = trigref.read_files(d / "run")
    info = dict(sr=sr, kind=kind, params=kw, start=str(s), end=str(e))
    if not obs.check(len(files) == 1, "one_file", f"{sorted(files)}", **info):
        return
    df = next(iter(files.values()))
    got = [UTCDateTime(t) for t in df["CoaTime"]]
    obs.check(all(x2 > x1 for x1, x2 in zip(got, got[1:])), "order", "events not in increasing time order", **info)
    gi = [int(round(float(scan.index(t)))) for t in got]
    wi = [a + ev["peak"] for ev in want]
    if not obs.check(gi == wi, "event_set", lambda: f"samples of the reported events {gi[:12]} (of {len(gi)}); by the rules "
                     f"{wi[:12]} (of {len(wi)}); only reported {sorted(set(gi) - set(wi))[:5]}, missing {sorted(set(wi) - set(gi))[:5]}", **info):
        return
    for t, i in zip(got, gi):
        obs.check(abs(t - scan.time(i)) < 2e-6, "event_time", f"{t} is not the sample time {scan.time(i)}", **info)
    obs.close("TRIG_COA", df["TRIG_COA"], [trig[i] for i in gi], rtol=1e-12, msg="TRIG_COA", **info)
    for c, k in (("COA_X", "X"), ("COA_Y", "Y"), ("COA_Z", "Z"), ("COA", "COA"), ("COA_NORM", "COA_N")):
        obs.close("values/" + c, df[c], scan.val[k][gi] if gi else [], rtol=1e-12, msg=c, **info)
    for col, k in (("MinTime", "lo"), ("MaxTime", "hi")):
        if obs.check(col in df, "windows", f"{col} not written although requested", **info):
            for t, ev in zip(df[col], want):
                w_ns = scan.t0.ns + int((a + ev[k]) * dt * 10 ** 9)
                obs.check(abs(UTCDateTime(t).ns - w_ns) < 3000, "windows", f"{col} {t} for the event at {scan.time(a + ev['peak'])}: "
                          f"expected {UTCDateTime(ns=w_ns)}", **info)
    # stated consequences, judged directly
    for t, i in zip(got, gi):
        obs.check(trig[i] >= thr[i - a], "above_threshold", f"event at {t} is below the threshold", **info)
    for t1, t2 in zip(got, got[1:]):
        obs.check(t2 - t1 > mw, "separation", f"{t1} and {t2} closer than the marginal window", **info)
    obs.count("events", len(gi))
    obs.count("candidates", len(cands))
    obs.count("merges", sum(ev["merged"] > 1 for ev in evs))
    obs.count("long_runs", sum(c["last"] - c["first"] > mw * sr for c in cands))
    obs.count("outside_period", len(evs) - len(want))
    obs.count("no_event_runs", not gi)
    obs.key(sr, kind, method, norm, mw, interval, len(gi), len(cands))
    obs.sample = dict(info, events=len(gi), candidates=len(cands))


def invalid(case, rng, obs):
    """Parameters the trigger documents as unacceptable."""
    import quakemigrate.util as util
    d = harness.case_dir()
    lut = lut_for("km")
    for mw, iv in [(2.0, 3.9), (1.0, 1.0), (0.5, 0.999), (3.0, 0.0)]:
        try:
            synth.make_trigger(lut, d, marginal_window=mw, min_event_interval=iv)
            obs.violate("interval_accepted", f"minimum event interval {iv} < 2 x marginal window {mw} accepted")
        except ValueError:
            obs.count("refused")
    tr = synth.make_trigger(lut, d, marginal_window=2.0, min_event_interval=4.0)
    try:
        tr.min_event_interval = 3.0
        obs.violate("interval_accepted", "setter accepted a too small interval")
    except ValueError:
        obs.count("refused")
    obs.check(tr.min_event_interval == 4.0, "interval_kept", str(tr.min_event_interval))
    for bad in ("Static", "", "MAD", "median", None):
        try:
            synth.make_trigger(lut, d, threshold_method=bad)
            obs.violate("method_accepted", f"threshold method {bad!r} accepted")
        except util.InvalidTriggerThresholdMethodException:
            obs.count("refused")
    try:
        with synth.quiet():
            tr.trigger("2021-01-02", "2021-01-01")
        obs.violate("timespan", "an end before the start was accepted")
    except util.TimeSpanException:
        obs.count("refused")


def main(chk):
    kinds = ["spikes", "bursts", "pairs", "long", "steps", "edge", "mix", "pairs"]
    rates = [50, 20, 100, 10, 25, 5, 30, 64, 1, 60, 40, 128]
    chk.run(rules, [dict(id=f"t{i}", sr=rates[(i * 5 + i // 8) % len(rates)], kind=kinds[i % len(kinds)]) for i in range(chk.pick(320, 6000))])
    chk.run(invalid, [dict(id="inv")])
    chk.require(events=800, candidates=2000, merges=150, long_runs=100, outside_period=30, no_event_runs=3, refused=10)
    chk.rule = ("coalescence streams (isolated spikes, bursts, long runs, stepped values with ties, pairs spaced around the rule "
                "boundaries) under generated thresholds and windows; a key is a distinct (rate, stream kind, method, options, event and candidate count)")
