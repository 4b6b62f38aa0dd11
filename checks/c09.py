"""C09: a continuous scan covers the requested period exactly once, gaps included."""
import math
from fractions import Fraction
import numpy as np
import pandas as pd
from obspy import Stream, Trace, UTCDateTime
from qv import harness, onsetref, pipe, refs, synth


def steps_of(s, e, step):
    """Number of steps needed to reach the end (times are known to a nanosecond)."""
    r = Fraction(e.ns - s.ns, 10 ** 9) / Fraction(step)
    return round(r) if abs(r - round(r)) * Fraction(step) < Fraction(1, 10 ** 6) else math.ceil(r)


def exact(case, rng, obs):
    """Onset functions known at every instant; any start, end, step and rate; data missing for whole steps."""
    d = harness.case_dir()
    sr = case["sr"]
    n = int(rng.integers(2, 5))
    names = synth.station_names(n)
    spec = synth.grid_spec(tuple(int(v) for v in rng.integers(5, 7, 3)), rng.choice([0.5, 1.0], 3))
    lut = synth.make_lut(spec, synth.stations_df(rng, spec, n, names=names))
    phases = ["P", "S"]
    tt = {(s, p): np.rint(np.array(lut.traveltimes[s][p], dtype=float) * sr).astype(int) for s in names for p in phases}
    mtt = max(t.max() for t in tt.values())
    # a start on a sampling instant, near a day (or year) boundary in half of the cases
    base = UTCDateTime(str(rng.choice(["2020-12-31T23:59:00", "2021-03-01T00:00:00", "2021-05-05T11:00:00", "2019-02-28T23:59:30"])))
    step = float(rng.choice([int(rng.integers(5, 40)), int(rng.integers(10, 60)) / (2 if sr % 2 == 0 else 1), int(rng.integers(3 * sr, 12 * sr)) / sr]))
    nst = int(rng.integers(2, 9))
    s = base + int(rng.integers(-40, 40)) if rng.random() < 0.6 else base + int(rng.integers(0, 60 * sr)) / sr
    if case.get("midnight"):
        s = UTCDateTime(2020, 12, 31) + 86400 - nst * step
        e = UTCDateTime(2021, 1, 1)
    else:
        e = s + nst * step if rng.random() < 0.5 else s + (nst - 1) * step + float(rng.uniform(0.05, 0.95)) * step
    if rng.random() < 0.5 and not case.get("midnight"):
        e = e - 1 / sr
    want_n = steps_of(s, e, step)
    t_ref = s - 60 - 200
    dur = (e - s) + step + 520
    onset = pipe.TagOnset(rng, names, t_ref, int(dur * sr) + 50, sr, phases, pre=float(rng.choice([0.0, 0.37, 1.0, 2.5])))

    dead = set(int(i) for i in np.flatnonzero(rng.random(want_n + 3) < 0.2))

    def avail(start, keys):
        i = (start - s) / step
        r = np.random.default_rng([int(round(i * 100)) + 10 ** 6, case["sr"]])
        av = {k: int(r.random() < 0.7) for k in keys}
        if not sum(av.values()):
            av[keys[0]] = 1
        if sum(1 for j in dead if abs(i - j) * step < 0.5 * step and i < j) and r.random() < 0.8:
            av = {k: 0 for k in keys}
        return av
    onset.availability_fn = avail
    # waveforms only mark where data exist: a hole of several steps in every station, or none
    t0 = s - 100
    x = np.round(rng.normal(0, 100, int(((e - s) + step + 200) * sr))).astype(np.int32)
    pieces = [(0, len(x))]
    if rng.random() < 0.6:
        h0 = int(rng.integers(0, len(x)))
        h1 = min(len(x), h0 + int(rng.uniform(1, 5) * step * sr) + int(120 * sr * rng.random()))
        pieces = [(0, h0), (h1, len(x))]
    st = Stream()
    for a, b in pieces:
        if b - a > 1:
            st += Trace(x[a:b], dict(network="XX", station=names[0], channel="HHZ", sampling_rate=sr, starttime=t0 + a / sr))
    synth.write_archive(d / "arch", st)
    (d / "arch").mkdir(exist_ok=True)
    arch = synth.make_archive(d / "arch", pd.DataFrame({"Name": names}))
    scan = synth.make_scan(arch, lut, onset, d, timestep=step, continuous_scanmseed_write=bool(rng.random() < 0.4))
    with synth.quiet():
        scan.detect(str(s) if rng.random() < 0.5 else s, str(e) if rng.random() < 0.5 else e)
    got, dup, mis, files = pipe.collect(d / "run", s, sr)
    info = dict(start=str(s), end=str(e), step=step, sr=sr)
    ns = int(round(step * sr))
    total = want_n * ns
    obs.check(dup == 0, "duplicate", f"{dup} samples stored twice", **info)
    obs.check(mis < 1.1e-4, "timing", f"stored samples {mis} s off their instants", **info)
    for ch in got:
        ks = got[ch].keys()
        obs.check(len(ks) == total and min(ks) == 0 and max(ks) == total - 1, "coverage",
                  lambda: f"{ch}: {len(ks)} samples stored ({min(ks, default=None)}..{max(ks, default=None)}), {total} expected", **info)
    obs.check(files == {f"{t.year}_{t.julday:03d}.scanmseed" for t in
                        [UTCDateTime(ns=s.ns + int(round(i / sr * 1e9))) + 1e-4 for i in range(0, total, max(1, ns // 4))] +
                        [s + (total - 1) / sr + 1e-4]}, "files", f"{sorted(files)}", **info)
    # values
    calls = {}
    for c in onset.calls:
        calls[int(round((c["start"] + scan.pre_pad - s) / step))] = c
    have = np.zeros(len(x), bool)
    for a, b in pieces:
        have[a:b] = True
    avf = pipe.read_availability_files(d / "run")
    times = [UTCDateTime(t) for t in avf.index]
    order = np.argsort([t.ns for t in times])
    obs.check(len(avf) == want_n and all(abs(times[order[i]] - (s + i * step)) < 1e-5 for i in range(min(want_n, len(avf)))),
              "availability_rows", lambda: f"rows {[str(t) for t in times]}; {want_n} steps from {s} by {step}", **info)
    cols = {f"{a}_{b}" for a in names for b in phases}
    obs.check(set(avf.columns) == cols, "availability_columns", str(list(avf.columns)))
    empty = 0
    for i in range(want_n):
        b = s + i * step
        c = calls.get(i)
        i0, i1 = int(round((b - t0) * sr)), int(round((b + step - t0) * sr))
        inside = have[max(0, i0):min(len(x), i1)].any() if len(have) else False
        pads = int((scan.pre_pad + scan.post_pad + 2) * sr)
        around = have[max(0, i0 - pads):min(len(x), i1 + pads)].any()
        row = {k: str(v) for k, v in avf.iloc[order[i]].items()} if i < len(avf) else {}
        g = {ch: np.array([got[ch].get(i * ns + j, np.nan) for j in range(ns)]) for ch in got}
        dead_here = c is None and inside and sum(avail(b - scan.pre_pad, list(tt)).values()) == 0
        if c is None:
            empty += 1
            obs.check(not inside or dead_here, "step_skipped", f"step {i} has data but was not computed", **info)
            for ch in g:
                obs.close("empty_step", g[ch], np.zeros(ns), msg=f"{ch} step {i}", **info)
            obs.check(set(row.values()) <= {"0"}, "empty_row", f"{row}", **info)
            obs.count("steps_empty")
            continue
        obs.check(around, "step_invented", f"step {i} has no data within its padding", **info)
        keys = [k for k, v in c["av"].items() if v]
        obs.check(row == {f"{a}_{p}": str(v) for (a, p), v in c["av"].items()}, "availability_row", f"{row} vs {c['av']}", **info)
        o = int(round((b - t_ref) * sr))
        w = np.stack([onset.table[k][o:o + ns + mtt + 1] for k in keys])
        want = refs.ref_migrate(w, np.stack([tt[k] for k in keys], -1), 0, mtt + 1, len(keys))
        mx, mxn, arg = refs.ref_peak(want)
        obs.close("value/COA", g["COA"], np.round(mx * 1e5) / 1e5, rtol=2e-6, atol=1.1e-5, msg=f"step {i}", **info)
        obs.close("value/COA_N", g["COA_N"], np.round(mxn * 1e5) / 1e5, rtol=2e-6, atol=1.1e-5, msg=f"step {i}", **info)
        obs.count("steps_computed")
    obs.count("samples_judged", total)
    obs.key(sr, step, want_n, len(files), empty, len(pieces), case.get("midnight", False))
    obs.sample = dict(info, steps=want_n, empty=empty, files=sorted(files))


def real(case, rng, obs):
    """STA/LTA scans over gappy archives against the coalescence of the whole uncut record."""
    d = harness.case_dir()
    sr = case["sr"]
    n = 4
    names = synth.station_names(n)
    spec = synth.grid_spec((6, 6, 5), [1.0, 1.0, 1.0])
    sta = synth.stations_df(rng, spec, n, names=names)
    lut = synth.make_lut(spec, sta.copy())
    dur = 400.0
    day = UTCDateTime(2021, 9, 10)
    t0 = day - 200 if rng.random() < 0.4 else day + 7000 + int(rng.integers(0, 50)) / sr
    st = synth.make_waveforms(rng, names, t0, dur, sr, channels="ZNE", f0=4.0,
                              events=[dict(otime=t0 + float(rng.uniform(120, 260)),
                                           P={s: float(rng.uniform(0.2, 1.5)) for s in names},
                                           S={s: float(rng.uniform(0.4, 2.5)) for s in names})])
    out, holes = Stream(), {s: [] for s in names}
    for s in names:
        if rng.random() < 0.5:
            h0 = t0 + float(rng.uniform(40, 340))
            h1 = h0 + float(rng.uniform(1, 60))
            holes[s].append((h0, h1))
    allgap = []
    if rng.random() < 0.5:
        h0 = t0 + float(rng.uniform(100, 200))
        allgap = [(h0, h0 + float(rng.uniform(60, 140)))]
        for s in names:
            holes[s] += allgap
    for tr in st:
        pieces = [tr]
        for h0, h1 in holes[tr.stats.station]:
            nxt = []
            for p in pieces:
                for q in (p.slice(endtime=h0), p.slice(starttime=h1)):
                    if q.stats.npts > 1:
                        nxt.append(q)
            pieces = nxt
        out += Stream(pieces)
    synth.write_archive(d / "arch", out)
    bp = (2.0, 0.4 * sr, 2)
    P, S = (0.2, 1.0), (0.2, 1.0)
    position = str(rng.choice(["classic", "centred"]))
    onset = synth.make_onset(sr, position, P=P, S=S, bp=bp)
    arch = synth.make_archive(d / "arch", sta)
    step = float(rng.choice([20, 30, 12.5 if sr % 2 == 0 else 12.0]))
    scan = synth.make_scan(arch, lut, onset, d, timestep=step)
    s = t0 + int(rng.integers(60, 90))
    nst = int(200 / step)
    with synth.quiet():
        scan.detect(s, s + nst * step)
    got, dup, mis, files = pipe.collect(d / "run", s, sr)
    ns = int(round(step * sr))
    obs.check(dup == 0 and mis < 1.1e-4, "real/timing", f"{dup} {mis}")
    obs.check(sorted(got["COA"]) == list(range(nst * ns)), "real/coverage", f"{len(got['COA'])} of {nst * ns}")
    # reference onsets on the whole record
    cfg = dict(phases=["P", "S"], channel_maps={"P": "*Z", "S": "*[N,E,1,2]"}, channel_counts={"P": 1, "S": 2},
               bandpass_filters={"P": bp, "S": bp}, sta_lta_windows={"P": P, "S": S}, position=position,
               signal_transform=onset.signal_transform, min_onset_value=onset.min_onset_value, all_channels=False,
               allow_gaps=False, full_timespan=True)
    end = st[0].stats.endtime
    _, ref, _, _ = onsetref.ref_onsets(list(st), names, cfg, t0, end, sr)
    tt = synth.ref_traveltimes(lut, stations=sta)
    avf = pipe.read_availability_files(d / "run")
    times = [UTCDateTime(t) for t in avf.index]
    order = np.argsort([t.ns for t in times])
    if not obs.check(len(avf) == nst, "real/rows", f"{len(avf)} rows for {nst} steps"):
        return
    mtt = max(t[p].max() for t in tt.values() for p in "PS")
    for i in range(nst):
        b = s + i * step
        row = {k: int(v) for k, v in avf.iloc[order[i]].items()}
        span = step + mtt + 6
        for nm in names:
            inner = (b - P[1], b + step + mtt)
            outer = (b - P[1] - 3 - 0.12 * span - 3, b + step + mtt + 5 + 0.12 * span + 3)
            hit_in = any(h0 + 1 / sr < inner[1] and h1 - 1 / sr > inner[0] for h0, h1 in holes[nm])
            hit_out = any(h0 < outer[1] and h1 > outer[0] for h0, h1 in holes[nm])
            for ph in "PS":
                a = row[f"{nm}_{ph}"]
                if hit_in:
                    obs.check(a == 0, "real/availability", f"{nm}_{ph} used in step {i} with a gap in its data")
                if not hit_out:
                    obs.check(a == 1, "real/availability", f"{nm}_{ph} not used in step {i} although complete")
                obs.count("availability_judged")
        keys = [(nm, ph) for nm in names for ph in "PS" if row[f"{nm}_{ph}"]]
        g = np.array([got["COA"][i * ns + j] for j in range(ns)])
        gn = np.array([got["COA_N"][i * ns + j] for j in range(ns)])
        if not keys:
            obs.check(not g.any() and not gn.any(), "real/empty", f"step {i}")
            obs.count("real_steps_empty")
            continue
        T = np.stack([np.rint(tt[a][p] * sr).astype(int) for a, p in keys], -1)
        o = int(round((b - t0) * sr))
        m = int(T.max()) + 1
        w = np.stack([ref[k][o:o + ns + m] for k in keys])
        mx, mxn, _ = refs.ref_peak(refs.ref_migrate(w, T, 0, m, len(keys)))
        dev = np.abs(g / mx - 1).max()
        obs.track("relative deviation from the whole-record coalescence", dev)
        obs.check(dev < 2e-3, "real/value", lambda: f"step {i}: coalescence deviates by {dev:.3g} from that of the whole record, used {keys}")
        obs.check(np.abs(gn / mxn - 1).max() < 2e-3, "real/norm", f"step {i}")
        obs.count("real_steps")
        obs.key("real", sr, step, position, tuple(row.values()))


def refusal(case, rng, obs):
    import quakemigrate.util as util
    d = harness.case_dir()
    spec = synth.grid_spec((5, 5, 5))
    sta = synth.stations_df(rng, spec, 2)
    lut = synth.make_lut(spec, sta.copy())
    scan = synth.make_scan(synth.make_archive(d / "arch", sta), lut, synth.make_onset(20), d)
    try:
        with synth.quiet():
            scan.detect("2021-01-02T00:00:00", "2021-01-01T00:00:00")
        obs.violate("timespan", "an end before the start was accepted")
    except util.TimeSpanException:
        obs.count("refusals")
    # no archive at all: everything empty, but the period is still covered
    (d / "arch").mkdir(exist_ok=True)
    scan = synth.make_scan(synth.make_archive(d / "arch", sta), lut, synth.make_onset(20), d, timestep=10)
    with synth.quiet():
        scan.detect("2021-01-01T00:00:00", "2021-01-01T00:01:00")
    got, dup, mis, files = pipe.collect(d / "run", "2021-01-01", 20)
    obs.check(sorted(got["COA"]) == list(range(1200)) and not any(got["COA"].values()), "empty_archive", str(len(got["COA"])))
    obs.count("empty_archives")


def main(chk):
    rates = [20, 25, 50, 10, 64, 30, 100, 40, 128, 60]
    chk.run(exact, [dict(id=f"e{i}", sr=rates[i % len(rates)], midnight=i % 7 == 3) for i in range(chk.pick(120, 1500))])
    chk.run(real, [dict(id=f"r{i}", sr=[20, 50, 25, 64][i % 4]) for i in range(chk.pick(24, 250))])
    chk.run(refusal, [dict(id="ref")])
    chk.require(steps_computed=200, steps_empty=60, samples_judged=50000, real_steps=80, real_steps_empty=5,
                availability_judged=500, refusals=1, empty_archives=1)
    chk.rule = ("scans over generated periods, steps, rates and data holes; a key is a distinct (rate, step, number of steps, "
                "files, empty steps, holes) or availability pattern")
