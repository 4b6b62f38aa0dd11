"""C28: data brought to the working rate keep their timing, amplitude and coverage."""
import numpy as np
from obspy import Stream, Trace, UTCDateTime
from qv import harness, synth

DAYS = ["2020-01-01T00:00:00", "2019-12-31T23:59:30", "2021-03-04T05:06:07", "2020-02-28T23:59:50", "2022-08-09T10:11:12.5"]


class Pulses:
    """A band-limited signal whose value is known at every instant."""

    def __init__(self, rng, t0, dur, fmax, n=None):
        self.t0 = t0
        k = int(n or rng.integers(3, 9))
        self.t = rng.uniform(0.0, dur, k)
        self.f = fmax * rng.uniform(0.3, 1.0, k)
        self.ph = rng.uniform(0, 2 * np.pi, k)
        self.a = rng.uniform(0.5, 1.0, k) * rng.choice([-1, 1], k)
        self.w = 3.0 / self.f                      # some cycles each: band well below fmax * 1.4

    def __call__(self, rel):
        rel = np.asarray(rel, dtype=float)
        out = np.zeros(rel.size)
        for t, f, ph, a, w in zip(self.t, self.f, self.ph, self.a, self.w):
            out += a * np.exp(-(((rel - t) / w) ** 2)) * np.cos(2 * np.pi * f * (rel - t) + ph)
        return out


def stamps(tr, t0):
    return (tr.stats.starttime.ns - t0.ns) / 1e9 + np.arange(tr.stats.npts) / tr.stats.sampling_rate


def trace(name, sig, start, npts, sr, gain, dtype, dc, ch="Z"):
    rel = (start.ns - sig.t0.ns) / 1e9 + np.arange(npts) / sr
    x = sig(rel) * gain + dc
    x = np.round(x).astype(np.int32) if dtype == "int" else x
    return Trace(x, header=dict(network="XX", station=name, channel=f"HH{ch}", sampling_rate=sr, starttime=start))


def same(a, b):
    return len(a) == len(b) and all(x.stats == y.stats and x.data.dtype == y.data.dtype and np.array_equal(x.data, y.data) for x, y in zip(a, b))


RATES = {   # working rate: (decimated from, upsampled by {factor: rates})
    50: ([50, 100, 200, 250, 500], {5: [40, 20, 60], 2: [25, 75, 125], 4: [62.5, 25], 3: [100 / 6 * 3, 100]}),
    100: ([100, 200, 300, 500, 1000], {5: [40, 80, 120], 2: [50, 150, 250], 4: [75, 125]}),
    40: ([40, 80, 120, 200], {2: [100, 60, 20], 4: [50, 30], 8: [25]}),
    20: ([20, 40, 100, 200], {2: [50, 30, 10], 4: [25, 15], 1: [40]}),
}


def resampling(case, rng, obs):
    from quakemigrate import util
    for rep in range(case["reps"]):
        sr = int(rng.choice(list(RATES)))
        dec, ups = RATES[sr]
        do_up = rng.random() < 0.6
        factor = int(rng.choice(list(ups))) if do_up else (None if rng.random() < 0.5 else int(rng.integers(2, 6)))
        t0 = UTCDateTime(str(rng.choice(DAYS)))
        dur = float(rng.integers(40, 90))
        # a window edge on a sampling instant of the working rate
        start = t0 + int(rng.integers(0, 3 * sr)) / sr
        start = UTCDateTime(ns=int(round((start.ns - t0.ns) / 1e9 * sr)) * int(1e9) // sr + t0.ns)
        nwin = int(rng.integers(25 * sr, int((dur - 8) * sr)))
        end = start + nwin / sr
        st, truth = Stream(), []
        for k in range(int(rng.integers(2, 6))):
            if do_up and rng.random() < 0.6:
                native = float(rng.choice(ups[factor]))
            elif rng.random() < 0.85:
                native = float(rng.choice(dec))
            else:
                native = float(rng.choice([31.0, 17.0, 10.0, 72.0])) if not do_up else float(rng.choice(dec))
            if not do_up and native == 10.0 and sr % 10 == 0:
                native = 7.0
            brought = native % sr == 0 or do_up
            # linear interpolation between samples and the anti-alias filter both pass this band
            fmax = 0.14 * min(sr, native if native % sr == 0 else 0.3 * native) if brought else 0.1 * native
            sig = Pulses(rng, start, nwin / sr, fmax)
            gain = 10.0 ** rng.uniform(3.5, 6.0)
            dtype = str(rng.choice(["int", "float"]))
            gain = gain if dtype == "int" else gain * 10.0 ** rng.uniform(-9, 0)
            dc = float(np.round(gain * rng.uniform(-3, 3))) if rng.random() < 0.3 else 0.0
            n0 = int(np.floor((start - t0) * native + 1e-6)) if rng.random() < 0.5 else int(np.ceil((start - t0) * native - 1e-6))
            n1 = int(np.ceil((end - t0) * native - 1e-6)) if rng.random() < 0.5 else int(np.floor((end - t0) * native + 1e-6))
            gap = rng.random() < 0.35
            if gap:
                a = n0 + int((n1 - n0) * rng.uniform(0.3, 0.5))
                b = a + int(rng.integers(2, max(3, int((n1 - n0) * 0.2))))
                segs = [(n0, a), (b, n1)]
            else:
                segs = [(n0, n1)]
            for a, b in segs:
                s0 = UTCDateTime(ns=t0.ns + int(round(a * 1e9 / native)))
                st += trace(f"S{k}", sig, s0, b - a + 1, native, gain, dtype, dc)
                truth.append(dict(name=f"S{k}", sig=sig, gain=gain, dc=dc, native=native, brought=brought, gap=gap, s0=s0, dtype=dtype,
                                  s1=s0 + (b - a) / native, first=a == n0, last=b == n1))
        keep = st.copy()
        where = dict(sr=sr, factor=factor, start=str(start))
        with obs.no_raise("resample", f"{sr} Hz from {[t.stats.sampling_rate for t in st]} with upfactor {factor}"):
            out = util.resample(st, sr, do_up, factor, start, end)
        obs.check(same(st, keep), "input_modified", "util.resample changed the traces it was given", **where)
        obs.count("streams")
        left = list(out)
        for q in truth:
            info = dict(where, **{k: q[k] for k in ("native", "gap", "dtype", "name", "dc")})
            mine = [t for t in left if t.stats.station == q["name"] and abs(t.stats.starttime - max(q["s0"], start)) <= 1.5 / min(sr, q["native"])]
            if not obs.check(len(mine) == 1, "trace_lost", f"{q['native']} Hz segment from {q['s0']}: {len(mine)} resampled traces", **info):
                continue
            tr = mine[0]
            left.remove(tr)
            obs.count("traces")
            obs.key("rate", sr, q["native"], factor if do_up else 0, q["gap"], q["dtype"])
            if not q["brought"]:
                obs.count("left_alone")
                src = [t for t in keep if t.stats.station == q["name"] and t.stats.starttime == q["s0"]][0].copy()
                src.trim(start - 1e-5, end + 1e-5, nearest_sample=False)
                obs.check(tr.stats.sampling_rate == q["native"] and np.array_equal(tr.data, src.data), "left_alone",
                          f"data at {q['native']} Hz cannot be brought to {sr} Hz but were changed (now {tr.stats.sampling_rate} Hz)", **info)
                continue
            obs.check(tr.stats.sampling_rate == sr, "rate", f"{tr.stats.sampling_rate} Hz instead of {sr}", **info)
            ph = (tr.stats.starttime.ns - start.ns) / 1e9 * sr
            obs.track("phase_samples", abs(ph - round(ph)))
            obs.check(abs(ph - round(ph)) < 0.02, "instants",
                      f"{q['native']} Hz segment starting {q['s0']} resampled onto instants {ph - round(ph):+.3f} samples from those of the window", **info)
            # coverage
            slack = max(1.0, sr / q["native"]) + 1e-3
            lo = 0.0 if q["first"] and not q["gap"] else max(0.0, (q["s0"].ns - start.ns) / 1e9 * sr)
            hi = float(nwin) if q["last"] and not q["gap"] else min(float(nwin), (q["s1"].ns - start.ns) / 1e9 * sr)
            i0, i1 = round(ph), round(ph) + tr.stats.npts - 1
            if not q["gap"] and (q["native"] % sr == 0 or do_up) and q["native"] != sr or not q["gap"] and q["native"] == sr:
                if q["s0"] <= start + 1e-6 or do_up and q["native"] % sr:
                    obs.count("full_start")
                    obs.check(i0 == 0, "coverage", f"data cover the window start, resampled data begin at sample {i0}", **info)
                if q["s1"] >= end - 1e-6 or do_up and q["native"] % sr:
                    obs.count("full_end")
                    obs.check(i1 == nwin, "coverage", f"data cover the window end, resampled data end at sample {i1} of {nwin}", **info)
            obs.check(i0 - lo < slack and hi - i1 < slack and i0 > lo - slack and i1 < hi + slack, "coverage", f"segment {lo:.2f}..{hi:.2f}, resampled {i0}..{i1} (working samples)", **info)
            # values, away from the tapered ends
            t = stamps(tr, q["sig"].t0)
            want = q["sig"](t) * q["gain"]
            n = tr.stats.npts
            m = np.zeros(n, bool)
            e = int(np.ceil(0.07 * n)) + 3
            m[e:n - e] = True
            if m.sum() < 50:
                continue
            got = np.asarray(tr.data, dtype=float)
            # a linear trend is taken off before decimation: it is not signal
            src = [s for s in keep if s.stats.station == q["name"] and s.stats.starttime == q["s0"]][0]
            rel = stamps(src, q["sig"].t0)
            if q["native"] != sr:
                c = np.polyfit(rel, src.data.astype(float), 1)
                want = want + q["dc"] - np.polyval(c, t)
            else:
                want = want + q["dc"]
            scale = q["gain"] * 1.0
            err = np.abs(got - want)[m].max() / scale
            obs.count("values", m.sum())
            obs.track("value_error" + ("_up" if q["native"] % sr else "_dec" if q["native"] != sr else "_same"), err)
            obs.check(err < (0.08 if q["native"] != sr else 1e-3), "value", f"resampled signal differs by {err:.3f} of its amplitude", **info)
        obs.check(not left, "extra_trace", f"{len(left)} traces that were not in the input", **where)


def upsampling(case, rng, obs):
    """util.upsample: straight lines between samples, constant beyond the ends, at the right instants."""
    from quakemigrate import util
    for rep in range(case["reps"]):
        native = float(rng.choice([10, 25, 40, 50, 62.5, 100]))
        f = int(rng.choice([2, 3, 4, 5, 8]))
        if (native * f) % 1:
            f = 4
        start = UTCDateTime(str(rng.choice(DAYS))) + int(rng.integers(0, 400)) / (native * f)
        end = start + int(rng.integers(20, 400)) / (native * f)
        n0 = rng.uniform(-1.5, 1.5) if rng.random() < 0.8 else rng.uniform(1.5, 5)
        n0 = np.round(n0 * f) / f                       # native samples after the window start
        first = UTCDateTime(ns=start.ns + int(round(n0 * 1e9 / native)))
        n = int(max(2, round((end - first) * native) + rng.integers(-1, 3)))
        if first > end:
            continue
        x = rng.normal(0, 1, n) * 10.0 ** rng.uniform(-9, 5)
        if rng.random() < 0.4:
            x = np.round(x * 1e5).astype(np.int32)
        tr = Trace(x.copy(), header=dict(station="S", sampling_rate=native, starttime=first))
        keep = tr.copy()
        with obs.no_raise("upsample", f"{native} x {f}"):
            out = util.upsample(tr, f, start, end)
        info = dict(native=native, factor=f, offset=n0, n=n, dtype=str(x.dtype))
        obs.count("upsampled")
        obs.check(same([tr], [keep]), "input_modified", "util.upsample changed its input", **info)
        obs.check(out.stats.sampling_rate == native * f, "upsample_rate", f"{out.stats.sampling_rate}", **info)
        t = stamps(out, start)
        src = stamps(keep, start)
        span = (end.ns - start.ns) / 1e9
        lo = 0.0 if src[0] < 1 / native - 1e-6 else src[0]
        hi = span if src[-1] > span - 1 / native + 1e-6 else src[-1]
        if not obs.check(len(t) and abs(t[0] - lo) < 1e-4 / native and abs(t[-1] - hi) < 1e-4 / native, "upsample_span",
                         lambda: f"upsampled data ({len(t)} samples) span {t[:1]}..{t[-1:]} s of the window, expected {lo:.4f}..{hi:.4f}", **info):
            continue
        want = np.interp(t, src, keep.data.astype(float))
        obs.count("padded_values", int(((t < src[0] - 1e-6) | (t > src[-1] + 1e-6)).sum()))
        scale = np.abs(keep.data).max() + 1e-300
        obs.close("upsample_value", out.data / scale, want / scale, rtol=0, atol=1e-4, msg=str(info))


def shifting(case, rng, obs):
    """util.shift_to_sample: data moved onto sampling instants by less than a sample."""
    from quakemigrate import util
    for rep in range(case["reps"]):
        st, truth = Stream(), []
        t0 = UTCDateTime(str(rng.choice(DAYS)).split(".")[0])
        for k in range(int(rng.integers(1, 5))):
            sr = float(rng.choice([10, 20, 25, 40, 50, 100, 125, 200, 250, 30, 60, 500]))
            n = int(rng.integers(60, 1500))
            mode = str(rng.choice(["on", "off", "off", "tiny", "edge", "half"]))
            i = int(rng.integers(0, 500))
            sub = dict(on=0.0, off=rng.uniform(0.01, 0.99), tiny=2e-6 * sr, edge=1 - 2e-6 * sr, half=0.5)[mode]
            start = UTCDateTime(ns=t0.ns + int(round(((i + sub) / sr) * 1e6)) * 1000)
            sig = Pulses(rng, t0, (i + n) / sr, 0.2 * sr, n=6)
            st += trace(f"S{k}", sig, start, n, sr, 1e5, str(rng.choice(["int", "float"])), 0.0)
            truth.append((sr, n, mode, sig, start))
        interp = bool(rng.random() < 0.5)
        keep = st.copy()
        with obs.no_raise("shift", f"{[str(t) for t in st]}"):
            out = util.shift_to_sample(st, interpolate=interp)
        obs.check(same(st, keep), "input_modified", "util.shift_to_sample changed its input")
        obs.check(len(out) == len(keep), "trace_lost", f"{len(keep)} traces became {len(out)}")
        for tr, old, (sr, n, mode, sig, start) in zip(out, keep, truth):
            info = dict(sr=sr, mode=mode, start=str(start), interp=interp)
            obs.count("shifted" if mode != "on" else "unshifted")
            obs.key("shift", sr, mode, interp)
            moved = (tr.stats.starttime.ns - start.ns) / 1e9 * sr
            obs.track("shift_samples", abs(moved))
            obs.check(abs(moved) <= 0.5 + 2e-6 * sr, "shift_size", f"moved by {moved:.3f} samples", **info)
            ph = (tr.stats.starttime.ns - t0.ns) / 1e9 * sr
            obs.check(abs(ph - round(ph)) < 2e-6 * sr, "shift_grid", f"{ph - round(ph):+.4f} samples off the sampling instants", **info)
            obs.check(tr.stats.npts == n and tr.stats.sampling_rate == sr and tr.id == old.id, "shift_header", f"{old} became {tr}", **info)
            if mode == "on" and 1e6 % sr == 0:
                obs.check(np.array_equal(tr.data, old.data), "shift_data", "on-sample data were changed", **info)
            elif not interp:
                obs.check(np.array_equal(tr.data, old.data), "shift_data", "the samples were changed", **info)
            elif n > 120:
                want = sig(stamps(tr, t0)) * 1e5
                m = slice(30, n - 30)
                err = np.abs(tr.data - want)[m].max() / 1e5
                obs.track("interpolation_error", err)
                obs.count("interpolated")
                obs.check(err < 0.02, "interpolated_value", f"interpolated signal differs by {err:.4f} of its amplitude", **info)


def ends(case, rng, obs):
    """Interpolated onto sampling instants, a trace does not leave its level at either end."""
    from quakemigrate import util
    for rep in range(case["reps"]):
        n, sr = int(rng.integers(60, 900)), int(rng.choice([20, 50, 100, 250]))
        level = float(rng.choice([-1e6, 1e6]))
        x = level + 1e5 * np.cumsum(rng.normal(0, 1, n)) / np.sqrt(n)
        t = UTCDateTime("2021-02-03T04:05:06") + float(rng.uniform(0.05, 0.95)) / sr
        tr = Trace(x, header=dict(network="XX", station="A", channel="HHZ", sampling_rate=sr, starttime=t))
        out = util.shift_to_sample(Stream([tr]), interpolate=True)[0]
        e = np.abs(out.data[[0, 1, -2, -1]] - x[[0, 1, -2, -1]]) / abs(level)
        obs.track("end_error", e.max())
        obs.check(e.max() < 0.5, "interpolated_end", lambda: f"the ends of a trace at level {level:g} became {out.data[[0, 1, -2, -1]]}", sr=sr, n=n)
        obs.count("interpolated_ends")


def fragments(case, rng, obs):
    """Scraps of a few samples between gaps: nothing is lost elsewhere and nothing raises."""
    from quakemigrate import util
    for rep in range(case["reps"]):
        sr = int(rng.choice(list(RATES)))
        dec, ups = RATES[sr]
        f = int(rng.choice(list(ups)))
        start = UTCDateTime("2020-01-01T00:00:00")
        end = start + 20
        st = Stream()
        for k in range(3):
            native = float(rng.choice(dec + ups[f]))
            i = int(rng.integers(1, 50))
            while i < 20 * native - 12:
                n = int(rng.integers(1, 12))
                x = rng.normal(0, 100, n)
                st += Trace(np.round(x).astype(np.int32) if rng.random() < 0.5 else x, header=dict(station=f"F{k}", sampling_rate=native, starttime=UTCDateTime(ns=start.ns + int(round(i * 1e9 / native)))))
                i += n + int(rng.integers(1, 300))
        whole = trace("W", Pulses(rng, start, 20, 0.1 * sr), start, 40 * sr + 1, 2.0 * sr, 1e5, "float", 0.0)
        out0 = util.resample(Stream([whole]), sr, True, f, start, end)
        with obs.no_raise("fragments", f"{[str(t) for t in st][:6]}"):
            out = util.resample(util.shift_to_sample(st + Stream([whole]), interpolate=bool(rng.random() < 0.5)), sr, True, f, start, end)
        got = out.select(station="W")
        obs.check(len(got) == 1 and np.array_equal(got[0].data, out0[0].data), "neighbour", "scraps at other stations changed a station's data")
        for t in out:
            ph = (t.stats.starttime.ns - start.ns) / 1e9 * sr
            obs.count("fragments")
            obs.check(t.stats.npts > 0 and abs(ph - round(ph)) < 0.02 and np.isfinite(t.data).all() and t.stats.sampling_rate == sr, "fragment", f"{t} off the sampling instants, empty or not finite")


def aliasing(case, rng, obs):
    """What lies above the new Nyquist frequency does not come back below it; the band below passes."""
    from quakemigrate import util
    for rep in range(case["reps"]):
        sr = int(rng.choice([20, 40, 50, 100]))
        native = sr * int(rng.choice([4, 5, 8, 10]))
        t0 = UTCDateTime("2020-01-01T00:00:00")
        n = 40 * native + 1
        t = np.arange(n) / native
        hi = rng.uniform(2.6, min(4.0, native / sr)) * sr / 2
        lo = rng.uniform(0.05, 0.25) * sr / 2
        for f, name in ((hi, "stop"), (lo, "pass")):
            tr = Trace(np.sin(2 * np.pi * f * t + rng.uniform(0, 6)), header=dict(sampling_rate=native, starttime=t0))
            out = util.resample(Stream([tr]), sr, False, None, t0, t0 + 40)[0]
            amp = np.sqrt(2 * np.mean(out.data[8 * sr:-8 * sr] ** 2))
            obs.count(f"tones_{name}")
            if name == "stop":
                obs.track("alias_amplitude", amp)
                obs.check(amp < 0.06, "alias", f"{f:.1f} Hz at {native} Hz appears with amplitude {amp:.3f} after resampling to {sr} Hz")
            else:
                obs.track("pass_loss", abs(amp - 1))
                obs.check(abs(amp - 1) < 0.02, "passband", f"{f:.2f} Hz at {native} Hz has amplitude {amp:.3f} after resampling to {sr} Hz")


def samples(case, rng, obs):
    """Seconds and samples convert without losing or gaining one."""
    from quakemigrate import util
    for rep in range(case["reps"]):
        sr = int(rng.choice([1, 10, 20, 25, 40, 50, 60, 100, 125, 200, 250, 500, 1000]))
        n = int(rng.integers(0, 10 ** int(rng.integers(1, 7))))
        t = n / sr
        obs.check(util.time2sample(t, sr) == n, "time2sample", lambda: f"{t} s at {sr} Hz is {util.time2sample(t, sr)} samples, not {n}")
        obs.check(util.time2sample(t + rng.uniform(-0.49, 0.49) / sr, sr) == n, "time2sample", f"not the nearest sample of {t} at {sr}")
        obs.check(abs(util.trim2sample(t, sr) - t) < 1e-6 / sr, "trim2sample", lambda: f"{t} s is a whole number of samples at {sr} Hz but became {util.trim2sample(t, sr)}")
        x = t + rng.uniform(0.001, 1.0) / sr
        y = util.trim2sample(x, sr)
        obs.check(y >= x - 1e-5 / sr and y < x + 1 / sr and abs(y * sr - round(y * sr)) < 1e-5, "trim2sample", f"{x} s at {sr} Hz became {y}")
        obs.count("conversions")


def reading(case, rng, obs):
    """Archive to onset: the same impulse at every station gives onsets at the same time, whatever was recorded how."""
    sr = int(rng.choice([50, 100, 40]))
    d = harness.case_dir()
    dec, ups = RATES[sr]
    f = int(rng.choice(list(ups)))
    interp = bool(rng.random() < 0.5)
    gaps = bool(rng.random() < 0.5)
    t0 = UTCDateTime(str(rng.choice(DAYS)).split(".")[0])
    dur = 90.0
    names = [f"ST{c}" for c in "ABCDEF"]
    st = Stream()
    tp = t0 + 40 + rng.uniform(0, 8)
    rates = {}
    for k, nm in enumerate(names):
        native = float(rng.choice(dec if rng.random() < 0.5 else ups[f])) if k else float(sr)
        if k == 5:
            native = 31.0 if (31 * f) % sr else 33.0
        off = 0.0 if rng.random() < 0.4 else rng.uniform(0, 1)
        rates[nm] = (native, round(off, 3))
        for ch in "ZNE":
            s = t0 + off / native
            x = synth.make_waveforms(rng, [nm], s, dur, native, [dict(otime=tp, P={nm: 0.0}, amp=200.0)], channels=ch, cross=(1.0, 1.0), f0=2.5)
            if gaps and k in (1, 2) and ch == "Z":
                a = t0 + 20 + rng.uniform(0, 3)
                b = a + rng.uniform(1, 5)
                x = Stream([x[0].slice(endtime=a), x[0].slice(starttime=b)])
            st += x
    synth.write_archive(d / "archive", st, "YEAR/JD/STATION")
    import pandas as pd
    df = pd.DataFrame(dict(Name=names, Latitude=0.1 * np.arange(6), Longitude=0.0, Elevation=0.0))
    arch = synth.make_archive(d / "archive", df, "YEAR/JD/STATION", resample=True, upfactor=f, interpolate=interp)
    on = synth.make_onset(sr, position="centred", phases=("P",), allow_gaps=gaps, full_timespan=not gaps)
    beg = t0 + 12 + int(rng.integers(0, sr)) / sr
    end = beg + 60
    info = dict(sr=sr, f=f, interp=interp, gaps=gaps, rates=rates)
    with synth.quiet():
        from quakemigrate.util import BadUpfactorException
        try:
            on.calculate_onsets(arch.read_waveform_data(beg, end), 60.0)
            refused = False
        except BadUpfactorException:
            refused = True
        obs.check(refused, "bad_upfactor", f"{rates[names[5]][0]} Hz cannot be brought to {sr} Hz with upfactor {f}, but nothing was said", **info)
        obs.count("refusals", refused)
        # without permission to upsample, such stations are reported as unavailable and the others are used
        arch = synth.make_archive(d / "archive", df, "YEAR/JD/STATION", interpolate=interp)
        _, od = on.calculate_onsets(arch.read_waveform_data(beg, end), 60.0)
        for nm in names:
            ok = rates[nm][0] % sr == 0
            obs.count("reported_available" if ok else "reported_unavailable")
            obs.check(od.availability.get(f"{nm}_P") == int(ok), "reported", f"{nm} ({rates[nm][0]} Hz, working rate {sr}): availability {od.availability.get(f'{nm}_P')}", **info)
        df = df.iloc[:5]
        arch = synth.make_archive(d / "archive", df, "YEAR/JD/STATION", resample=True, upfactor=f, interpolate=interp)
        data = arch.read_waveform_data(beg, end)
        keep = data.waveforms.copy()
        with obs.no_raise("onsets", str(info)):
            mat, od = on.calculate_onsets(data, 60.0)
    obs.check(same(keep, data.waveforms), "input_modified", "computing onsets changed the waveforms that were read", **info)
    obs.check(mat.shape[0] == 5, "available", f"{mat.shape[0]} of 5 stations available: {od.availability}", **info)
    obs.count("reads")
    n = int(round((end.ns - beg.ns) / 1e9 * sr)) + 1
    for nm in names[:5]:
        x = od.onsets.get(nm, {}).get("P")
        if x is None:
            continue
        if not obs.check(len(x) == n, "onset_length", f"{len(x)} samples of onset for a window of {n}", **info):
            continue
        native, off = rates[nm]
        ftr = [t for t in od.filtered_waveforms if t.stats.station == nm]
        obs.check(all(abs((t.stats.starttime.ns - beg.ns) / 1e9 * sr - round((t.stats.starttime.ns - beg.ns) / 1e9 * sr)) < 0.01 for t in ftr), "instants",
                  f"{nm}: processed data are not on the window's sampling instants", **info)
        merged = Stream(t.copy() for t in ftr).merge(fill_value=0.0).trim(beg, end, pad=True, fill_value=0.0)
        if not obs.check(len(merged) == 1 and merged[0].stats.npts == n, "processed_length", f"{nm}: {merged}", **info):
            continue
        x = np.asarray(merged[0].data, dtype=float)
        i = int(round((tp - beg) * sr))
        m = slice(max(0, i - 2 * sr), i + 3 * sr)
        rel = np.arange(n) / sr - (tp - beg)
        ref = Trace(synth.wavelet(rel, 2.5) * 2e5, header=dict(sampling_rate=sr, starttime=beg)).filter("bandpass", freqmin=2.0, freqmax=min(12.0, 0.4 * sr), corners=2, zerophase=True).data
        lags = np.arange(-4, 5)
        cc = np.array([np.dot(x[m], np.roll(ref, l)[m]) for l in lags])
        j = int(np.argmax(cc))
        if not obs.check(0 < j < len(lags) - 1, "signal_time", f"{nm}: signal {lags[j]} samples or more from where it was put", **info):
            continue
        lag = lags[j] + 0.5 * (cc[j - 1] - cc[j + 1]) / (cc[j - 1] - 2 * cc[j] + cc[j + 1])
        gain = cc[j] / np.dot(ref[m], ref[m])
        slack = 0.0 if interp else 0.5 * sr / native
        obs.track("lag_interp" if interp else "lag_beyond_half_native_sample", abs(lag) - slack)
        obs.track("gain_error", abs(gain - 1))
        obs.count("signals")
        obs.key("read", sr, native, off > 0, interp, gaps)
        obs.check(abs(lag) <= 0.08 + slack, "signal_time", f"{nm} ({native} Hz, {off} samples off): signal {lag:+.2f} samples from where it was put", **info)
        obs.check(abs(gain - 1) <= 0.15, "signal_amplitude", f"{nm} ({native} Hz): signal amplitude {gain:.3f} of what was recorded", **info)


def main(chk):
    n = chk.pick(12, 1200)
    jobs = [dict(id=f"u{i}", reps=60, part="up") for i in range(chk.pick(4, 200))]
    chk.run(resampling, [dict(id=f"r{i}", reps=14) for i in range(n)])
    chk.run(upsampling, jobs)
    chk.run(ends, [dict(id=f"e{i}", reps=25) for i in range(chk.pick(4, 60))])
    chk.run(shifting, [dict(id=f"s{i}", reps=25) for i in range(chk.pick(6, 300))])
    chk.run(fragments, [dict(id=f"f{i}", reps=8) for i in range(chk.pick(4, 60))])
    chk.run(aliasing, [dict(id=f"a{i}", reps=15) for i in range(chk.pick(2, 12))])
    chk.run(samples, [dict(id="n0", reps=chk.pick(3000, 60000))])
    chk.run(reading, [dict(id=f"d{i}") for i in range(chk.pick(16, 1200))])
    chk.require(interpolated_ends=80, values=10 ** 5, traces=300, left_alone=10, full_start=100, full_end=100, upsampled=120, padded_values=100, shifted=80, interpolated=30,
                tones_stop=15, tones_pass=15, conversions=1000, signals=35, reported_unavailable=20, reported_available=20, fragments=300, reads=8, refusals=8)
    chk.rule = "resampled, shifted and read data compared with a signal known at every instant; a key is a combination of rates, factor, gap and kind"
