"""C18: amplitudes are the half peak-to-trough of the right window and channel."""
import copy
import itertools
import pickle
import numpy as np
import pandas as pd
from obspy import Stream, Trace, UTCDateTime
from scipy import signal as sps
from qv import harness, synth

COMPS = ["E", "N", "Z"]


class Ground:
    """Stands for the event's waveform data: what is handed in already is the Wood-Anderson record."""

    def __init__(self, st, faulty=()):
        self.raw_waveforms, self.faulty = st, set(faulty)
        self.asked = []

    def get_wa_waveform(self, tr, velocity=False):
        from quakemigrate import util
        self.asked.append((tr.copy(), velocity))
        if tr.id in self.faulty:
            if len(tr.id) % 2:
                raise util.ResponseNotFoundError("none", tr.id)
            raise util.ResponseRemovalError("none", tr.id)
        out = tr.copy()
        out.data = out.data.astype(float)
        return out


# ---- reference ----------------------------------------------------------------------------------

def detrend(y):
    if len(y) < 2:
        return y - y.mean() if len(y) else y
    t = np.arange(len(y)) - (len(y) - 1) / 2
    return y - y.mean() - t * (t @ y) / (t @ t)


def extrema(y):
    """(index, +1 peak / -1 trough), plateaus counted at their middle; ends are never extrema."""
    out = []
    n = len(y)
    i = 1
    while i < n - 1:
        j = i
        while j < n - 1 and y[j + 1] == y[i]:
            j += 1
        if j >= n - 1:
            break
        a, b = y[i] - y[i - 1], y[j + 1] - y[i]
        if a > 0 and b < 0:
            out.append(((i + j) // 2, 1))
        elif a < 0 and b > 0:
            out.append(((i + j) // 2, -1))
        i = j + 1
    return out


def prominence(y, i):
    """How far y must fall from the peak at i before climbing above it, on the shallower side."""
    h = y[i]
    lo = []
    for side in (y[:i][::-1], y[i + 1:]):
        m = h
        for v in side:
            if v > h:
                break
            m = min(m, v)
        lo.append(m)
    return h - max(lo)


def half_amp(y, prom=0.0):
    """[(half amplitude, lag in samples, mid index)] candidates for the largest, or None"""
    ex = extrema(y)
    if prom > 0:
        need = prom * np.abs(y).max()
        pr = [prominence(y if s > 0 else -y, i) for i, s in ex]
        if any(abs(p - need) < 1e-9 * max(need, 1e-300) for p in pr):
            return "unclear"
        ex = [e for e, p in zip(ex, pr) if p >= need]
    if not any(s > 0 for _, s in ex) or not any(s < 0 for _, s in ex):
        return None
    if any(a[1] == b[1] for a, b in zip(ex, ex[1:])):
        return None
    c = [(abs(y[a[0]] - y[b[0]]) / 2, b[0] - a[0], (a[0] + b[0]) / 2) for a, b in zip(ex, ex[1:])]
    m = max(v[0] for v in c)
    return [v for v in c if v[0] >= m * (1 - 1e-9)]


def average(y, how):
    if how == "RMS":
        return np.sqrt((y ** 2).mean())
    if how == "STD":
        return np.sqrt(((y - y.mean()) ** 2).mean())
    n = len(y)
    f = np.fft.fft(y)
    k = np.zeros(n)
    k[0] = 1
    if n % 2:
        k[1:(n + 1) // 2] = 2
    else:
        k[n // 2] = 1
        k[1:n // 2] = 2
    return np.abs(np.fft.ifft(f * k)).mean()


def filt(y, sr, p):
    """the causal Butterworth the parameters ask for, after a straight line and a 5% cosine taper; with its gain"""
    nyq = sr / 2
    if p.get("bandpass_filter"):
        lo, hi = p["bandpass_lowcut"], p["bandpass_highcut"]
        if hi >= nyq * (1 - 1e-6):
            kind, w = "highpass", lo / nyq
        else:
            kind, w = "bandpass", [lo / nyq, hi / nyq]
    elif p.get("highpass_filter"):
        kind, w = "highpass", p["highpass_freq"] / nyq
    else:
        return y, None
    z, q, k = sps.iirfilter(p.get("filter_corners", 4), w, btype=kind, ftype="butter", output="zpk")
    y = detrend(y)
    n = len(y)
    m = int(n * 0.05)
    if m > 1:
        ramp = 0.5 * (1 - np.cos(np.pi * np.arange(m) / (m - 1)))
        y = y.copy()
        y[:m] *= ramp
        y[-m:] *= ramp[::-1]

    def gain(f):
        e = np.exp(2j * np.pi * f / sr)
        return abs(k * np.prod(e - z) / np.prod(e - q))
    return sps.sosfilt(sps.zpk2sos(z, q, k), y), gain


def cut_options(t0, sr, n, a, b):
    """index ranges of the samples of a record inside [a, b], to the nearest sample; an edge midway may go either way"""
    fa, fb = (a - t0) * sr, (b - t0) * sr
    def near(v):
        r = v - np.floor(v)
        return [int(np.floor(v)), int(np.ceil(v))] if 0.49 < r < 0.51 else [int(np.floor(v + 0.5))]
    for i, j in itertools.product(near(fa), near(fb)):
        yield max(i, 0), min(j, n - 1)


def windows(ev, pp, sp, ptt, stt, frac, sig, mw):
    p0, p1 = pp - mw - ptt * frac, pp + mw + ptt * frac
    s0, s1 = sp - mw - stt * frac, sp + mw + stt * frac + sig
    gap = s0 - p1
    if gap < 0:
        p1 = s0 = p1 + gap / 2
    elif gap < sig:
        p1 = s0
    else:
        p1 = p1 + sig
    return (p0, p1), (s0, s1), gap


def add_sig(rng, x, i, sr, amp):
    n = np.arange(len(x))
    f = rng.uniform(0.8, min(10, sr / 5))
    w = rng.uniform(0.5, 3) / f * sr
    x += amp * np.exp(-0.5 * ((n - i) / w) ** 2) * np.sin(2 * np.pi * f * (n - i) / sr + rng.uniform(0, 6))


def setup(rng):
    from quakemigrate.io.event import Event
    units = str(rng.choice(["km", "m"]))
    f = 1.0 if units == "km" else 1000.0
    n = int(rng.integers(3, 6))
    nc = tuple(int(v) for v in rng.integers(6, 12, 3))
    spec = synth.grid_spec(nc, rng.choice([0.5, 1.0, 3.0], 3) * f, units=units)
    st = synth.stations_df(rng, spec, n, units=units, names=[str(v) for v in rng.permutation(synth.station_names(n))])
    if rng.random() < 0.25:
        st.index = rng.permutation(n)
        obs_index = "shuffled index"
    elif rng.random() < 0.3:
        st.index = np.arange(n) * 2 + 3
        obs_index = "filtered index"
    else:
        obs_index = "plain index"
    frac = float(rng.choice([0.0, 0.05, 0.1, 0.4]))
    vp, vs = 5.0 * f, float(rng.choice([2.0, 3.0, 4.4])) * f
    lut = synth.make_lut(spec, st, vp=vp, vs=vs, fraction_tt=frac)
    mw = float(rng.choice([0.1, 0.25, 0.5, 1.0]))
    ev = Event(mw, pd.Series({"EventID": "20210301000000000", "CoaTime": UTCDateTime(2021, 3, 1), "TRIG_COA": 1., "COA": 1., "COA_NORM": 1.}))
    ev.otime = UTCDateTime("2020-12-31T23:59:58.37") + float(rng.uniform(0, 3))
    loc = {}
    for m in ("spline", "gaussian", "covariance"):
        ijk = rng.uniform(0, np.array(nc) - 1)
        loc[m] = lut.index2coord([ijk])[0]
    ev.add_spline_location(loc["spline"])
    ev.add_gaussian_location(loc["gaussian"], [0.1, 0.1, 0.1])
    ev.add_covariance_location(loc["covariance"], [0.1, 0.1, 0.1])
    return units, f, spec, st, lut, frac, vp, vs, mw, ev, loc, obs_index


def params(rng, sr):
    p = dict(signal_window=float(rng.choice([0.0, 0.3, 1.0, 4.0])), noise_window=float(rng.choice([0.5, 2.0, 5.0])),
             noise_measure=str(rng.choice(["RMS", "STD", "ENV"])))
    r = rng.random()
    if r < 0.3:
        p.update(highpass_filter=True, highpass_freq=float(rng.choice([0.1, 1.0, 3.0])))
    elif r < 0.6:
        p.update(bandpass_filter=True, bandpass_lowcut=float(rng.choice([0.5, 2.0])), bandpass_highcut=float(rng.choice([8.0, 9.9, 10.0, 12.5, 24.9, 25.0, 60.0])))
    if r < 0.6 and rng.random() < 0.5:
        p["filter_corners"] = int(rng.integers(1, 5))
    if rng.random() < 0.7:
        p["loc_method"] = str(rng.choice(["spline", "gaussian", "covariance"]))
    if rng.random() < 0.3:
        p["prominence_multiplier"] = float(rng.choice([0.02, 0.1, 0.4]))
    return p


def network(case, rng, obs):
    from quakemigrate.signal.local_mag.amplitude import Amplitude
    units, f, spec, stations, lut, frac, vp, vs, mw, ev, loc, how = setup(rng)
    obs.key("stations", how)
    srs = [20, 50, 100]
    p = params(rng, 50)
    lm = p.get("loc_method", "spline")
    with synth.quiet():
        amp = Amplitude(p)
    hyp = loc[lm]
    node = np.rint((synth.to_grid(lut.grid_proj, lut.coord_proj, hyp) - lut.ll_corner) / lut.node_spacing).astype(int)
    ref = synth.ref_traveltimes(lut, vp, vs, stations)
    tts = {s: (float(ref[s]["P"][tuple(node)]), float(ref[s]["S"][tuple(node)])) for s in stations["Name"]}
    maxtt = max(v.max() for r in ref.values() for v in r.values())
    sig, noise = p["signal_window"], p["noise_window"]
    pre, post = noise + mw, sig + maxtt * (1 + frac) + mw
    ext = np.ceil((pre + post) * 0.06)
    pre, post = pre + ext, post + ext
    # the documented pad is what the archive is asked for, so measure on data that reaches it
    a_pre, a_post = amp.pad(mw, lut.max_traveltime, lut.fraction_tt)
    obs.check(abs(a_pre - pre) < 1e-6 and abs(a_post - post) < 1.01, "pad", lambda: dict(got=(a_pre, a_post), want=(pre, post)))
    # picks
    rows, pk = [], {}
    for s in stations["Name"]:
        ptt, stt = tts[s]
        mode = str(rng.choice(["both", "both", "both", "P", "S", "none", "noP", "noS", "absent", "wrong"], p=[.2, .2, .1, .1, .1, .1, .05, .05, .07, .03]))
        a = ev.otime + ptt + float(rng.normal(0, 0.1))
        b = max(ev.otime + stt + float(rng.normal(0, 0.1)), a + 0.03)
        if mode == "wrong":
            a, b = b + 0.2, a
        mp, ms = ev.otime + ptt, ev.otime + stt
        P = a if mode in ("both", "P", "noS", "wrong") else "-1"
        S = b if mode in ("both", "S", "noP", "wrong") else "-1"
        if rng.random() < 0.2 and mode == "noS":
            P = "-1"
        if mode == "absent":
            pk[s] = (mp, ms, False)
        else:
            if mode != "noP":
                rows.append([s, "P", mp, P, 0.1, 5.0])
            if mode != "noS":
                rows.append([s, "S", ms, S, 0.1, 5.0])
            if mode in ("noP", "noS"):
                pk[s] = (mp, ms, isinstance(P if mode == "noS" else S, UTCDateTime))
            else:
                pk[s] = (P if isinstance(P, UTCDateTime) else mp, S if isinstance(S, UTCDateTime) else ms, isinstance(P, UTCDateTime) or isinstance(S, UTCDateTime))
        obs.key("picks", mode)
    df = pd.DataFrame(rows, columns=["Station", "Phase", "ModelledTime", "PickTime", "PickError", "SNR"])
    df = df.iloc[rng.permutation(len(df))].reset_index(drop=True) if len(df) else df
    ev.add_picks(df)
    # waveforms
    st = Stream()
    faulty = []
    cond = {}
    one_two = {s: rng.random() < 0.3 for s in stations["Name"]}
    for s in stations["Name"]:
        sr = float(rng.choice(srs))
        off = float(rng.choice([0.0, 0.0, rng.uniform(0, 1)]))    # the channels of a station share one clock
        ptt, stt = tts[s]
        for c in COMPS:
            what = str(rng.choice(["good", "missing", "gap", "partial", "flat", "dead window", "faulty", "coarse", "two"],
                                  p=[.56, .06, .06, .06, .06, .06, .06, .04, .04]))
            cond[s, c] = what
            obs.key("channel", what)
            if what == "missing":
                continue
            t0 = UTCDateTime(ns=int(round(((ev.otime - pre - 3).ns / 1e9 * sr // 1 + off) / sr * 1e9)))
            npts = int((pre + post + 6) * sr)
            x = 1e-6 * rng.normal(0, 1, npts) * 10 ** rng.uniform(-2, 1)
            if rng.random() < 0.5:
                x += np.linspace(0, rng.normal() * 1e-4, npts)
            for tt in (ptt, stt):
                add_sig(rng, x, (ev.otime + tt + float(rng.uniform(-0.2, 0.8 + sig)) - t0) * sr, sr, 1e-5 * 10 ** rng.uniform(-2, 1.5))
            if what == "coarse":
                q = np.abs(x).max() / float(rng.integers(1, 4))
                x = np.round(x / q) * q
            if what == "flat":
                x[:] = float(rng.choice([0.0, 3e-6, 1234.0]))
            if what == "dead window":
                w = windows(ev, *pk[s][:2], ptt, stt, frac, sig, mw)[int(rng.integers(0, 2))]
                i, j = int((w[0] - t0) * sr) - 2, int((w[1] - t0) * sr) + 3
                x[max(i, 0):max(j, 0)] = x[max(i, 0)] if rng.random() < 0.5 else 0.0
            ch = {"E": "2", "N": "1", "Z": "Z"}[c] if one_two[s] else c
            tr = Trace(x, dict(network="XX", station=s, location="00", channel="HH" + ch, sampling_rate=sr, starttime=t0))
            if what == "gap":
                m = npts // 2
                st += Stream([tr.slice(t0, t0 + (m - 10) / sr), tr.slice(t0 + (m + 10) / sr, t0 + npts / sr)])
                continue
            if what == "partial":
                if rng.random() < 0.5:
                    tr.trim(starttime=ev.otime - pre + float(rng.uniform(2.0, 4.0)) / sr)
                else:
                    tr.trim(endtime=ev.otime + a_post - float(rng.uniform(2.0, 4.0)) / sr)
            if what == "two":
                t2 = tr.copy()
                t2.stats.channel = "B" + tr.stats.channel[1:]
                st += t2
            st += tr
            if what == "faulty":
                faulty.append(tr.id)
    # someone else's channels
    st += Trace(np.ones(100), dict(station="OTHER", channel="HHZ", sampling_rate=20.0, starttime=ev.otime))
    st.traces = [st[i] for i in rng.permutation(len(st))]
    data = Ground(st.copy(), faulty)
    ev.data = data
    keep = st.copy()
    keep_df = df.copy(deep=True)
    got = amp.get_amplitudes(ev, lut)
    obs.check(len(ev.data.raw_waveforms) == len(keep) and all(a.stats == b.stats and np.array_equal(a.data, b.data) for a, b in zip(ev.data.raw_waveforms, keep)),
              "measuring-changed-waveforms", "raw waveforms altered by get_amplitudes")
    obs.check(ev.picks["df"].equals(keep_df), "measuring-changed-picks", "picks altered")
    obs.check(all(v is False for _, v in data.asked), "displacement", "amplitudes must come from displacement records")
    if not obs.check(len(got) == 3 * len(stations) and got.index.name == "id", "rows", lambda: dict(rows=len(got), stations=len(stations))):
        return
    obs.count("tables")
    from pyproj import Geod
    geod = Geod(ellps="WGS84")
    for s in stations["Name"]:
        r = stations[stations["Name"] == s].iloc[0]
        ptt, stt = tts[s]
        epi = geod.inv(hyp[0], hyp[1], r.Longitude, r.Latitude)[2] / 1000
        z = (hyp[2] - r.Elevation) / f
        mine = got[[str(i).split(".")[1] == s for i in got.index]]
        if not obs.check(len(mine) == 3, "station-rows", lambda: dict(station=s, ids=list(got.index))):
            continue
        for ci, c in enumerate(COMPS):
            row = mine.iloc[ci]
            what = cond[s, c]
            ch = {"E": "2", "N": "1", "Z": "Z"}[c] if one_two[s] else c
            rid = str(mine.index[ci])
            label = dict(station=s, comp=c, what=what, params=p)
            obs.close("epi-dist", float(row.epi_dist), epi, rtol=1e-6, atol=1e-6, msg=str(label))
            obs.close("z-dist", float(row.z_dist), z, rtol=1e-9, atol=1e-9, msg=str(label))
            # which measurements must be there?
            meas = [row[k] for k in ("P_amp", "P_freq", "P_time", "P_avg_amp", "S_amp", "S_freq", "S_time", "S_avg_amp", "Noise_amp")]
            if what in ("missing", "gap", "partial", "two"):
                obs.check(all(pd.isnull(v) for v in meas), "unusable-channel-measured", lambda: dict(label, row=row.to_dict()))
                obs.check(rid.split(".")[1] == s and (rid.endswith(f"..{c}") or rid.endswith(ch) or rid.endswith(f"{c}]") or f"[{c}" in rid), "unusable-channel-id", lambda: dict(label, id=rid))
                obs.count("missing_rows")
                continue
            if not obs.check(rid == f"XX.{s}.00.HH{ch}", "channel-id", lambda: dict(label, id=rid)):
                continue
            tr = [t for t in st if t.id == rid][0]
            near = tr.slice(ev.otime - a_pre, ev.otime + a_post).data
            if np.ptp(near[2:-2]) == 0 and np.ptp(near) > 0:
                continue
            if what == "faulty" or np.ptp(near) == 0 or pk[s][0] >= pk[s][1]:
                obs.check(all(pd.isnull(v) for v in meas), "unusable-channel-measured", lambda: dict(label, row=row.to_dict()))
                obs.count("failed_rows")
                continue
            obs.check(bool(row.is_picked) == pk[s][2], "is-picked", lambda: dict(label, got=row.is_picked, want=pk[s][2]))
            sr, t0 = tr.stats.sampling_rate, tr.stats.starttime
            # the record handed over for response removal: this channel's own samples, reaching at least as far as the windows and their pad
            rec = [t for t, _ in data.asked if t.id == rid]
            if not obs.check(len(rec) == 1, "one-record-per-channel", lambda: dict(label, n=len(rec))):
                continue
            rec = rec[0]
            k0 = (rec.stats.starttime - t0) * sr
            i0 = int(round(k0))
            n = rec.stats.npts
            if not obs.check(abs(k0 - i0) < 1e-3 and i0 >= 0 and np.array_equal(rec.data, tr.data[i0:i0 + n]), "record-is-the-archive's", lambda: dict(label, start=str(rec.stats.starttime), n=n)):
                continue
            obs.check(rec.stats.starttime - (ev.otime - a_pre) < 1.01 / sr and (ev.otime + a_post) - rec.stats.endtime < 1.01 / sr, "record-covers-pad",
                      lambda: dict(label, record=(str(rec.stats.starttime), str(rec.stats.endtime)), otime=str(ev.otime), pad=(a_pre, a_post)))
            y, gain = filt(rec.data.astype(float), sr, p)
            ts = rec.stats.starttime
            scale = np.abs(y).max()
            W = windows(ev, pk[s][0], pk[s][1], ptt, stt, frac, sig, mw)
            # a few microseconds of freedom where the gap is on the switch between window rules
            if min(abs(W[2]), abs(W[2] - sig)) < 1e-5:
                continue
            obs.key("windows", "overlap" if W[2] < 0 else "abut" if W[2] < sig else "apart")
            for ph, w in (("P", W[0]), ("S", W[1])):
                vals = [row[f"{ph}_{k}"] for k in ("amp", "freq", "time", "avg_amp")]
                g_got = row[f"{ph}_filter_gain"]
                opts = []
                for i, j in cut_options(ts, sr, len(y), *w):
                    seg = y[i:j + 1]
                    if len(seg) == 0 or np.ptp(detrend(seg)) <= 1e-9 * max(scale, 1e-12):
                        opts.append(None if len(seg) == 0 or np.ptp(detrend(seg)) == 0 else "unclear")
                        continue
                    d = detrend(seg)
                    # rounding may make or unmake an extremum: not judged
                    hv = half_amp(d, p.get("prominence_multiplier", 0.0))
                    if what == "coarse" and hv is None:
                        hv = "unclear"
                    if hv in (None, "unclear"):
                        opts.append(hv)
                        continue
                    for h, lag, mid in hv:
                        fr = sr / (2 * lag)
                        g = gain(fr) if gain else None
                        if gain and g < 1e-7:
                            opts.append("unclear")
                            continue
                        opts.append((1000 * h / (g or 1), fr, ts + (i + mid) / sr, 1000 * average(d, p["noise_measure"]) / (g or 1), g))
                if "unclear" in opts:
                    obs.count("unclear_windows")
                    continue
                if all(pd.isnull(v) for v in vals):
                    obs.check(None in opts, f"{ph}-not-measured", lambda: dict(label, want=opts, window=[str(v) for v in w]))
                    obs.count("empty_windows")
                    continue

                def same(o):
                    if o is None:
                        return False
                    a, fr, t, av, g = o
                    gg = (pd.isnull(g_got) if g is None else abs(g_got - g) < 1e-4 * g + 1e-9)
                    return (abs(vals[0] - a) < 1e-4 * a + 1e-7 * scale * 1000 and abs(vals[1] - fr) < 1e-6 * fr and abs(vals[2] - t) < 1e-4
                            and abs(vals[3] - av) < 1e-4 * av + 1e-7 * scale * 1000 and gg)
                obs.check(any(same(o) for o in opts), f"{ph}-amplitude", lambda: dict(label, got=[str(v) for v in vals] + [str(g_got)], want=[str(o) for o in opts], window=[str(v) for v in w], mw=mw, sr=sr))
                obs.count("amplitudes")
                obs.track("half amplitude (mm)", float(vals[0]))
                obs.track("frequency", float(vals[1]))
            nopts = []
            for i, j in cut_options(ts, sr, len(y), W[0][0] - noise, W[0][0]):
                seg = y[i:j + 1]
                if len(seg) == 0 or np.ptp(seg) == 0:
                    nopts.append(np.nan)
                else:
                    nopts.append(1000 * average(detrend(seg), p["noise_measure"]))
            gn = row.Noise_amp
            obs.check(any((np.isnan(v) and pd.isnull(gn)) or (not pd.isnull(gn) and abs(gn - v) < 1e-4 * v + 1e-7 * scale * 1000) for v in nopts), "noise-amplitude",
                      lambda: dict(label, got=gn, want=nopts))
            obs.count("noise_measures")
    # one more unusable channel changes only its own rows
    if rng.random() < 0.5:
        ids = sorted(i for i in got.index if not pd.isnull(got.loc[[i]].iloc[0]["Noise_amp"]) and i.count(".") == 3 and "[" not in i)
        if ids:
            out = ids[int(rng.integers(0, len(ids)))]
            ev.data = Ground(Stream([t.copy() for t in st if t.id != out]), faulty)
            again = amp.get_amplitudes(ev, lut)
            a = got.drop(index=out)
            b = again[[i in set(a.index) for i in again.index]]
            obs.check(list(a.index) == list(b.index) and all(_eq(x, y) for col in a.columns for x, y in zip(a[col], b[col])), "other-channels-affected", lambda: dict(removed=out, a=list(a.index), b=list(b.index), diff=[(col, i, str(x), str(y)) for col in a.columns for i, x, y in zip(a.index, a[col], b[col]) if not _eq(x, y)][:5]))
            obs.count("isolation_runs")


def _eq(a, b):
    if pd.isnull(a) or pd.isnull(b):
        return bool(pd.isnull(a) and pd.isnull(b))
    return a == b


def real(case, rng, obs):
    """a harmonic ground motion recorded through a seismometer: the Wood-Anderson amplitude is known by analysis"""
    from obspy.core.inventory import Channel, Inventory, Network, Station
    from obspy.core.inventory.response import Response
    from quakemigrate.io.data import WaveformData
    from quakemigrate.signal.local_mag.amplitude import Amplitude
    units, f, spec, stations, lut, frac, vp, vs, mw, ev, loc, how = setup(rng)
    sr = 100.0
    p = dict(signal_window=2.0, noise_window=2.0, noise_measure="RMS")
    with synth.quiet():
        amp = Amplitude(p)
    pre, post = amp.pad(mw, lut.max_traveltime, lut.fraction_tt)
    gain = float(10 ** rng.uniform(5, 9))
    poles = [-0.1 + 0.1j, -0.1 - 0.1j]
    t0 = UTCDateTime(ns=int(round((ev.otime - pre - 2).ns / 1e9 * sr)) * int(1e9 / sr))
    npts = int((pre + post + 4) * sr)
    t = np.arange(npts) / sr
    st, nets, want = Stream(), [], {}
    for s in stations["Name"]:
        chans = []
        for c in COMPS:
            fr = float(rng.uniform(2.0, 8.0))
            A = 10 ** rng.uniform(-7, -3)       # ground displacement (m)
            w = 2j * np.pi * fr
            H = gain * w * (w ** 2) / np.prod([w - q for q in poles])   # displacement -> velocity -> counts
            ph = rng.uniform(0, 6)
            x = A * np.abs(H) * np.cos(2 * np.pi * fr * t + np.angle(H) + ph)
            st += Trace(x, dict(network="XX", station=s, channel="HH" + c, sampling_rate=sr, starttime=t0))
            r = Response.from_paz(zeros=[0j, 0j], poles=poles, stage_gain=gain, stage_gain_frequency=5.0, input_units="M/S", output_units="COUNTS",
                                  normalization_frequency=5.0)
            if "Z" in c and rng.random() < 0.2:
                want[s, c] = None
            else:
                chans.append(Channel("HH" + c, "", 0, 0, 0, 0, sample_rate=sr, response=r))
                # obspy's Wood-Anderson: static magnification 2080 referred to displacement
                wa = w ** 2 / ((w - (-6.283185 - 4.712j)) * (w - (-6.283185 + 4.712j))) * 2080
                norm = abs((2j * np.pi * 5) ** 2 / np.prod([2j * np.pi * 5 - q for q in poles]))
                want[s, c] = (A * abs(wa) * 1000 * norm, fr)
        nets.append(Station(s, 0, 0, 0, channels=chans))
    inv = Inventory([Network("XX", stations=nets)], source="x")
    full = bool(rng.random() < 0.3)
    data = WaveformData(t0, t0 + npts / sr, stations["Name"], response_inv=inv, water_level=60.0, pre_filt=None, remove_full_response=full)
    data.raw_waveforms = st
    ev.data = data
    ev.add_picks(pd.DataFrame([], columns=["Station", "Phase", "ModelledTime", "PickTime", "PickError", "SNR"]))
    got = amp.get_amplitudes(ev, lut)
    obs.count("response_runs")
    obs.key("response", "full" if full else "paz")
    for (s, c), v in want.items():
        row = got[[str(i).split(".")[1] == s for i in got.index]].iloc[COMPS.index(c)]
        if v is None:
            obs.check(pd.isnull(row.S_amp) and pd.isnull(row.P_amp), "no-response-measured", lambda: dict(row=row.to_dict()))
            obs.count("no_response")
            continue
        for ph in ("P", "S"):
            if pd.isnull(row[f"{ph}_amp"]):
                obs.count("short_windows")
                continue
            # sampled extremes of a harmonic, tilted a little by the detrend over a short window
            if ph == "S":
                obs.check(abs(row.S_amp / v[0] - 1) < 0.12, "wood-anderson-amplitude", lambda: dict(station=s, comp=c, got=row.S_amp, want=v[0], freq=v[1], full=full))
                obs.check(abs(row.S_freq / v[1] - 1) < 0.25, "wood-anderson-frequency", lambda: dict(station=s, comp=c, got=row.S_freq, want=v[1]))
                obs.track("amplitude ratio to truth", float(row.S_amp / v[0]))
                obs.count("absolute_amplitudes")


def phases(case, rng, obs):
    """both phases are needed"""
    from quakemigrate import util
    from quakemigrate.signal.local_mag.amplitude import Amplitude
    units, f, spec, stations, lut, frac, vp, vs, mw, ev, loc, how = setup(rng)
    one = str(rng.choice(["P", "S"]))
    lut = synth.make_lut(spec, stations, vp=vp, vs=vs, phases=[one])
    ev.data = Ground(Stream())
    ev.add_picks(pd.DataFrame([], columns=["Station", "Phase", "ModelledTime", "PickTime", "PickError", "SNR"]))
    with synth.quiet():
        amp = Amplitude({})
    try:
        amp.get_amplitudes(ev, lut)
        obs.violate("single-phase-accepted", "amplitudes measured with a table of only " + one)
    except util.LUTPhasesException:
        obs.count("single_phase_refusals")


def located(case, rng, obs):
    """The data a locate run reads for an event suffice for every measurement, however long the windows."""
    from checks import c10, c15
    from quakemigrate.signal.local_mag import LocalMag
    from quakemigrate.signal.pickers import GaussianPicker
    d = harness.case_dir()
    slow = float(rng.choice([1.0, 2.0]))
    w = c10.world(rng, d, nev=2, dur=170.0, ev_times=[float(rng.uniform(70, 76)), float(rng.uniform(84, 92))], vp=5.0 / slow, vs=3.0 / slow)
    w.lut.fraction_tt = float(rng.choice([0.1, 0.4, 0.8]))
    with open(d / "inv.pkl", "rb") as f:
        inv = pickle.load(f)
    mw = float(rng.choice([0.5, 1.0, 2.0]))
    noise, sig = float(rng.choice([1.0, 6.0, 15.0, 25.0])), float(rng.choice([0.5, 4.0, 10.0, 20.0]))
    p = dict(signal_window=sig, noise_window=noise, noise_measure="RMS", bandpass_filter=True, bandpass_lowcut=2.0, bandpass_highcut=0.4 * w.sr)
    with synth.quiet():
        mags = LocalMag(p, {"A0": "UK", "amp_feature": "S_amp"}, plot_amplitudes=False)
    arch = synth.make_archive(d / "archive", w.stations, w.fmt, response_inv=inv)
    on = synth.make_onset(w.sr, phases=w.phases)
    rows = []
    for e in w.events:
        t = UTCDateTime(ns=int(round((e["otime"].ns - w.t0.ns) / 1e9 * w.sr)) * int(1e9) // w.sr + w.t0.ns) + float(rng.integers(-3, 4)) / w.sr
        rows.append(dict(EventID=c15.uid_of(t), CoaTime=str(t), TRIG_COA=3.0, COA_X=-17.0, COA_Y=64.5, COA_Z=1.0, COA=5.0, COA_NORM=2.0))
    pd.DataFrame(rows).to_csv(d / "t.csv", index=False)
    scan = synth.make_scan(arch, w.lut, on, d, "run", picker=GaussianPicker(onset=on), mags=mags, marginal_window=mw)
    if rng.random() < 0.4:
        scan.pre_cut, scan.post_cut = float(rng.uniform(1, 30)), float(rng.uniform(1, 30))
    real, info = mags.calc_magnitude, dict(noise_window=noise, signal_window=sig, marginal_window=mw, fraction=w.lut.fraction_tt, phases=w.phases, faults=w.faults)

    def spy(event, *a, **k):
        own = mags.amp.get_amplitudes(event, w.lut)
        wide = copy.copy(event)
        wide.data = arch.read_waveform_data(event.otime - 65.0, event.otime + 75.0)
        ref = mags.amp.get_amplitudes(wide, w.lut)
        if obs.check(sorted(own.index) == sorted(ref.index), "located/rows", lambda: f"{list(own.index)} against {list(ref.index)}", **info):
            own = own.loc[ref.index]
            for c in ("P_amp", "P_freq", "S_amp", "S_freq", "P_avg_amp", "S_avg_amp", "Noise_amp"):
                x, y = own[c].astype(float).to_numpy(), ref[c].astype(float).to_numpy()
                obs.check(np.array_equal(np.isnan(x), np.isnan(y)), "located/missing", lambda: f"{c} of {list(ref.index[np.isnan(x) & ~np.isnan(y)])} missing from the data read", **info)
                obs.close("located/values", x, y, rtol=1e-6, equal_nan=True, msg=c, **info)
                obs.count("located_amplitudes", int((~np.isnan(y)).sum()))
        return real(event, *a, **k)
    mags.calc_magnitude = spy
    with obs.no_raise("located", str(info)), synth.quiet():
        scan.locate(trigger_file=str(d / "t.csv"))
    obs.key("located", noise, sig, mw, w.lut.fraction_tt)


def main(chk):
    chk.run(network, [dict(id=f"n{i}") for i in range(chk.pick(160, 3000))])
    chk.run(real, [dict(id=f"r{i}") for i in range(chk.pick(16, 200))])
    chk.run(phases, [dict(id=f"p{i}") for i in range(chk.pick(4, 20))])
    chk.run(located, [dict(id=f"l{i}") for i in range(chk.pick(12, 150))])
    chk.require(located_amplitudes=chk.pick(300, 4000), amplitudes=chk.pick(800, 15000), noise_measures=chk.pick(400, 8000), missing_rows=chk.pick(100, 2000), absolute_amplitudes=chk.pick(80, 1000),
                isolation_runs=chk.pick(20, 400), no_response=4, single_phase_refusals=2)
    chk.rule = "amplitude table of the real code against an independent measurement on the same records, and against analysis for harmonic ground motion"
