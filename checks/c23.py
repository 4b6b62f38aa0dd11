"""C23: cut waveform files hold the archive's data for the event, unaltered, or corrected as asked."""
import numpy as np
import pandas as pd
from obspy import Inventory, Stream, Trace, UTCDateTime, read
from obspy.core.inventory import Channel, Network, Station
from obspy.core.inventory.response import CoefficientsTypeResponseStage, FIRResponseStage, InstrumentSensitivity, PolesZerosResponseStage, Response
from checks import c15
from qv import harness, pipe, synth

WA_POLES = [-6.283185 - 4.712j, -6.283185 + 4.712j]
ORDER = {"M": 0, "M/S": 1, "M/S**2": 2}


def sensor(rng, units=None):
    """A seismometer: its true poles, zeros, scale and overall gain (counts per input unit)."""
    units = units or str(rng.choice(["M/S", "M/S", "M/S", "M/S**2", "M"]))
    if units == "M/S**2":
        w = 2 * np.pi * rng.uniform(60, 120)
        poles, zeros = [w * (-0.7 + 0.714j), w * (-0.7 - 0.714j)], []
    else:
        w = 2 * np.pi / rng.choice([10.0, 30.0, 1.0 / 1.5])
        poles, zeros = [w * (-0.707 + 0.707j), w * (-0.707 - 0.707j)], [0j, 0j]
        if rng.random() < 0.4:
            poles = poles + [-2 * np.pi * 150 + 0j]
    fn = 1.0 if units == "M/S**2" else 20.0
    s = 2j * np.pi * fn
    h = np.prod([s - z for z in zeros] or [1.0]) / np.prod([s - p for p in poles])
    a0 = 1 / abs(h)
    g1, g2 = float(10 ** rng.uniform(1, 3.3)), float(10 ** rng.uniform(4, 6))
    return dict(units=units, poles=poles, zeros=zeros, a0=a0, g1=g1, g2=g2, fn=fn)


def response(s, fault=None, sr=50.0, case="upper"):
    u = s["units"] if case == "upper" else s["units"].lower()
    stages = [PolesZerosResponseStage(1, s["g1"], s["fn"], u, "V", "LAPLACE (RADIANS/SECOND)", s["fn"], list(s["zeros"]), list(s["poles"]), normalization_factor=s["a0"]),
              CoefficientsTypeResponseStage(2, s["g2"], s["fn"], "V", "COUNTS", "DIGITAL", numerator=[1.0], denominator=[], decimation_input_sample_rate=sr, decimation_factor=1, decimation_offset=0, decimation_delay=0.0, decimation_correction=0.0)]
    if fault == "nopaz":
        stages = stages[1:]
    sens = InstrumentSensitivity(s["g1"] * s["g2"], s["fn"], u, "COUNTS")
    return Response(response_stages=[] if fault == "empty" else stages, instrument_sensitivity=None if fault in ("nosens", "empty") else sens)


def inventory(chans):
    """chans: (net, sta, loc, cha, response, start, end)"""
    nets = {}
    for net, sta, loc, cha, r, a, b in chans:
        c = Channel(cha, loc, 64.0, -17.0, 100.0, 0.0, sample_rate=50.0, start_date=a, end_date=b, response=r)
        nets.setdefault(net, {}).setdefault(sta, []).append(c)
    return Inventory([Network(n, [Station(s, 64.0, -17.0, 100.0, channels=cc) for s, cc in ss.items()]) for n, ss in nets.items()], source="x")


def paz_dict(s, extra):
    """extra: how many times the wanted motion must be differentiated to give the sensor's input"""
    zeros = list(s["zeros"]) + [0j] * max(extra, 0)
    return dict(poles=list(s["poles"]), zeros=zeros[max(-extra, 0):], gain=s["a0"], sensitivity=s["g1"] * s["g2"])


def corrected(tr, s, velocity, wa, water, pre_filt, full, inv):
    tr = tr.copy()
    tr.data = tr.data.astype(float)
    tr.detrend("linear")
    if wa:
        tr.detrend("linear")
    if full:
        tr.remove_response(inventory=inv, output="VEL" if velocity else "DISP", pre_filt=pre_filt, water_level=water, taper=True)
    else:
        tr.simulate(paz_remove=paz_dict(s, ORDER[s["units"]] - (1 if velocity else 0)), pre_filt=pre_filt, water_level=water, taper=True, sacsim=True, pitsasim=False)
    if wa:
        tr.simulate(paz_simulate=dict(poles=WA_POLES, zeros=[0j, 0j], gain=1.0, sensitivity=2080), pre_filt=pre_filt, water_level=water, taper=True, sacsim=True, pitsasim=False)
    return tr


def motion(case, rng, obs):
    """a known ground motion through a known instrument must come back"""
    from quakemigrate.io.data import WaveformData
    sr = float(rng.choice([50, 100, 40]))
    n = int(sr * rng.integers(40, 90))
    pad = 4 * n
    t = (np.arange(n + 2 * pad) - pad) / sr
    u = np.zeros(len(t))
    for _ in range(int(rng.integers(1, 4))):
        f, tc = rng.uniform(2, sr / 10), rng.uniform(0.3, 0.7) * n / sr
        x = np.pi * f * (t - tc)
        u += rng.normal() * 1e-4 / f * (1 - 2 * x ** 2) * np.exp(-x ** 2)
    s = sensor(rng)
    full = bool(rng.random() < 0.4)
    jw = 2j * np.pi * np.fft.rfftfreq(len(u), 1 / sr)
    U = np.fft.rfft(u)
    H = np.ones(len(jw), complex) * s["a0"] * s["g1"] * s["g2"]
    for z in s["zeros"]:
        H *= jw - z
    for p in s["poles"]:
        H /= jw - p
    rec = np.fft.irfft(U * jw ** ORDER[s["units"]] * H, len(u))[pad:pad + n]
    if np.abs(rec).max() < 2000:
        rec = rec * (2000 / np.abs(rec).max())
        k = 2000 / max(np.abs(np.fft.irfft(U * jw ** ORDER[s["units"]] * H, len(u))[pad:pad + n]).max(), 1e-300)
        u, U = u * k, U * k
    t0 = UTCDateTime(2020, 3, 1, 5) + rng.random()
    tr = Trace(np.round(rec).astype(np.int32) if np.abs(rec).max() < 2e9 else rec, dict(network="XX", station="ST0", location="00", channel="HHZ", sampling_rate=sr, starttime=t0))
    inv = inventory([("XX", "ST0", "00", "HHZ", response(s, sr=sr, case=str(rng.choice(["upper", "lower"])) if not full else "upper"), UTCDateTime(2000, 1, 1), None)])
    velocity = bool(rng.random() < 0.5)
    pf = (0.05, 0.1, 0.4 * sr, 0.45 * sr) if rng.random() < 0.6 or s["units"] != "M/S" or not velocity else None      # (else drift hides the motion)
    wl = float(rng.choice([60.0, 60.0, 90.0, 120.0] if pf else [60.0]))
    data = WaveformData(t0, t0 + n / sr, response_inv=inv, water_level=wl, pre_filt=pf, remove_full_response=full)
    keep, raw = tr.copy(), inv.copy()
    mid = slice(int(0.2 * n), int(0.8 * n))
    lab = dict(units=s["units"], velocity=velocity, full=full, pre_filt=pf, water=wl)
    for rep in range(2):
        for wa in (False, True):
            got = (data.get_wa_waveform if wa else data.get_real_waveform)(tr, **({} if rep and velocity == (not wa) else dict(velocity=velocity)))    # (documented defaults: velocity, and displacement for Wood-Anderson)
            obs.check(tr == keep and np.array_equal(tr.data, keep.data), "input-altered", "the record handed in was altered")
            want = np.fft.irfft(U * (jw if velocity else 1.0) * ((2080 * jw ** 2 / ((jw - WA_POLES[0]) * (jw - WA_POLES[1]))) if wa else 1.0), len(u))[pad:pad + n]
            err = np.abs((got.data - want)[mid] - np.median((got.data - want)[mid])).max() / np.abs(want).max()
            obs.track("motion_error", err)
            obs.check(err < 0.2, "motion-wood-anderson" if wa else "motion-ground", lambda: dict(err=err, rep=rep, **lab))
            ref = corrected(keep, s, velocity, wa, wl, pf, full, inv)
            obs.close("corrected-exact", got.data, ref.data, atol=1e-7 * np.abs(ref.data).max(), msg=str(dict(wa=wa, **lab)))
            obs.check((got.id, got.stats.starttime, got.stats.npts, got.stats.sampling_rate) == (tr.id, tr.stats.starttime, tr.stats.npts, tr.stats.sampling_rate), "corrected-stamp", lambda: str(got))
            obs.count("motions")
    obs.check(inv == raw, "inventory-altered", "the inventory was altered")
    obs.key("motion", s["units"], velocity, full, pf is None)


SUFFIX = {"MSEED": ".m", "SAC": ".sac", "SEGY": ".segy", "GSE2": ".gse2"}


def judge_raw(obs, st, segs, lo, hi, want_ids, lab, exact=True, tol=0.0):
    """st: what the file holds; segs: what the archive holds; [lo, hi]: the window asked for"""
    seen = {}
    for tr in st:
        if not obs.check(tr.id in want_ids, "raw-wrong-channel", lambda: dict(id=tr.id, want=sorted(want_ids), **lab)):
            continue
        d = tr.stats.delta
        hit = [s for s in segs if s.id == tr.id and s.stats.sampling_rate == tr.stats.sampling_rate and tr.stats.starttime >= s.stats.starttime - 1e-4 - tol and tr.stats.endtime <= s.stats.endtime + 1e-4 + tol]
        if not obs.check(len(hit) == 1, "raw-not-in-archive", lambda: dict(got=str(tr), archive=[str(s) for s in segs if s.id == tr.id], **lab)):
            continue
        s = hit[0]
        k = (tr.stats.starttime - s.stats.starttime) / d
        i = int(round(k))
        if not obs.check(abs(k - i) * d < 2e-5 + tol, "raw-time-shift", lambda: dict(got=str(tr), archive=str(s), **lab)):
            continue
        w = s.data[i:i + tr.stats.npts]
        obs.check(len(w) == tr.stats.npts and np.array_equal(np.asarray(tr.data, float), np.asarray(w, float)), "raw-values", lambda: dict(got=str(tr), **lab))
        if exact:
            obs.check(tr.data.dtype.kind == s.data.dtype.kind, "raw-type", lambda: dict(got=tr.data.dtype, want=s.data.dtype))
        seen.setdefault(id(s), []).append((i, i + tr.stats.npts))
        obs.check(tr.stats.starttime >= lo - d * 0.51 - tol and tr.stats.endtime <= hi + d * 0.51 + tol, "raw-outside-window", lambda: dict(got=str(tr), window=(str(lo), str(hi)), **lab))
        obs.count("raw_traces")
        obs.count("raw_samples", tr.stats.npts)
    for s in segs:
        if s.id not in want_ids:
            continue
        d = s.stats.delta
        a = max(0, int(np.ceil((lo - s.stats.starttime) / d + 0.51)))
        b = min(s.stats.npts, int(np.floor((hi - s.stats.starttime) / d - 0.51)) + 1)
        if b > a:
            got = sorted(seen.get(id(s), []))
            ok = len(got) == 1 and got[0][0] <= a and got[0][1] >= b
            obs.check(ok, "raw-incomplete", lambda: dict(segment=str(s), need=(a, b), got=got, window=(str(lo), str(hi)), **lab))


def judge_corrected(obs, st, raw, truth, units, wa, opt, inv, lab):
    velocity = units == "velocity"
    want = [tr for tr in raw if tr.data.max() != tr.data.min() and truth.get(tr.id) is not None and truth[tr.id][1](tr.stats.starttime)]
    key = lambda tr: (tr.id, tr.stats.starttime.ns // 1000, tr.stats.npts)
    g, w = sorted(map(key, st)), sorted(map(key, want))
    if not obs.check(g == w, "corrected-traces", lambda: dict(got=[str(t) for t in st], want=[str(t) for t in want], **lab)):
        return
    by = {key(t): t for t in st}
    for tr in want:
        got = by[key(tr)]
        ref = corrected(tr, truth[tr.id][0], velocity, wa, opt["water_level"], opt["pre_filt"], opt["full"], inv)
        obs.close("corrected-values", np.asarray(got.data, float), ref.data, atol=(3e-3 if tr.data.dtype == np.float32 else 1e-5) * np.abs(ref.data).max(), msg=str(dict(id=tr.id, velocity=velocity, wa=wa, **lab)))
        obs.count("corrected_traces")
    obs.count("left_out", len(raw) - len(want))


def build(rng, d, names, t0, dur, srs, extra=False, gaps=True, offgrid=True):
    """an archive and what it holds"""
    segs = []
    for s in names:
        sr = float(rng.choice(srs))
        n = int(dur * sr)
        off = (rng.random() / sr if offgrid and rng.random() < 0.5 else 0.0)
        off = round(off, 4)
        for ch in ["HHZ", "HHN", "HHE"][:int(rng.integers(1, 4))]:
            x = np.cumsum(rng.normal(0, 50, n))
            x = np.round(x - x.mean() + 20000 * np.exp(-0.5 * ((np.arange(n) / sr - dur * rng.uniform(0.3, 0.7)) / 0.1) ** 2))
            if rng.random() < 0.2:          # hardly any bits: many samples alike, the first and last of a window too
                x = np.round(x / 8000) * 8000 + np.where(np.arange(n) % 7 == 3, 8000, 0)
            x = x.astype(np.int32) if rng.random() < 0.7 else x.astype(np.float32)
            live = np.ones(n + 2, bool)
            live[[0, -1]] = False
            if gaps and rng.random() < 0.4:
                for _ in range(int(rng.integers(1, 3))):
                    g = int(rng.integers(n // 8, 7 * n // 8))
                    live[g:g + int(rng.integers(1, int(3 * sr)))] = False
            cuts = np.flatnonzero(np.diff(live.astype(int)))
            for a, b in zip(cuts[::2], cuts[1::2]):
                if b - a > 3:
                    segs.append(Trace(x[a:b].copy(), dict(network="XX", station=s, location="" if rng.random() < 2 else "00", channel=ch, sampling_rate=sr, starttime=t0 + off + a / sr)))
    if rng.random() < 0.3:
        segs[0].data[:] = 7          # a dead channel
    synth.write_archive(d, Stream(segs), "YEAR/JD/STATION")
    return segs


def faulty(rng, segs, t0, dur):
    """responses for each channel: dict id -> (sensor, usable at) or None, and the inventory"""
    truth, chans = {}, []
    for i in sorted({s.id for s in segs}):
        net, sta, loc, cha = i.split(".")
        s = sensor(rng)
        f = str(rng.choice(["ok", "ok", "ok", "missing", "nopaz", "nosens", "empty", "expired", "later", "epochs"]))
        a, b = UTCDateTime(2000, 1, 1), None
        if f == "missing":
            truth[i] = None
            continue
        if f in ("nopaz", "nosens", "empty"):
            truth[i] = None
        elif f == "expired":
            b, truth[i] = t0 - 1000, None
        elif f == "later":
            a, truth[i] = t0 + dur + 1000, None
        elif f == "epochs":        # an earlier instrument which must not be used
            chans.append((net, sta, loc, cha, response(sensor(rng)), a, t0 - 500))
            a, truth[i] = t0 - 500 + 0.001, (s, lambda t: True)
        else:
            truth[i] = (s, lambda t: True)
        chans.append((net, sta, loc, cha, response(s, f), a, b))
    if not chans:
        chans.append(("ZZ", "NONE", "", "HHZ", response(sensor(rng)), UTCDateTime(2000, 1, 1), None))
    return truth, inventory(chans)


def direct(case, rng, obs):
    """archive read, the processing done for an event, then the cut files"""
    from quakemigrate.io.core import Run
    from quakemigrate.io.cut_waveforms import write_cut_waveforms
    from quakemigrate.io.event import Event
    d = harness.case_dir()
    names = synth.station_names(int(rng.integers(1, 5)))
    t0 = [UTCDateTime(2020, 12, 31, 23, 59, 30), UTCDateTime(2021, 3, 1, 11)][int(rng.integers(0, 2))]
    dur = float(rng.integers(50, 110))
    segs = build(rng, d / "arch", names, t0, dur, [50, 100, 40])
    truth, inv = faulty(rng, segs, t0, dur)
    full = bool(rng.random() < 0.3)
    if full:           # the two ways differ in what they can use
        truth = {k: v for k, v in truth.items()}
    opt = dict(water_level=float(rng.choice([60.0, 40.0])), pre_filt=(0.05, 0.1, 12.0, 15.0) if rng.random() < 0.4 else None, full=full)
    listed = [s for s in names if rng.random() < 0.8] or names[:1]
    every = bool(rng.random() < 0.4)
    arch = synth.make_archive(d / "arch", pd.DataFrame({"Name": listed}), response_inv=inv, response_removal_params=dict(water_level=opt["water_level"], pre_filt=opt["pre_filt"], remove_full_response=full), read_all_stations=every,
                              resample=bool(rng.random() < 0.5), upfactor=5, interpolate=bool(rng.random() < 0.5))
    if full:
        # response stages alone decide what can be used here
        for i in list(truth):
            net, sta, loc, cha = i.split(".")
            sub = inv.select(network=net, station=sta, location=loc, channel=cha, time=t0 + 1)
            rr = [c.response for n_ in sub for s_ in n_ for c in s_]
            if truth[i] is None and len(rr) == 1 and rr[0].response_stages:
                truth[i] = "either"
    a = t0 + float(rng.uniform(8, 0.4 * dur))
    b = a + float(rng.uniform(8, 0.4 * dur))
    pp, qp = (float(rng.choice([0.0, rng.uniform(0, 8)])) for _ in "ab")
    try:
        data = arch.read_waveform_data(a, b, pp, qp)
    except Exception as e:
        if type(e).__name__ in ("DataGapException", "ArchiveEmptyException"):
            return
        raise
    lo0, hi0 = a - pp, b + qp
    want_ids = {s.id for s in segs if every or s.stats.station in listed}
    lab = dict(opt=opt, every=every)
    # the processing of an event: onset functions, amplitudes
    if rng.random() < 0.8:
        on = synth.make_onset(50)
        try:
            on.calculate_onsets(data)
        except Exception as e:
            if type(e).__name__ != "DataAvailabilityException":
                raise
    mags = rng.random() < 0.5
    if mags:
        for tr in data.raw_waveforms.copy():
            if tr.data.max() != tr.data.min():
                try:
                    w = data.get_wa_waveform(tr.copy().trim(a, b), velocity=False)
                    w.filter("bandpass", freqmin=2, freqmax=10)
                except Exception as e:
                    if type(e).__name__ not in ("ResponseNotFoundError", "ResponseRemovalError"):
                        raise
    ot = UTCDateTime(ns=(a + 0.5 * (b - a)).ns // 20_000_000 * 20_000_000) + float(rng.choice([0.0, 0.0033]))
    ev = Event(1.0, pd.Series({"EventID": c15.uid_of(ot), "CoaTime": ot, "TRIG_COA": 1.0, "COA": 1.0, "COA_NORM": 1.0}))
    ev.add_waveform_data(data)
    ev.otime = ot
    sub = "s" if rng.random() < 0.3 else ""
    run = Run(d, "run", sub, stage="locate")
    root = d / "run" / "locate" / sub
    cuts = [None, 0.0, float(rng.uniform(1, 20)), float(rng.uniform(0.5, 5))]
    pre, post = cuts[int(rng.integers(0, 4))], cuts[int(rng.integers(0, 4))]
    fmt = str(rng.choice(["MSEED", "MSEED", "MSEED", "SAC"]))
    kinds = {t.data.dtype for t in data.raw_waveforms if t.stats.npts}
    if kinds == {np.dtype("int32")} and rng.random() < 0.6:
        fmt = str(rng.choice(["GSE2", "SLIST"]))      # "all file formats supported by ObsPy"
    lo, hi = (ot - pre if pre else lo0), (ot + post if post else hi0)
    lo, hi = max(lo, lo0), min(hi, hi0)
    lab.update(pre=pre, post=post, mags=mags, otime=str(ot), fmt=fmt)
    units = {"real": str(rng.choice(["displacement", "velocity"])), "wa": str(rng.choice(["displacement", "velocity"]))}
    order = [k for k in ("raw", "real", "wa") if k == "raw" or (fmt != "GSE2" and rng.random() < 0.8)]
    for kind in order:
        write_cut_waveforms(run, ev, fmt, pre_cut=pre, post_cut=post, waveform_type=kind, units=units.get(kind, "displacement"))
    got = {}
    for kind in order:
        fs = sorted((root / f"{kind}_cut_waveforms").glob("*"))
        obs.check(all(p.name.startswith(ev.uid) and p.suffix == SUFFIX.get(fmt, ".waveforms") for p in fs), "cut-file-name", lambda: [p.name for p in fs])
        got[kind] = Stream()
        for p in fs:
            got[kind] += read(str(p))
    if fmt == "GSE2":      # no network code in this format
        for t in got["raw"]:
            t.stats.network, t.stats.location = (data.raw_waveforms.select(station=t.stats.station, channel=t.stats.channel) or Stream([t]))[0].id.split(".")[:3:2]
    obs.count("format_" + fmt)
    if fmt == "MSEED":
        judge_raw(obs, got["raw"], segs, lo, hi, want_ids, lab)
        tr32 = got["raw"]
    else:
        judge_raw(obs, got["raw"], segs, lo, hi, want_ids, lab, exact=False, tol=1.1e-3 if fmt == "GSE2" else 0.0)     # times in ms there
    for kind in order[1:]:
        if fmt != "MSEED":
            continue
        either = {i for i, v in truth.items() if v == "either"}
        st = Stream([t for t in got[kind] if t.id not in either])
        raw = Stream([t for t in got["raw"] if t.id not in either])
        judge_corrected(obs, st, raw, truth, units[kind], kind == "wa", opt, inv, dict(kind=kind, units=units[kind], **lab))
    obs.key("direct", bool(pre), bool(post), mags, every, full, tuple(order))
    obs.count("cut_files", len(order))


def located(case, rng, obs):
    """cut files of a real location run"""
    from quakemigrate.signal.local_mag import LocalMag
    d = harness.case_dir()
    w = synth.World(rng, d, n=5, nodes=(7, 7, 6), sr=50, duration=130, events=1, t0="2020-12-31T23:59:00", ev_times=[float(rng.choice([58.0, 61.0, 70.0]))], write=False)
    w.stream = synth.make_waveforms(rng, w.names, w.t0, w.duration, 50, w.events, noise=1.0)
    for tr in w.stream:
        tr.data = np.round(tr.data * 1000).astype(np.int32)
    off = float(rng.choice([0.0, 0.0, 0.007]))
    for tr in w.stream:
        tr.stats.starttime += off
    extra = w.stream[0].copy()
    extra.stats.station = "OTHER"
    segs = [t for t in w.stream] + [extra]
    synth.write_archive(w.archive_root, Stream(segs), w.fmt)
    segs = [Trace(t.data.copy(), t.stats.copy()) for t in segs]
    truth, inv = faulty(rng, segs, w.t0, 130)
    opt = dict(water_level=60.0, pre_filt=None, full=False)
    every = bool(rng.random() < 0.5)
    arch = w.archive(response_inv=inv, read_all_stations=every, interpolate=bool(off) and bool(rng.random() < 0.5))
    reads = []
    rd = arch.read_waveform_data

    def reading(a, b, pre_pad=0.0, post_pad=0.0):
        reads.append((a - max(pre_pad, 0), b + max(post_pad, 0)))
        return rd(a, b, pre_pad, post_pad)
    arch.read_waveform_data = reading
    mags = bool(rng.random() < 0.5)
    with synth.quiet():
        mg = LocalMag({"signal_window": 1.0, "noise_window": 1.0, "bandpass_filter": True, "bandpass_lowcut": 2.0, "bandpass_highcut": 15.0}, {"A0": "UK"}, plot_amplitudes=False) if mags else None
    units = {"real": str(rng.choice(["displacement", "velocity"])), "wa": str(rng.choice(["displacement", "velocity"]))}
    mw = float(rng.choice([0.5, 1.0]))
    kinds = ["raw", "real", "wa"]
    picker = None
    scan = synth.make_scan(arch, w.lut, synth.make_onset(50), d / "runs", name="r1", marginal_window=mw, mags=mg, write_cut_waveforms=True, write_real_waveforms=True, write_wa_waveforms=True,
                           real_waveform_units=units["real"], wa_waveform_units=units["wa"])
    cuts = [None, 3.0, 12.0, 40.0]
    scan.pre_cut, scan.post_cut = cuts[int(rng.integers(0, 4))], cuts[int(rng.integers(0, 4))]
    ev = w.events[0]
    x = w.coord(ev["ijk"])
    tt = ev["otime"] + float(rng.choice([-0.4, 0.0, 0.3])) * mw // 0.02 * 0.02
    row = dict(EventID=c15.uid_of(tt), CoaTime=str(tt), TRIG_COA=1.0, COA_X=x[0], COA_Y=x[1], COA_Z=x[2], COA=1.0, COA_NORM=1.0)
    c15.write_files(d / "runs" / "r1", "r1", "", [row], [tt])
    with synth.quiet(), np.errstate(all="ignore"):
        scan.locate(starttime=w.t0, endtime=w.t0 + 130)
    root = d / "runs" / "r1" / "locate"
    evf = list((root / "events").glob("*.event"))
    if not evf:
        obs.count("not_located")
        return
    ot = UTCDateTime(pd.read_csv(evf[0])["DT"][0])
    got = {}
    for k in kinds:
        fs = list((root / f"{k}_cut_waveforms").glob("*"))
        obs.check(k != "raw" or [p.name for p in fs] == [row["EventID"] + ".m"], "cut-file-name", lambda: [p.name for p in fs])
        got[k] = sum((read(str(p)) for p in fs), Stream())
    lo = ot - scan.pre_cut if scan.pre_cut else reads[0][0]
    hi = ot + scan.post_cut if scan.post_cut else reads[0][1]
    ids = {s.id for s in segs if every or s.stats.station != "OTHER"}
    # nearest samples are taken at each end, twice (reading, cutting)
    judge_raw(obs, got["raw"], segs, lo, hi, ids, dict(pre=scan.pre_cut, post=scan.post_cut, mags=mags, off=off), tol=0.0)
    for k in ("real", "wa"):
        judge_corrected(obs, got[k], got["raw"], truth, units[k], k == "wa", opt, inv, dict(kind=k, units=units[k], mags=mags, pre=scan.pre_cut, post=scan.post_cut))
    obs.key("located", scan.pre_cut, scan.post_cut, mags, every)
    obs.count("located")


def main(chk):
    chk.run(motion, [dict(id=f"m{i}") for i in range(chk.pick(120, 2500))])
    chk.run(direct, [dict(id=f"d{i}") for i in range(chk.pick(200, 4000))])
    chk.run(located, [dict(id=f"l{i}") for i in range(chk.pick(24, 400))])
    chk.require(motions=240, raw_traces=400, raw_samples=200000, corrected_traces=300, left_out=100, located=10)
    chk.rule = "cut waveform files against the archive and the instrument; a key is a distinct set of cuts, options and kinds of file"
