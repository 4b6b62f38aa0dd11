"""C29: options mean the same however they are given."""
import copy
import io
import shutil
import numpy as np
import pandas as pd
from obspy import UTCDateTime
from checks import c05, c10, c12, c15, c19
from qv import harness, synth, trigref

# what the documentation says an option is when it is left out
TRIGGER = dict(threshold_method="static", static_threshold=1.5, mad_window_length=3600.0, mad_multiplier=8.0, median_window_length=3600.0, median_multiplier=1.2, marginal_window=2.0,
               min_event_interval=4.0, normalise_coalescence=False, pad=120.0, smooth_coa=False, smoothing_kernel_sigma=0.2, smoothing_kernel_width=4.0, plot_trigger_summary=True,
               plot_all_stns=True, write_event_time_windows=False, xy_files=None)
SCAN = dict(timestep=120.0, marginal_window=2.0, threads=1, continuous_scanmseed_write=False, cut_waveform_format="MSEED", plot_event_summary=True, plot_all_stns=True, plot_event_video=False,
            write_cut_waveforms=False, write_marginal_coalescence=False, write_coalescence=False, write_real_waveforms=False, write_wa_waveforms=False, real_waveform_units="displacement",
            wa_waveform_units="displacement", xy_files=None)
ONSET = dict(position="classic", signal_transform="energy", min_onset_value=0.4, all_channels=False, allow_gaps=False, full_timespan=True, phases=["P", "S"])
PICKER = dict(threshold_method="MAD", mad_pick_threshold=8.0, percentile_pick_threshold=1.0, plot_picks=False, write_seed_ids=False)
ARCHIVE = dict(read_all_stations=False, resample=False, upfactor=None, interpolate=False)
RESPONSE = dict(water_level=60.0, pre_filt=None, remove_full_response=False)
AMPLITUDE = dict(signal_window=0.0, noise_window=5.0, noise_measure="RMS", loc_method="spline", highpass_filter=False, bandpass_filter=False, filter_corners=4, prominence_multiplier=0.0)
MAGNITUDE = dict(amp_feature="S_amp", use_hyp_dist=False, trace_filter=None, station_filter=None, dist_filter=False, pick_filter=False, noise_filter=1.0, weighted_mean=False,
                 station_corrections=None, amp_multiplier=1.0)


def subset(rng, d, p=0.4):
    return {k: copy.deepcopy(v) for k, v in d.items() if rng.random() < p}


def give(obs, how, make, opts, params=False):
    """Make an object with options given by keyword, in a dictionary, or assigned afterwards."""
    if how == "keyword":
        return make(**copy.deepcopy(opts))
    x = make()
    for k, v in opts.items():
        setattr(x, k, copy.deepcopy(v))
    return x


# ---- onset functions -------------------------------------------------------------------

def waveforms(rng, sr):
    from quakemigrate.io.data import WaveformData
    names = synth.station_names(3)
    t0 = UTCDateTime(2020, 1, 1) + 10
    n = int(24 * sr) + 1
    st, _ = c05.make_traces(rng, names, sr, t0, n, ["ok"] * 5 + ["missing", "gap", "late"], t_chans=["HHZ", "HHN", "HHE"])
    from obspy import Stream

    def data():
        w = WaveformData(t0, t0 + (n - 1) / sr, stations=pd.Series(names))
        w.waveforms = Stream([t.copy() for t in st])
        return w
    return data


def outcome(onset, data, ttmax, span):
    """Everything an onset object does, as comparable values."""
    import quakemigrate.util as util
    with synth.quiet():
        onset.post_pad = ttmax
        out = dict(pads=[float(v) for v in onset.pad(span)], pre=float(onset.pre_pad), post=float(onset.post_pad), phases=list(onset.phases), sr=onset.sampling_rate)
        out["halfwidth"] = [float(onset.gaussian_halfwidth(p)) for p in onset.phases]
        try:
            x, d = onset.calculate_onsets(data(), timespan=span if span < 18 else None)
            out["onsets"] = np.array(x)
            out["availability"] = dict(d.availability)
            out["named"] = {(s, p): np.array(v) for s, q in d.onsets.items() for p, v in q.items()}
        except util.DataAvailabilityException:
            out["none"] = True
    return out


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    return a == b


def differ(a, b):
    return [k for k in set(a) | set(b) if k not in a or k not in b or not same(a[k], b[k])]


def onsets(case, rng, obs):
    from quakemigrate.signal.onsets import CentredSTALTAOnset, ClassicSTALTAOnset, STALTAOnset
    for _ in range(case["k"]):
        sr = int(rng.choice([20, 25, 50]))
        cfg = c05.random_cfg(rng, sr)
        cfg.pop("post_pad")
        opts = {k: v for k, v in cfg.items() if rng.random() < 0.6}
        for p in "PS":
            if max(v[1] for v in cfg["bandpass_filters"].values()) >= 0.5 * sr:
                opts.pop("bandpass_filters", None)
        if sr < 40 and "bandpass_filters" not in opts:
            opts["bandpass_filters"] = {"P": [1.0, 8.0, 2], "S": [0.7, 6.0, 3]}
        data, ttmax, span = waveforms(rng, sr), float(rng.uniform(0.5, 9)), float(rng.choice([8.0, 14.0, 60.0]))
        info = dict(sr=sr, options=opts)
        mk = lambda cls=STALTAOnset, **kw: cls(sampling_rate=sr, **kw)
        forms = {}
        with synth.quiet():
            forms["keyword"] = give(obs, "keyword", mk, opts)
            forms["attribute"] = give(obs, "attribute", mk, opts)
            full = {**ONSET, **opts}
            forms["defaults spelt out"] = give(obs, "keyword", mk, full)
            forms["defaults assigned"] = give(obs, "attribute", mk, full)
            # names of earlier versions
            old, rest = {}, dict(opts)
            if "position" in rest:
                old["onset_centred"] = rest.pop("position") == "centred"
            for k, a in (("bandpass_filters", "bp_filter"), ("sta_lta_windows", "onset_win")):
                if k in rest:
                    v = rest.pop(k)
                    old.update({f"{p.lower()}_{a}": v[p] for p in "PS"})
            if old:
                forms["old keyword"] = give(obs, "keyword", mk, {**rest, **old})
                forms["old attribute"] = give(obs, "attribute", mk, {**rest, **old})
                for k, v in old.items():
                    for f in ("keyword", "old keyword", "old attribute"):
                        got = getattr(forms[f], k)
                        obs.check(got == (v if k != "onset_centred" else got) and (k != "onset_centred" or (got in ("centred", True)) == v), "old_name/read", f"{k} of an onset given by {f} reads {got}, expected {v}", **info)
            cls = CentredSTALTAOnset if full["position"] == "centred" else ClassicSTALTAOnset
            forms["old class"] = cls(sampling_rate=sr, **{k: copy.deepcopy(v) for k, v in opts.items() if k != "position"})
        ref = outcome(forms["keyword"], data, ttmax, span)
        obs.count("onset_values", ref["onsets"].size if "onsets" in ref else 0)
        for f, x in forms.items():
            with obs.no_raise(f"onset/{f}", str(info)):
                got = outcome(x, data, ttmax, span)
                obs.check(same(ref, got), f"onset/{f}", lambda: f"{differ(ref, got)} differ between options given by keyword and as {f}", **info)
            obs.count("onset_forms")
        summary(obs, forms["attribute"], [str(sr), full["position"], *full["phases"]], info)
        obs.key("onset", tuple(sorted(opts)), sr)
    obs.sample = info


def summary(obs, x, words, info, f=str):
    """The printed description of an object names what it will use."""
    with obs.no_raise("summary", f"{type(x).__name__} {info}"):
        t = f(x)
        missing = [w for w in words if w not in t]
        obs.check(not missing, f"summary/{type(x).__name__}", lambda: f"{missing} not named in the summary:\n{t}", **info)
        obs.count("summaries")


# ---- triggers ---------------------------------------------------------------------------

def triggers(case, rng, obs):
    d = harness.case_dir()
    sr = int(rng.choice([10, 25]))
    lut = c12.lut_for("km")
    n = sr * int(rng.integers(80, 200))
    x = c12.stream(rng, n, sr, str(rng.choice(["bursts", "mix", "long", "spikes"])))
    y = 1 + (x - 1) * rng.uniform(0.3, 1.0, n)
    base = UTCDateTime("2021-02-03T04:05:06")
    s = trigref.Scan(base, sr, x, y, -17 + rng.uniform(-1, 1, n), 64.5 + rng.uniform(-1, 1, n), rng.uniform(-1, 15, n), 1000.0)
    s.write(d / "stored")
    mw = float(rng.choice([0.5, 1.0, 2.0, 3.0]))
    opts = {k: v for k, v in dict(marginal_window=mw, min_event_interval=2 * mw + float(rng.choice([0, 0.5, 2.0])), threshold_method=str(rng.choice(["static", "mad", "median_ratio"])),
                                  static_threshold=float(rng.choice([1.2, 1.5, 2.0])), mad_window_length=float(rng.choice([20, 60, 3600.0])), mad_multiplier=float(rng.choice([4.0, 8.0])),
                                  median_window_length=float(rng.choice([20, 60, 3600.0])), median_multiplier=float(rng.choice([1.1, 1.3])), normalise_coalescence=bool(rng.random() < 0.5),
                                  pad=float(rng.choice([5.0, 30.0])), smooth_coa=bool(rng.random() < 0.5), smoothing_kernel_sigma=float(rng.choice([0.1, 0.5])),
                                  smoothing_kernel_width=float(rng.choice([2.0, 5.0])), write_event_time_windows=bool(rng.random() < 0.5)).items() if rng.random() < 0.6}
    if "marginal_window" in opts and mw > 2:
        opts["min_event_interval"] = opts.get("min_event_interval", 2 * mw)
    if "min_event_interval" in opts and "marginal_window" not in opts:
        opts["min_event_interval"] = max(4.0, opts["min_event_interval"])
    full = {**TRIGGER, **opts}
    if full["min_event_interval"] < 2 * full["marginal_window"]:
        return
    info = dict(sr=sr, options=opts)
    old = dict(opts)
    if "min_event_interval" in old:
        old["minimum_repeat"] = old.pop("min_event_interval")
    if old.get("threshold_method") == "mad":
        old["threshold_method"] = "dynamic"
    off = dict(plot_trigger_summary=False)
    first = None
    i0, i1 = int(rng.integers(0, n // 3)), n - 1 - int(rng.integers(0, n // 3))
    forms = [("keyword", "keyword", opts), ("attribute", "attribute", opts), ("defaults spelt out", "keyword", {**full, **off}), ("defaults assigned", "attribute", {**full, **off})]
    if old != opts:
        forms += [("old keyword", "keyword", old), ("old attribute", "attribute", old)]
    for f, how, o in forms:
        name = f.replace(" ", "_")
        shutil.copytree(d / "stored" / "run" / "detect" if (d / "stored" / "run").exists() else d / "stored" / "detect", d / name / "detect")
        from quakemigrate.signal import Trigger
        t = None
        with obs.no_raise(f"trigger/{f}", str(info)), synth.quiet():
            t = give(obs, how, lambda **kw: Trigger(lut, run_path=str(d), run_name=name, **kw), o if f.startswith("defaults") else o)
            t.plot_trigger_summary = False
            t.trigger(str(s.time(i0)), str(s.time(i1)))
        if t is None:
            continue
        out = {p.name.replace(name, "run"): p.read_bytes() for p in (d / name / "trigger").rglob("*.csv")}
        obs.count("trigger_forms")
        if first is None:
            first = out
            obs.check(len(out) > 0, "trigger/files", "no triggered-event file was written", **info)
            obs.count("triggered", sum(v.count(b"\n") - 1 for v in out.values()))
        else:
            obs.check(out == first, f"trigger/{f}", lambda: f"triggered events differ between options given by keyword and as {f}:\n{list(first.values())[:1]}\n{list(out.values())[:1]}", **info)
        if "minimum_repeat" in o:
            obs.check(t.minimum_repeat == full["min_event_interval"] == t.min_event_interval, "old_name/read", f"minimum_repeat reads {t.minimum_repeat}", **info)
        th = full["threshold_method"]
        summary(obs, t, [th, str(full["marginal_window"]), str(full["min_event_interval"]), str(full["pad"]), str(full[{"static": "static_threshold", "mad": "mad_multiplier", "median_ratio": "median_multiplier"}[th]]),
                         *([str(full["smoothing_kernel_sigma"]), str(full["smoothing_kernel_width"])] if full["smooth_coa"] else [])], info)
    obs.key("trigger", tuple(sorted(opts)), full["threshold_method"])
    obs.sample = info


# ---- detect and locate ------------------------------------------------------------------

def runs(case, rng, obs):
    from obspy.core import AttribDict
    from quakemigrate import QuakeScan
    from quakemigrate.io import Archive
    from quakemigrate.signal.local_mag import LocalMag
    from quakemigrate.signal.onsets import STALTAOnset
    from quakemigrate.signal.pickers import GaussianPicker
    import pickle
    d = harness.case_dir()
    w = c10.world(rng, d, nev=1, dur=110.0)
    with open(d / "inv.pkl", "rb") as f:
        inv = pickle.load(f)
    sr, hi = w.sr, min(12.0, 0.4 * w.sr)
    on = dict(position=str(rng.choice(["classic", "centred"])), phases=list(w.phases), bandpass_filters={"P": [2.0, hi, 2], "S": [2.0, 0.9 * hi, 3]},
              sta_lta_windows={"P": [0.2, 1.0], "S": [0.3, 1.2]}, signal_transform=str(rng.choice(["energy", "env_squared"])))
    th = str(rng.choice(["MAD", "percentile"]))
    pick = dict(threshold_method=th)
    if rng.random() < 0.7:
        pick.update(dict(mad_pick_threshold=float(rng.choice([3.0, 12.0]))) if th == "MAD" else dict(percentile_pick_threshold=float(rng.choice([0.9, 0.99]))))
    pick.update(subset(rng, dict(write_seed_ids=True, plot_picks=False), 0.5))
    if rng.random() < 0.3:
        pick["fraction_tt"] = 0.2
    amp = dict(AMPLITUDE, signal_window=float(rng.choice([0.5, 1.0])), noise_window=float(rng.choice([2.0, 5.0])), noise_measure=str(rng.choice(["RMS", "STD", "ENV"])))
    if rng.random() < 0.5:
        amp.update(bandpass_filter=True, bandpass_lowcut=2.0, bandpass_highcut=0.3 * sr)
    elif rng.random() < 0.5:
        amp.update(highpass_filter=True, highpass_freq=3.0)
    amp = {k: v for k, v in amp.items() if v != AMPLITUDE.get(k) or rng.random() < 0.3}
    mag = dict(A0=str(rng.choice(["UK", "Hutton-Boore"])), **subset(rng, dict(amp_feature="P_amp", use_hyp_dist=True, noise_filter=2.0, weighted_mean=True, amp_multiplier=2.0), 0.4))
    resp = subset(rng, dict(water_level=30.0, pre_filt=[0.05, 0.1, 0.35 * sr, 0.45 * sr]), 0.5)
    arch = subset(rng, dict(resample=True, upfactor=2, interpolate=True, read_all_stations=True), 0.3)
    if "upfactor" in arch and not arch.get("resample"):
        arch.pop("upfactor")
    sc = dict(marginal_window=float(rng.choice([0.6, 1.0])), **subset(rng, dict(threads=2, write_cut_waveforms=True, write_wa_waveforms=True, wa_waveform_units="velocity", write_marginal_coalescence=True, write_real_waveforms=True), 0.4))
    ts = float(rng.choice([8.0, 16.0]))
    info = dict(onset=on, picker=pick, amplitude=amp, magnitude=mag, response=resp, archive=arch, scan=sc, timestep=ts)
    t = UTCDateTime(ns=int(round((w.events[0]["otime"].ns - w.t0.ns) / 1e9 * sr + rng.integers(-5, 6))) * int(1e9) // sr + w.t0.ns)
    f = d / "t.csv"
    pd.DataFrame([dict(EventID=c15.uid_of(t), CoaTime=str(t), TRIG_COA=3.0, COA_X=-17.0, COA_Y=64.5, COA_Z=1.0, COA=5.0, COA_NORM=2.0)]).to_csv(f, index=False)
    beg = w.t0 + 12.0
    end = beg + 3 * ts - 1 / sr

    def archive(how):
        a = dict(archive_path=str(d / "archive"), stations=w.stations.copy())
        if how == "keyword":
            return Archive(archive_format=w.fmt, response_inv=inv, response_removal_params=dict(resp), **a, **arch)
        if how == "defaults":
            return Archive(archive_format=w.fmt, response_inv=inv, response_removal_params=AttribDict({**RESPONSE, **resp}), **a, **{**ARCHIVE, **arch})
        x = Archive(**a)
        x.path_structure(w.fmt)
        x.response_inv = inv
        for k, v in {**arch, **resp}.items():
            setattr(x, k, v)
        return x

    def mags(how):
        if how == "keyword":
            return LocalMag(dict(amp), dict(mag), plot_amplitudes=False)
        if how == "defaults":
            return LocalMag(amp_params=AttribDict({**AMPLITUDE, **amp}), mag_params={**MAGNITUDE, **mag}, plot_amplitudes=False)
        m = LocalMag({}, {"A0": mag["A0"]})
        m.plot = False
        for k, v in amp.items():
            setattr(m.amp, k, v)
        for k, v in mag.items():
            setattr(m.mag, k, v)
        return m

    ref, refd = None, None
    for how in ("keyword", "attribute", "defaults", "old"):
        with obs.no_raise(f"run/{how}", str(info)), synth.quiet():
            ar = archive({"old": "keyword"}.get(how, how))
            full = {**ONSET, **on}
            so = lambda: give(obs, how if how == "attribute" else "keyword", lambda **kw: STALTAOnset(sampling_rate=sr, **kw), full if how == "defaults" else on)
            p = dict(pick)
            if how == "defaults":
                p = {**{k: v for k, v in PICKER.items() if not k.startswith("percentile" if th == "MAD" else "mad")}, **pick}
            pk = give(obs, how if how == "attribute" else "keyword", lambda **kw: GaussianPicker(onset=so(), **kw), p)
            mg = mags({"old": "keyword"}.get(how, how))
            for stage in ("detect", "locate"):
                o = dict(sc) if stage == "locate" else dict(timestep=ts, threads=sc.get("threads", 1))
                if how == "defaults":
                    o = {**SCAN, **o}
                elif how == "old":
                    o = {{"timestep": "time_step", "threads": "n_cores"}.get(k, k): v for k, v in o.items()}
                    o["sampling_rate"] = sr
                mk = lambda **kw: QuakeScan(ar, w.lut, onset=so(), run_path=str(d), run_name=how, picker=pk, mags=mg, **kw)
                s = give(obs, how if how in ("attribute",) else "keyword", mk, o)
                if how == "old" and rng.random() < 0.5:      # assigned under the old names
                    s = give(obs, "attribute", mk, o)
                s.plot_event_summary = False
                if how == "old":
                    k, v = ("time_step", ts) if stage == "detect" else ("n_cores", sc.get("threads", 1))
                    obs.check(getattr(s, k) == v and s.sampling_rate == sr and s.scan_rate == sr, "old_name/read", f"{k} reads {getattr(s, k)}", **info)
                if stage == "detect":
                    s.detect(str(beg), str(end))
                else:
                    s.locate(trigger_file=str(f))
                summary(obs, s, [str(sr), str(ts if stage == "detect" else sc["marginal_window"])], info)
            summary(obs, ar, [str(d / "archive"), *w.names, str(resp.get("water_level", 60.0))], info)
            summary(obs, mg, [mag["A0"], amp.get("noise_measure", "RMS"), str(amp.get("noise_window", 5.0)), mag.get("amp_feature", "S_amp")], info)
            summary(obs, pk, ["20.0%"] if "fraction_tt" in pick else [], info)
            det = c10.stored(d, how, w)
            loc = c10.tables(d / how, "locate")
            cut = {str(q.relative_to(d / how)): q.read_bytes() for q in sorted((d / how / "locate").rglob("*")) if q.is_file() and "waveforms" in str(q.relative_to(d / how))}
            obs.count("run_forms")
            if ref is None:
                ref, refd, refc = loc, det, cut
                obs.count("located", sum(k.endswith(".event") for k in loc))
                obs.count("cut_files", len(cut))
                continue
            for c in refd:
                obs.check(refd[c].index.equals(det[c].index) and np.array_equal(refd[c].values, det[c].values), f"run/{how}/detect", lambda: f"stored {c} differs between options given by keyword and as {how}", **info)
            bad = [k for k in {**ref, **loc} if ref.get(k) != loc.get(k)]
            obs.check(not bad, f"run/{how}/locate", lambda: f"{bad} differ between options given by keyword and as {how}: {ref.get(bad[0], b'')[:500]!r} {loc.get(bad[0], b'')[:500]!r}", **info)
            bad = [k for k in {**refc, **cut} if refc.get(k) != cut.get(k)]
            obs.check(not bad, f"run/{how}/cut", lambda: f"{bad} differ between options given by keyword and as {how}", **info)
    obs.key("run", th, tuple(sorted(pick)), tuple(sorted(amp)), tuple(sorted(mag)), tuple(sorted(sc)))
    obs.sample = info


# ---- magnitudes, tables -------------------------------------------------------------------

def magnitudes(case, rng, obs):
    from obspy.core import AttribDict
    from quakemigrate.signal.local_mag import LocalMag
    for _ in range(case["k"]):
        df, filtered, names = c19.table(rng, obs)
        p = c19.params(rng, names, obs)
        p.pop("r2_only_used", None)
        info = dict(params={a: repr(b)[:80] for a, b in p.items()})
        ref = None
        for how in ("dictionary", "attribute", "defaults", "attribdict"):
            with obs.no_raise(f"magnitude/{how}", str(info)), np.errstate(all="ignore"), synth.quiet():
                if how == "attribute":
                    m = LocalMag({}, {"A0": "UK"}).mag
                    for k, v in p.items():
                        setattr(m, k, copy.deepcopy(v))
                else:
                    q = {"dictionary": dict, "defaults": lambda x: {**MAGNITUDE, **x}, "attribdict": AttribDict}[how](copy.deepcopy(p))
                    m = LocalMag({}, q).mag
                c = m.calculate_magnitudes(df.copy(deep=True))
                out = [repr(float(v)) for v in m.mean_magnitude(c.copy(deep=True))[:3]], c.to_csv()
                obs.count("magnitude_forms")
                if ref is None:
                    ref = out
                obs.check(out == ref, f"magnitude/{how}", lambda: f"{out[0]} against {ref[0]} with options given as {how}", **info)
                summary(obs, m, [str(p["A0"]), p.get("amp_feature", "S_amp"), *(str(p[k]) for k in ("trace_filter", "dist_filter", "station_filter") if p.get(k))], info)
        obs.key("magnitude", tuple(sorted(p)))
    obs.sample = info


def luts(case, rng, obs):
    from quakemigrate.io import read_lut, read_stations, stations
    from quakemigrate.lut import LUT
    import re
    from checks import c20
    d = harness.case_dir()
    for k in range(case["k"]):
        spec, nodes, spacing, units, f = c20.random_grid(rng)
        if np.prod(nodes) > 4000:
            continue
        st = synth.stations_df(rng, spec, 2, units=units)
        frac = float(rng.choice([0.1, 0.05, 0.3]))
        g = synth.make_lut(spec, st.copy(), 5 * f, 3 * f, **({} if frac == 0.1 else dict(fraction_tt=frac)), save_file=str(d / f"t{k}.lut"))
        info = dict(nodes=nodes.tolist(), units=units)
        with obs.no_raise("table", str(info)), synth.quiet():
            a, b, c = read_lut(str(d / f"t{k}.lut")), LUT(lut_file=str(d / f"t{k}.lut")), LUT()
            c.load(str(d / f"t{k}.lut"))
            for how, x in (("read_lut", a), ("LUT(lut_file)", b), ("load", c)):
                ok = (np.array_equal(x.node_count, g.node_count) and np.array_equal(x.node_spacing, g.node_spacing) and np.array_equal(x.ll_corner, g.ll_corner) and x.fraction_tt == frac and list(x.phases) == ["P", "S"]
                      and all(np.array_equal(x.traveltimes[s][p], g.traveltimes[s][p]) for s in st["Name"] for p in "PS") and x.max_traveltime == g.max_traveltime)
                obs.check(ok, f"table/{how}", f"a table read back with {how} is not the one saved", **info)
                obs.count("table_forms")
            obs.check(np.array_equal(a.cell_count, a.node_count) and np.array_equal(a.cell_size, a.node_spacing), "old_name/read", "cell_count or cell_size", **info)
            b.cell_count, b.cell_size = [4, 5, 6], [1.0, 2.0, 3.0]
            c.node_count, c.node_spacing = [4, 5, 6], [1.0, 2.0, 3.0]
            obs.check(np.array_equal(b.node_count, [4, 5, 6]) and np.array_equal(b.node_spacing, [1, 2, 3]) and np.array_equal(np.stack(b.grid_xyz), np.stack(c.grid_xyz)), "old_name/set", "cell_count or cell_size", **info)
        # the printed summary says where the grid is
        with obs.no_raise("summary", str(info)):
            t = str(g)
            lo, hi = (g.index2coord([v])[0] for v in ([0, 0, 0], list(np.array(g.node_count) - 1)))
            rows = re.findall(r"corner.*?(-?[\d.]+)\s*°N\s*(-?[\d.]+)\s*°E\s*(-?[\d.]+)\s*(\w+)", t)
            if obs.check(len(rows) == 2, "summary/LUT", f"corners not named:\n{t}", **info):
                for r, p in zip(rows, (lo, hi)):
                    obs.check(abs(float(r[0]) - p[1]) < 1.1e-5 and abs(float(r[1]) - p[0]) < 1.1e-5 and abs(float(r[2]) - p[2]) < 1.1e-3 and r[3] == units, "summary/LUT",
                              f"corner at {p[1]:.5f}N {p[0]:.5f}E {p[2]:.3f} {units} printed as {r}", **info)
            vel = re.findall(r"V([ps]) =\s*([\d.]+) (\S+)", t)
            obs.check([(v[0], float(v[1]), v[2]) for v in vel] == [("p", 5 * f, f"{units}/s"), ("s", 3 * f, f"{units}/s")], "summary/LUT", f"velocities printed as {vel}", **info)
            obs.count("summaries")
        # station files
        q = d / f"s{k}.csv"
        st.to_csv(q, index=False)
        with synth.quiet():
            x, y = read_stations(str(q)), stations(str(q))
        obs.check(x.equals(y), "stations", "stations() and read_stations() differ", **info)
        obs.key("table", tuple(nodes.tolist()), units)
    obs.sample = info


def plain(d):
    """What objects made without any option are and do, to be compared at two points of a process."""
    from quakemigrate import QuakeScan
    from quakemigrate.io import Archive
    from quakemigrate.signal import Trigger
    from quakemigrate.signal.local_mag import LocalMag
    from quakemigrate.signal.onsets import STALTAOnset
    from quakemigrate.signal.pickers import GaussianPicker
    lut = c12.lut_for("km")
    out = {}
    with synth.quiet():
        on = STALTAOnset(sampling_rate=50)
        ar = Archive(archive_path=str(d), stations=lut.station_data, archive_format="YEAR/JD/STATION")
        for n, x, want in (("onset", on, [*ONSET, "bandpass_filters", "sta_lta_windows", "channel_maps", "channel_counts"]), ("archive", ar, {**ARCHIVE, **RESPONSE}), ("picker", GaussianPicker(onset=on), PICKER),
                           ("scan", QuakeScan(ar, lut, onset=on, run_path=str(d), run_name="r"), SCAN), ("trigger", Trigger(lut, run_path=str(d), run_name="r"), TRIGGER)):
            out.update({f"{n}.{k}": repr(getattr(x, k)) for k in want if hasattr(x, k)})
            out[f"str({n})"] = str(x)
        m = LocalMag({}, {"A0": "UK"})
        out.update({f"{n}.{k}": repr(getattr(x, k)) for n, x, want in (("amp", m.amp, AMPLITUDE), ("mag", m.mag, MAGNITUDE)) for k in want})
        out["str(mags)"] = str(m)
    return out


def steady(fn):
    """The defaults are the same after the options of a case have been given as they were before."""
    def wrapped(case, rng, obs):
        d = harness.case_dir() / "plain"
        d.mkdir()
        before = plain(d)
        fn(case, rng, obs)
        # a user's change to the settings of one object is a change to that object
        from quakemigrate.signal.onsets import STALTAOnset
        with synth.quiet():
            x = STALTAOnset(sampling_rate=50)
            x.bandpass_filters["P"] = [3.0, 9.0, 3]
            x.sta_lta_windows["S"] = [0.3, 2.0]
            x.channel_counts["S"] = 1
            x.channel_maps["S"] = "*N"
        after = plain(d)
        for k in before:
            obs.check(before[k] == after.get(k), "default_changed", lambda: f"{k} without options was {before[k]} and is, after other objects were given options, {after.get(k)}")
        obs.count("defaults_again", len(before))
    wrapped.__name__ = fn.__name__
    return wrapped


def defaults(case, rng, obs):
    """The documented defaults, as the objects show them."""
    from quakemigrate import QuakeScan
    from quakemigrate.io import Archive
    from quakemigrate.lut import LUT
    from quakemigrate.signal import Trigger
    from quakemigrate.signal.local_mag import LocalMag
    from quakemigrate.signal.onsets import STALTAOnset
    from quakemigrate.signal.pickers import GaussianPicker
    d = harness.case_dir()
    lut = c12.lut_for("km")
    with synth.quiet():
        on = STALTAOnset(sampling_rate=50)
        ar = Archive(archive_path=str(d), stations=lut.station_data, archive_format="YEAR/JD/STATION")
        m = LocalMag({}, {"A0": "UK"})
        pk = GaussianPicker(onset=on)
        pp = GaussianPicker(onset=on, threshold_method="percentile")
        s = QuakeScan(ar, lut, onset=on, run_path=str(d), run_name="r")
        objs = [("Trigger", Trigger(lut, run_path=str(d), run_name="r"), TRIGGER), ("QuakeScan", s, SCAN), ("STALTAOnset", on, ONSET),
                ("GaussianPicker", pk, {k: v for k, v in PICKER.items() if not k.startswith("percentile")}), ("GaussianPicker", pp, {"percentile_pick_threshold": 1.0}),
                ("Archive", ar, {**ARCHIVE, **RESPONSE}), ("Amplitude", m.amp, AMPLITUDE), ("Magnitude", m.mag, {k: v for k, v in MAGNITUDE.items() if k != "station_corrections"}),
                ("LocalMag", m, dict(plot=True)), ("LUT", lut, dict(fraction_tt=0.1))]
    for n, x, want in objs:
        for k, v in want.items():
            got = getattr(x, k)
            obs.check(got == v, f"default/{n}.{k}", f"left out, {n}.{k} is {got!r}; documented default {v!r}")
            obs.count("defaults")
            obs.key("default", n, k)
    obs.check(isinstance(s.picker, GaussianPicker) and s.mags is None, "default/QuakeScan.picker", f"{s.picker!r} {s.mags!r}")
    obs.check(not m.mag.station_corrections, "default/Magnitude.station_corrections", f"{m.mag.station_corrections!r}")


def main(chk):
    chk.run(defaults, [dict(id="defaults")])
    chk.run(steady(onsets), [dict(id=f"o{i}", k=4) for i in range(chk.pick(24, 600))])
    chk.run(steady(triggers), [dict(id=f"t{i}") for i in range(chk.pick(40, 1000))])
    chk.run(steady(runs), [dict(id=f"r{i}") for i in range(chk.pick(24, 400))])
    chk.run(steady(magnitudes), [dict(id=f"m{i}", k=12) for i in range(chk.pick(8, 200))])
    chk.run(steady(luts), [dict(id=f"l{i}", k=4) for i in range(chk.pick(8, 200))])
    chk.require(defaults=60, defaults_again=4000, onset_forms=300, onset_values=10 ** 5, trigger_forms=100, triggered=20, run_forms=60, located=12, cut_files=10, magnitude_forms=200, table_forms=40, summaries=400)
    chk.rule = "the same random options given in each accepted way, left out or spelt out; a key is a distinct set of options given"
