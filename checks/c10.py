"""C10: threads, chunking, ordering and output options never change results."""
import shutil
import numpy as np
import pandas as pd
from obspy import UTCDateTime
from checks import c15, c23
from qv import harness, pipe, repo, stage, synth

TOL = 1e-3
LIB = [None]


def lib():
    if LIB[0] is None:
        LIB[0] = repo.SCRATCH / "build_release/quakemigrate/core/src" / ("qmlib" + repo.EXT)
    return LIB[0]


def write_xy(rng, d):
    f = d / "outline.csv"
    f.write_text("# an outline\n" + "\n".join(f"{-17 + x:.4f},{64.5 + y:.4f}" for x, y in rng.normal(0, 0.02, (5, 2))) + "\n")
    g = d / "xy.csv"
    g.write_text(f"{f},black,0.5,-\n")
    return str(g)


def faults(rng, w, gaps):
    """Take some of the data away: whole stations, components, dead channels, gaps."""
    out = []
    st = w.stream.copy()
    for n in rng.choice(w.names, int(rng.integers(0, 3)), replace=False):
        what = str(rng.choice(["station", "Z", "horizontals", "N", "dead", "zero", "gap" if gaps else "station"]))
        out.append((str(n), what))
        for tr in list(st.select(station=n)):
            c = tr.stats.channel[-1]
            if what == "station" or what == c or what == "horizontals" and c in "NE":
                st.remove(tr)
            elif what in ("dead", "zero") and c == "Z":
                tr.data[:] = 0 if what == "zero" else 17
            elif what == "gap":
                e = (w.events[-1]["otime"] if w.events else w.t0 + 60) + float(rng.uniform(-12, 8))
                st.remove(tr)
                st.extend([t for t in (tr.slice(endtime=e), tr.slice(starttime=e + 1.3)) if t.stats.npts > 1])
    if out:
        shutil.rmtree(w.archive_root)
        synth.write_archive(w.archive_root, st, w.fmt)
    return out


def world(rng, d, nev=2, dur=110.0, gaps=False, at=None, **kw):
    sr = int(rng.choice([25, 50]))
    t0 = str(rng.choice(["2020-01-01T00:00:00", "2021-12-31T23:59:20", "2020-06-15T12:34:56"]))
    t0 = at or t0
    nodes = tuple(int(v) for v in rng.integers(6, 9, 3))
    w = synth.World(rng, d, n=int(rng.integers(5, 8)), nodes=nodes, sr=sr, t0=t0, duration=dur, events=nev, amp=40.0,
                    units=str(rng.choice(["km", "m"])), margin=32.0, fmt=str(rng.choice(["YEAR/JD/STATION", "SeisComp3", "YEAR_JD/STATION_*"])), **kw)
    w.faults = faults(rng, w, gaps)
    w.phases = [["P", "S"], ["P", "S"], ["P", "S"], ["P"], ["S"]][int(rng.integers(5))]
    chans = []
    for n in w.names:
        for ch in "ZNE":
            s = c23.sensor(rng, "M/S")
            chans.append(("XX", n, "", f"HH{ch}", c23.response(s, sr=sr), UTCDateTime(2000, 1, 1), None))
    stage.save_world(w, d, c23.inventory(chans))
    return w


def stored(d, name, w, obs=None):
    """Values of every channel by sample number."""
    got, dup, mis, _ = pipe.collect(d / name, w.t0, w.sr, ucf=1.0)
    if obs is not None:
        obs.check(dup == 0, "stored_twice", f"{name}: {dup} samples stored twice")
    return {c: pd.Series(v).sort_index() for c, v in got.items()}


def scans(case, rng, obs):
    d = harness.case_dir()
    w = world(rng, d)
    sr = w.sr
    ts = float(rng.choice([8.0, 12.0, 16.0]))
    beg = w.t0 + 12.0
    nst = int(80 // ts)
    end = beg + nst * ts - 1 / sr
    base = dict(sr=sr, fmt=w.fmt, start=str(beg), end=str(end), position=str(rng.choice(["classic", "centred"])), phases=w.phases,
                allow_gaps=bool(rng.random() < 0.3), scan=dict(timestep=ts, threads=1))

    def variant(**kw):
        o = dict(base, **{k: v for k, v in kw.items() if k != "scan"})
        o["scan"] = dict(base["scan"], **kw.get("scan", {}))
        return o
    stage.run(d, "base", "detect", base)
    ref = stored(d, "base", w, obs)
    av = pipe.read_availability_files(d / "base")
    n = len(ref["COA"])
    info0 = dict(faults=w.faults, phases=w.phases, sr=sr, timestep=ts, start=str(beg), position=base["position"])
    obs.check(n == int(round(nst * ts * sr)), "samples", f"{n} samples stored, expected {nst * ts * sr}", **info0)
    obs.count("scan_worlds")
    obs.sample = dict(id=case["id"], samples=n, **info0)
    exact = [("threads", dict(scan=dict(threads=int(t)))) for t in rng.choice([2, 3, 4, 7, 8, 16], 2, replace=False)]
    exact += [("threads_again", dict(scan=dict(threads=8)))]
    exact += [[("continuous_write", dict(scan=dict(continuous_scanmseed_write=True, threads=int(rng.integers(1, 9)))))],
              [("log", dict(logging=True, scan=dict(log=True, loglevel="debug")))],
              [("plot_options", dict(scan=dict(plot_event_summary=True, plot_all_stns=False, write_cut_waveforms=True, write_marginal_coalescence=True, write_coalescence=True, marginal_window=0.3)))],
              [("read_all", dict(read_all=True))]][int(rng.integers(4))]
    for kind, kw in exact:
        name = f"v_{kind}_{len(list(d.glob('v_*')))}"
        o = variant(**kw)
        with obs.no_raise(f"detect/{kind}", str(kw)):
            stage.run(d, name, "detect", o)
        got = stored(d, name, w, obs)
        obs.count("scan_variants")
        obs.key("scan", kind, str(kw), base["position"])
        for c in ref:
            same = got[c].index.equals(ref[c].index) and np.array_equal(got[c].values, ref[c].values)
            obs.check(same, f"detect/{kind}", lambda: f"{c} differs under {kw}: " + (f"{(got[c].values != ref[c].values).sum()} of {n} samples" if len(got[c]) == n else f"{len(got[c])} samples against {n}"), **info0)
            obs.count("samples_compared", n)
        a2 = pipe.read_availability_files(d / name)
        obs.check(a2.equals(av), f"detect/{kind}/availability", f"availability differs under {kw}", **info0)
    # a process of its own, with another hash seed
    if case.get("apart"):
        hs = int(rng.integers(1, 1000))
        rc, err = stage.run_apart(d, "apart", "detect", variant(scan=dict(threads=3)), lib(), hashseed=hs)
        if obs.check(rc == 0, "detect/process", f"failed in a process of its own: {err[-600:]}", **info0):
            close_series(obs, "detect/process", ref, stored(d, "apart", w, obs), 3, dict(info0, hashseed=hs))
            obs.count("processes")
    # order of the stations
    perm = [w.names[i] for i in rng.permutation(len(w.names))]
    import quakemigrate.lut  # noqa
    lut = w.lut
    from copy import deepcopy
    lp = deepcopy(lut)
    lp.station_data = lp.station_data.set_index("Name").loc[perm].reset_index()
    lp.traveltimes = {s: lp.traveltimes[s] for s in [perm[i] for i in rng.permutation(len(perm))]}
    lp.save(str(d / "perm.lut"))
    for kind, kw in (("station_order", dict(stations=perm)), ("table_order", dict(lut="perm.lut"))):
        stage.run(d, kind, "detect", variant(**kw))
        close_series(obs, f"detect/{kind}", ref, stored(d, kind, w, obs), 3, info0)
        obs.count("order_variants")
        a2 = pipe.read_availability_files(d / kind)
        obs.check(set(a2.columns) == set(av.columns) and a2[list(av.columns)].equals(av), f"detect/{kind}/availability", "availability differs", **info0)
    # chunking
    for other in rng.choice([t for t in (4.0, 5.0, 8.0, 10.0, 12.0, 16.0, 20.0, 40.0, 80.0) if t != ts], 2, replace=False):
        o = variant(scan=dict(timestep=float(other)))
        nn = max(1, int(nst * ts // other))
        o["end"] = str(beg + nn * other - 1 / sr)
        if nn * other > nst * ts:
            continue
        stage.run(d, f"step{int(other)}", "detect", o)
        close_series(obs, "detect/timestep", ref, stored(d, f"step{int(other)}", w, obs), None, dict(info0, other=other), need=int(round(nn * other * sr)))
        obs.count("chunk_variants")
    cut = beg + ts * int(rng.integers(1, nst))
    o = variant()
    o["end"] = str(cut - 1 / sr)
    stage.run(d, "first", "detect", o)
    o = variant()
    o["start"] = str(cut)
    stage.run(d, "second", "detect", o)
    one, two = stored(d, "first", w, obs), stored(d, "second", w, obs)
    both = {c: pd.concat([one[c], two[c]]) for c in ref}
    obs.check(not both["COA"].index.has_duplicates, "detect/split", "runs over adjoining spans store the same sample twice", **info0)
    # steps that start at the same times are the same steps
    for c in ref:
        x = both[c].sort_index()
        obs.check(x.index.equals(ref[c].index) and np.array_equal(x.values, ref[c].values), "detect/split", lambda: f"{c}: one run and two runs over the same steps differ", **info0)
    obs.count("chunk_variants")


def close_series(obs, key, ref, got, units, info, need=None):
    """units: allowed difference in stored units of coalescence; None: edge tolerance of the taper."""
    n = need or len(ref["COA"])
    if not obs.check(len(got["COA"]) == n and set(got["COA"].index) <= set(ref["COA"].index), f"{key}/samples", f"{len(got['COA'])} samples against {n}", **info):
        return
    idx = got["COA"].index
    for c in ("COA", "COA_N"):
        a, b = ref[c].loc[idx].values, got[c].values
        tol = 1.0001e-5 * units if units else 2e-4 * np.abs(a) + 2e-5
        obs.track(f"{key}/rel", (np.abs(a - b) / np.maximum(np.abs(a), 0.1)).max())
        obs.check((np.abs(a - b) <= tol).all(), f"{key}/{c}", lambda: f"differs by up to {np.abs(a - b).max():.3g} at {a[np.argmax(np.abs(a - b))]:.3g}", **info)
        obs.count("samples_compared", n)
    # positions: wherever the peak is not a near tie; there it may go either way
    moved = np.zeros(len(idx), bool)
    for c in "XYZ":
        moved |= ref[c].loc[idx].values != got[c].values
    obs.track(f"{key}/moved", moved.mean())
    obs.check(moved.mean() <= (0.002 if units else 0.02), f"{key}/position", f"position differs at {moved.sum()} of {len(idx)} samples", **info)
    top = ref["COA"].loc[idx].values
    strong = np.argsort(top)[-5:]
    obs.check(not moved[strong].any(), f"{key}/position", "position differs at the strongest samples", **info)


def tables(root, sub):
    return {p.name: p.read_bytes() for p in sorted((root / sub).rglob("*")) if p.is_file() and "logs" not in p.parts and p.suffix in (".csv", ".event", ".picks", ".amps", ".npy", ".m")}


def triggers(case, rng, obs):
    d = harness.case_dir()
    w = world(rng, d, nev=int(rng.integers(0, 4)), dur=130.0, gaps=True)
    beg = w.t0 + 12.0
    end = beg + 90
    o = dict(sr=w.sr, fmt=w.fmt, phases=w.phases, start=str(beg), end=str(end - 1 / w.sr), scan=dict(timestep=15.0, threads=4))
    method = str(rng.choice(["static", "mad", "median_ratio"]))
    trig = dict(marginal_window=1.0, min_event_interval=float(rng.choice([3.0, 6.0])), threshold_method=method, static_threshold=float(rng.choice([2.5, 5.0])), mad_multiplier=6.0, median_multiplier=1.8,
                normalise_coalescence=bool(rng.random() < 0.5), pad=5.0, smooth_coa=bool(rng.random() < 0.3))
    stage.run(d, "base", "detect", o)
    lost = rng.random() < 0.15
    if lost:  # no record of the availability
        shutil.rmtree(d / "base" / "detect" / "availability")
    xy = write_xy(rng, d)
    base = dict(o, trigger=dict(trig))
    if rng.random() < 0.5:
        lo, hi = w.lut.index2coord([[0, 0, 0], [int(v) - 1 for v in w.lut.node_count]])
        cut = float(rng.uniform(0.3, 0.8))
        base["region"] = [float(v) for v in (*lo[:2], lo[2], lo[0] + cut * (hi[0] - lo[0]), *hi[1:])]
    trig["faults"] = w.faults
    first = None
    for kind, extra, kw in (("base", {}, {}), ("plots", dict(plot_trigger_summary=True), {}), ("plots_some_stations", dict(plot_trigger_summary=True, plot_all_stns=False, xy_files=xy), {}),
                            ("interactive", dict(plot_trigger_summary=True), dict(interactive=True)), ("log", dict(log=True, loglevel="debug"), dict(logging=True)), ("windows", dict(write_event_time_windows=True), {})):
        if kind not in ("base", case["kind"]):
            continue
        name = "base" if kind == "base" else kind
        if kind != "base":
            shutil.copytree(d / "base" / "detect", d / name / "detect")
            for f in (d / name).rglob("base_*"):
                f.rename(f.with_name(f.name.replace("base_", f"{name}_")))
        with obs.no_raise(f"trigger/{kind}", str(trig)):
            stage.run(d, name, "trigger", dict(base, trigger=dict(base["trigger"], **extra), **kw))
        t = {k.replace(f"{name}_", "run_"): v for k, v in tables(d / name, "trigger").items()}
        obs.count("trigger_runs")
        if first is None:
            first = t
            obs.count("triggered", sum(v.count(b"\n") - 1 for v in t.values()))
            obs.check(len(t) > 0, "trigger/files", "no triggered-event file was written")
        elif kind == "windows":
            # more columns, the same events
            import io
            for f in first:
                a, b = (pd.read_csv(io.BytesIO(x), dtype=str) for x in (first[f], t[f]))
                obs.check(a.equals(b[list(a.columns)]), "trigger/windows", f"{f}: events change with the event time windows", **trig)
        else:
            obs.check(t == first, f"trigger/{kind}", lambda: f"triggered events differ under {extra}: " + str([k for k in t if t[k] != first.get(k)]), **trig)
        obs.key("trigger", kind, method, trig["normalise_coalescence"])


LOCATE = {
    "threads": lambda r, xy: dict(scan=dict(threads=int(r.choice([2, 3, 5, 8, 16])))),
    "plots": lambda r, xy: dict(scan=dict(plot_event_summary=True)),
    "plots_xy": lambda r, xy: dict(scan=dict(plot_event_summary=True, plot_all_stns=False, xy_files=xy)),
    "video": lambda r, xy: dict(scan=dict(plot_event_video=True)),
    "picks": lambda r, xy: dict(plot_picks=True),
    "amplitudes": lambda r, xy: dict(plot_amps=True),
    "raw": lambda r, xy: dict(scan=dict(write_cut_waveforms=True)),
    "raw_cut": lambda r, xy: dict(scan=dict(write_cut_waveforms=True, pre_cut=1.0, post_cut=2.0)),
    "raw_wide": lambda r, xy: dict(scan=dict(write_cut_waveforms=True, pre_cut=15.0, post_cut=20.0)),
    "corrected": lambda r, xy: dict(inv=True, scan=dict(write_real_waveforms=True, write_wa_waveforms=True, write_cut_waveforms=True, real_waveform_units="velocity", wa_waveform_units="velocity")),
    "maps": lambda r, xy: dict(scan=dict(write_marginal_coalescence=True, write_coalescence=True)),
    "marginal": lambda r, xy: dict(scan=dict(write_marginal_coalescence=True)),
    "log": lambda r, xy: dict(logging=True, scan=dict(log=True, loglevel="debug")),
    "timestep": lambda r, xy: dict(scan=dict(timestep=float(r.choice([1.0, 300.0])), continuous_scanmseed_write=True)),
    "everything": lambda r, xy: dict(inv=True, plot_picks=True, plot_amps=True, logging=True, scan=dict(plot_event_summary=True, xy_files=xy, write_cut_waveforms=True, write_real_waveforms=True, write_wa_waveforms=True,
                                     write_marginal_coalescence=True, write_coalescence=True, log=True, threads=5)),
}


def locations(case, rng, obs):
    d = harness.case_dir()
    w = world(rng, d, nev=2, dur=120.0, gaps=True)
    mags = bool("raw_cut" in case["kinds"] or rng.random() < 0.7)
    ag = bool(rng.random() < 0.3)
    rows, times = [], []
    for e in w.events:
        t = UTCDateTime(ns=int(round((e["otime"].ns - w.t0.ns) / 1e9 * w.sr + rng.integers(-5, 6))) * int(1e9) // w.sr + w.t0.ns)
        times.append(t)
        rows.append(dict(EventID=c15.uid_of(t), CoaTime=str(t), TRIG_COA=3.0, COA_X=-17.0, COA_Y=64.5, COA_Z=1.0, COA=5.0, COA_NORM=2.0))
    f = d / "t.csv"
    pd.DataFrame(rows).to_csv(f, index=False)
    mw = float(rng.choice([0.6, 1.0]))
    xy = write_xy(rng, d)
    base = dict(sr=w.sr, fmt=w.fmt, phases=w.phases, trigger_file=str(f), mags=mags, allow_gaps=ag, position=str(rng.choice(["classic", "centred"])), noise=str(rng.choice(["RMS", "STD", "ENV"])), noise_window=9.0 if "raw_cut" in case["kinds"] else 2.0, signal_window=float(rng.choice([1.0, 9.0])),
                scan=dict(marginal_window=mw, threads=1))
    stage.run(d, "base", "locate", base)
    ref = tables(d / "base", "locate")
    info = dict(faults=w.faults, phases=w.phases, mags=mags, allow_gaps=ag, position=base["position"])
    obs.count("locate_worlds")
    obs.sample = dict(id=case["id"], kinds=case["kinds"], files=sorted(ref), **info)
    obs.count("located", sum(k.endswith(".event") for k in ref))
    if len(w.phases) == 2 and not w.faults:  # otherwise the peak may lie outside the marginal window
        obs.check(sum(k.endswith(".event") for k in ref) == 2 and sum(k.endswith(".picks") for k in ref) == 2, "located", f"{sorted(ref)}", **info)
    more = {}
    for kind in case["kinds"]:
        kw = LOCATE[kind](rng, xy)
        o = dict(base, **{k: v for k, v in kw.items() if k != "scan"})
        o["scan"] = dict(base["scan"], **kw.get("scan", {}))
        with obs.no_raise(f"locate/{kind}", str(kw)):
            stage.run(d, kind, "locate", o)
        t = tables(d / kind, "locate")
        bad = [k for k in ref if t.get(k) != ref[k]]
        obs.check(not bad, f"locate/{kind}", lambda: f"{bad} differ(s) under {kw}:\n{ref[bad[0]][:600]!r}\n{t.get(bad[0], b'')[:600]!r}", **info)
        obs.count("locate_variants")
        obs.count("files_compared", len(ref))
        obs.key("locate", kind, mags, ag)
        # outputs that several variants write agree as well
        for k, v in t.items():
            if k not in ref:
                tag = (k, kind if kind in ("raw_cut", "raw_wide") else "", "v" if kind == "corrected" else "", "real" in k or "wa" in k)
                if tag in more:
                    obs.check(more[tag][1] == v, "locate/extra_files", f"{k} differs between {more[tag][0]} and {kind}", **info)
                    obs.count("extra_files_compared")
                more[tag] = (kind, v)
        if "plots" in kind or kind == "everything":
            obs.count("figures", len(list((d / kind / "locate").rglob("*.pdf"))))
    if case.get("apart"):
        hs = int(rng.integers(1, 1000))
        rc, err = stage.run_apart(d, "apart", "locate", dict(base, scan=dict(base["scan"], threads=4)), lib(), hashseed=hs)
        if obs.check(rc == 0, "locate/process", f"failed in a process of its own: {err[-600:]}", **info):
            close_tables(obs, "locate/process", ref, tables(d / "apart", "locate"), dict(info, hashseed=hs))
            obs.count("processes")
    perm = [w.names[i] for i in rng.permutation(len(w.names))]
    stage.run(d, "order", "locate", dict(base, stations=perm))
    close_tables(obs, "locate/station_order", ref, tables(d / "order", "locate"), dict(info, perm=perm))
    obs.count("order_variants")


def close_tables(obs, key, ref, got, info):
    """Equal up to rounding and the order of rows."""
    import io
    if not obs.check(set(ref) == set(got), f"{key}/files", f"{sorted(set(ref) ^ set(got))}", **info):
        return
    for k in ref:
        a, b = (pd.read_csv(io.BytesIO(x[k]), dtype=str, keep_default_na=False) for x in (ref, got))
        sort = [c for c in ("Station", "Phase", "id") if c in a.columns]
        if sort and len(a) == len(b):
            a, b = (x.sort_values(sort, kind="stable").reset_index(drop=True) for x in (a, b))
        if not obs.check(list(a.columns) == list(b.columns) and len(a) == len(b), f"{key}/rows", f"{k}: {a.shape} against {b.shape}", **info):
            continue
        for c in a.columns:
            for i, (x, y) in enumerate(zip(a[c], b[c])):
                if x == y:
                    continue
                obs.check(near(c, x, y), f"{key}/value", f"{k} row {i} {c}: {x} against {y}", **info)
        obs.count("rows_compared", len(a))


def near(c, x, y):
    """A difference no larger than a few units of what is written."""
    try:
        u, v = float(x), float(y)
        dec = max(len(x.split(".")[1]) if "." in x and "e" not in x.lower() else 0, 0)
        return abs(u - v) <= max(2.0 * 10.0 ** -dec if dec else 0, 1e-4 * abs(u), 1e-6)
    except ValueError:
        try:
            return abs(UTCDateTime(x) - UTCDateTime(y)) < 2e-3
        except Exception:
            return False


def drawn(case, rng, obs):
    """The amplitude plot of an event: drawn for any measurements, and nothing else changes."""
    import pathlib
    from checks import c19
    from quakemigrate.io.core import Run
    from quakemigrate.io.event import Event
    from quakemigrate.signal.local_mag import LocalMag
    d = harness.case_dir()
    for k in range(case["k"]):
        df, filtered, names = c19.table(rng, obs)
        p = c19.params(rng, names, obs)
        if p.get("noise_filter", 1.0) < 1:
            p.pop("r2_only_used", None)  # a combination that is refused
        ucf = float(rng.choice([1.0, 1000.0]))
        sub = str(rng.choice(["", "again"]))
        out = []
        info = dict(params={a: repr(b)[:80] for a, b in p.items()}, stations=names)
        for plot in (False, True):
            lm = LocalMag({}, dict(p), plot_amplitudes=plot)
            lm.amp.get_amplitudes = lambda e, l: df.copy(deep=True)
            t = UTCDateTime(2021, 3, 1)
            ev = Event(0.5, pd.Series({"EventID": "20210301000000000", "CoaTime": t, "TRIG_COA": 1.0, "COA": 1.0, "COA_NORM": 1.0}))
            ev.add_gaussian_location((0, 0, 0), tuple(float(v) for v in 10 ** rng.uniform(-3, 4, 3)))
            root = d / f"m{k}_{plot}"
            root.mkdir()

            class Lut:
                unit_conversion_factor = ucf
            mag = None
            with obs.no_raise(f"amplitude_plot/{'on' if plot else 'off'}", str(info)), np.errstate(all="ignore"):
                _, mag = lm.calc_magnitude(ev, Lut(), Run(pathlib.Path(root), "r", sub, stage="locate"))
            if mag is None:
                return
            out.append((repr(float(mag)), {a: repr(float(b)) for a, b in ev.localmag.items()}, {q.name: q.read_bytes() for q in root.rglob("*.amps")}))
            pdf = list(root.rglob("*AmpVsDistance*"))
            want = int(plot and not np.isnan(mag))
            obs.check(len(pdf) == want and all(q.stat().st_size > 1000 for q in pdf), "amplitude_plot/figure", f"{len(pdf)} amplitude plots, expected {want}", **info)
            obs.count("amplitude_plots", want)
        obs.check(out[0] == out[1], "amplitude_plot/result", lambda: f"magnitudes or amplitudes differ with and without the plot: {out[0][:2]} {out[1][:2]}", **info)
        obs.key("amplitude_plot", p.get("use_hyp_dist", False), "dist_filter" in p, filtered, out[0][0] == "nan")


def windows(case, rng, obs):
    """The coalescence around an event is that of the scan at the same samples, however wide the marginal window."""
    d = harness.case_dir()
    sr = int(rng.choice([20, 25, 40]))
    wide = float(rng.choice([20.0, 30.0, 40.0])) + float(rng.integers(0, sr)) / sr
    dur = 4 * wide + 220.0
    w = synth.World(rng, d, n=int(rng.integers(4, 7)), nodes=tuple(int(v) for v in rng.integers(5, 7, 3)), sr=sr, t0="2020-06-15T12:34:56", duration=dur, events=0, write=False, fmt="YEAR/JD/STATION")
    evs = []
    for k in range(int(6 + rng.integers(0, 6))):     # signals all over the window, so that all of it has something to compare
        ijk = [int(rng.integers(1, v - 1)) for v in w.lut.node_count]
        e = dict(otime=w.t0 + 20 + float(rng.random()) * (dur - 40), amp=float(rng.uniform(10, 60)))
        for ph in "PS":
            e[ph] = {n: float(w.lut.traveltimes[n][ph][tuple(ijk)]) for n in w.names}
        evs.append(e)
    st = synth.make_waveforms(rng, w.names, w.t0, dur, sr, evs, noise=1.0)
    synth.write_archive(w.archive_root, st, w.fmt)
    w.stream, w.phases = st, ["P", "S"]
    stage.save_world(w, d)
    pos = str(rng.choice(["classic", "centred"]))
    base = dict(sr=sr, fmt=w.fmt, position=pos, phases=w.phases)
    trig = w.t0 + 2 * round(dur / 4) + float(rng.integers(0, sr)) / sr
    beg = trig - 2 * wide - 1
    ts = float(rng.choice([10.0, 16.0, 40.0]))
    stage.run(d, "base", "detect", dict(base, start=str(beg), end=str(beg + np.ceil((4 * wide + 2) / ts) * ts - 1 / sr), scan=dict(timestep=ts, threads=2)))
    ref = stored(d, "base", w, obs)
    f = d / "t.csv"
    pd.DataFrame([dict(EventID=c15.uid_of(trig), CoaTime=str(trig), TRIG_COA=3.0, COA_X=-17.0, COA_Y=64.5, COA_Z=1.0, COA=5.0, COA_NORM=2.0)]).to_csv(f, index=False)
    for mw in (wide, float(rng.choice([0.6, 1.0, 4.0]))):
        name = f"mw{mw:.2f}".replace(".", "_")
        stage.run(d, name, "locate", dict(base, trigger_file=str(f), scan=dict(marginal_window=mw, threads=2, write_coalescence=True)))
        maps = sorted((d / name).rglob("coalescence_maps/*.npy"))
        if not obs.check(len(maps) == 1, "window/map", f"{len(maps)} coalescence maps written for one event", mw=mw):
            continue
        m = np.load(maps[0])
        n = int(round(4 * mw * sr)) + 1
        if not obs.check(m.shape[-1] == n, "window/length", f"{m.shape[-1]} samples for {n}", mw=mw, sr=sr):
            continue
        i0 = int(round((trig - 2 * mw - w.t0) * sr))
        a = ref["COA"].loc[i0:i0 + n - 1].values
        b = m.reshape(-1, n).max(axis=0)
        rel = np.abs(a - b) / np.maximum(a, 0.1)
        obs.track("window/rel", rel.max())
        obs.count("window_samples", n)
        obs.check(len(a) == n and rel.max() <= TOL, "window/value", lambda: f"the coalescence {np.argmax(rel)} samples into the window of {n} is {b[np.argmax(rel)]:.5g}, in the scan {a[np.argmax(rel)]:.5g}", mw=mw, sr=sr, timestep=ts, position=pos)
        obs.key("window", pos, mw > 10)


def main(chk):
    chk.run(windows, [dict(id=f"w{i}") for i in range(chk.pick(6, 80))])
    chk.run(drawn, [dict(id=f"d{i}", k=3) for i in range(chk.pick(8, 120))])
    n = chk.pick(8, 120)
    kinds = list(LOCATE)
    chk.run(scans, [dict(id=f"s{i}", apart=i % 4 == 0) for i in range(n)])
    tk = ["plots", "plots_some_stations", "interactive", "log", "windows"]
    chk.run(triggers, [dict(id=f"t{i}", kind=tk[i % len(tk)]) for i in range(chk.pick(10, 100))])
    chk.run(locations, [dict(id=f"l{i}", kinds=[kinds[(3 * i + j) % len(kinds)] for j in range(3)], apart=i % 4 == 0) for i in range(chk.pick(14, 140))])
    chk.require(window_samples=5000, scan_variants=15, order_variants=10, chunk_variants=8, processes=2, trigger_runs=10, triggered=5, locate_variants=18, files_compared=40, figures=4, samples_compared=10 ** 5, amplitude_plots=10)
    chk.rule = "results of paired runs that differ only in options that must not matter; a key is a distinct variant"
