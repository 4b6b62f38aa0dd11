"""C26: an earthquake put into synthetic data comes out of the three stages where it was put."""
import pathlib
import numpy as np
import pandas as pd
from obspy import UTCDateTime, Stream
from qv import harness, synth, pipe


def straight_times(w, xyz):
    """Traveltimes to an arbitrary point, from the station coordinates and the velocities."""
    out = {"P": {}, "S": {}}
    for _, r in w.stations.iterrows():
        s = synth.to_grid(w.lut.grid_proj, w.lut.coord_proj, [r.Longitude, r.Latitude, r.Elevation])
        dist = float(np.sqrt(((np.asarray(xyz) - s) ** 2).sum()))
        out["P"][r.Name], out["S"][r.Name] = dist / w.vp, dist / w.vs
    return out


def build(rng, d, nev, cfg):
    nodes = tuple(int(v) for v in rng.integers(9, 13, 3))
    dur = 60.0 + 25.0 * max(nev, 1)
    day = str(rng.choice(["2020-01-01T00:00:00", "2021-12-31T23:58:50", "2019-02-28T23:59:25", "2020-06-15T12:34:56.5"]))
    w = synth.World(rng, d, n=int(rng.integers(7, 13)), nodes=nodes, spacing=tuple(np.round(rng.uniform(0.7, 1.3, 3), 2)), units=cfg["units"],
                    sr=cfg["sr"], t0=day, duration=dur, events=0, fmt=cfg["fmt"], kind=str(rng.choice(["lcc", "tmerc"])), write=False,
                    lat0=float(rng.choice([64.5, -41.0, 3.0])), lon0=float(rng.choice([-17.0, 174.0, 37.0])))
    w.events = []
    for k in range(nev):
        ijk = np.array([rng.integers(2, m - 2) for m in nodes], dtype=float)
        if cfg["offnode"]:
            ijk += rng.uniform(-0.35, 0.35, 3)
        xyz = w.lut.ll_corner + ijk * w.lut.node_spacing
        ot = w.t0 + 30.0 + 25.0 * (k + 0.25 + 0.5 * rng.random())
        w.events.append(dict(otime=ot, ijk=ijk, amp=float(rng.uniform(30, 90)), **straight_times(w, xyz)))
    native = cfg["sr"] * cfg["over"]
    st = synth.make_waveforms(rng, w.names, w.t0 + cfg["shift"], dur, native, w.events, noise=1.0, cross=(0.02, 0.02))
    for tr in st:
        tr.data = (tr.data * 10 ** rng.uniform(-0.5, 1.0)).astype(np.int32)      # every channel its own gain
    w.stream = st
    return w


def spoil(rng, w, cfg):
    """Trouble that a user's archive holds and that must not matter."""
    st = w.stream
    if cfg["dead"]:
        s = w.names[int(rng.integers(len(w.names)))]
        mode = str(rng.choice(["gone", "flat", "wrong rate", "gap"]))
        if mode == "gone":
            st = Stream([t for t in st if t.stats.station != s])
        elif mode == "flat":
            for t in st.select(station=s):
                t.data[:] = 0
        elif mode == "wrong rate":
            for t in st.select(station=s):
                t.stats.sampling_rate = 31.0
        else:
            for t in list(st.select(station=s)):
                n = t.stats.npts
                a, b = int(n * 0.45), int(n * 0.55)
                st.remove(t)
                st += t.slice(endtime=t.stats.starttime + a * t.stats.delta)
                st += t.slice(starttime=t.stats.starttime + b * t.stats.delta)
        w.stream = st
        synth.write_archive(w.archive_root, st, w.fmt)
        return s, mode
    synth.write_archive(w.archive_root, st, w.fmt)
    return None, ""


THRESH = {"static": {"centred": 10.0, "classic": 3.3}, "mad": {"centred": 12.0, "classic": 12.0}, "median_ratio": {"centred": 3.0, "classic": 2.0}}


def recovery(case, rng, obs):
    from quakemigrate.signal.pickers import GaussianPicker
    d = harness.case_dir()
    nev = case["nev"]
    over = int(rng.choice([1, 1, 2]))
    sr = int(rng.choice([50, 100]))
    cfg = dict(sr=sr, over=over, units=str(rng.choice(["km", "m"])), fmt=str(rng.choice(["YEAR/JD/STATION", "YEAR/JD/*_STATION_*", "SeisComp3", "YEAR_JD/STATION_*"])),
               offnode=rng.random() < 0.6, dead=rng.random() < 0.3, shift=0.0 if rng.random() < 0.7 else float(rng.uniform(0.1, 0.9)) / (sr * over))
    w = build(rng, d, nev, cfg)
    lost, mode = spoil(rng, w, cfg)
    dpos, lpos = str(rng.choice(["centred", "classic"])), "centred"
    # one phase alone trades depth against origin time, so those sources sit on a node and are judged loosely
    phases = ("P", "S") if cfg["offnode"] else [("P", "S"), ("P", "S"), ("S",), ("P",)][int(rng.integers(4))]
    method = str(rng.choice(["static", "static", "mad", "median_ratio"]))
    norm = bool(rng.random() < 0.4) and not (dpos == "classic")
    nstep = int(rng.choice([7, 10, 20, 25]))
    dec = rng.random() < 0.3 and len(phases) == 2
    beg, end = w.t0 + 12.0, w.t0 + w.duration - 14.0
    beg = UTCDateTime(ns=int(round(beg.ns / 1e9 * 2)) * 5 * 10 ** 8)
    mw = float(rng.choice([0.8, 1.0, 1.5]))
    info = dict(cfg=cfg, nev=nev, dpos=dpos, phases=phases, method=method, norm=norm, lost=(lost, mode), dec=bool(dec))
    arch = w.archive()
    detlut = w.lut.decimate([2, 2, 1]) if dec else w.lut
    s = synth.make_scan(arch, detlut, synth.make_onset(sr, position=dpos, phases=phases), d, "r", timestep=float(nstep), scan_rate=sr, threads=2,
                        continuous_scanmseed_write=bool(rng.random() < 0.5))
    with synth.quiet():
        s.detect(str(beg), str(end))
        t = synth.make_trigger(w.lut, d, "r", marginal_window=mw, min_event_interval=6.0, threshold_method=method, pad=float(rng.choice([5.0, 120.0])), normalise_coalescence=norm,
                               **{dict(static="static_threshold", mad="mad_multiplier", median_ratio="median_multiplier")[method]: THRESH[method][dpos]},
                               **({} if method == "static" else {dict(mad="mad_window_length", median_ratio="median_window_length")[method]: 3600.0}))
        t.trigger(str(beg), str(end))
    trig = [pd.read_csv(f, dtype={"EventID": str}) for f in sorted((d / "r").glob("trigger/events/*.csv"))]
    trig = pd.concat(trig) if trig else pd.DataFrame()
    obs.count("worlds")
    obs.count("sources", nev)
    obs.key("world", nev, dpos, phases, method, norm, cfg["units"], cfg["fmt"], over, mode, bool(dec))
    obs.check(len(trig) == nev, "event_count", lambda: f"{nev} earthquakes in the data, {len(trig)} triggered: {[str(x) for x in trig.get('CoaTime', [])]} against {[str(e['otime']) for e in w.events]}", **info)
    if nev == 0:
        obs.count("noise_worlds")
    if len(trig) != nev:
        return
    times = [UTCDateTime(x) for x in trig["CoaTime"]]
    loose = cfg["offnode"] or len(phases) == 1
    late = {"centred": 0.15, "classic": 0.6}[dpos] + (0.4 if cfg["offnode"] else 0.85 if loose else 0.0)
    for e, x in zip(w.events, times):
        obs.check(abs(x - e["otime"]) <= late + (0.35 if dec else 0.0), "trigger_time", lambda: f"triggered {x - e['otime']:+.3f} s from the origin time", **info)
        obs.track("trigger_dt", abs(x - e["otime"]))
    # the trigger from a classic onset is late by its own window: the marginal window must cover that
    if dpos == "classic" or dec:
        mw = 1.5
    s = synth.make_scan(arch, w.lut, synth.make_onset(sr, position=lpos, phases=phases), d, "r", marginal_window=mw, threads=2,
                        picker=GaussianPicker(synth.make_onset(sr, position=lpos, phases=phases), plot_picks=False))
    with synth.quiet():
        if nev:
            s.locate(str(beg), str(end))
    evs = [pd.read_csv(f, dtype={"EventID": str}).iloc[0] for f in sorted((d / "r").glob("locate/events/*.event"))]
    evs.sort(key=lambda r: UTCDateTime(r.DT).ns)
    obs.check(len(evs) == nev, "located_count", f"{nev} earthquakes, {len(evs)} located", **info)
    if len(evs) != nev:
        return
    for e, r in zip(w.events, evs):
        dt = UTCDateTime(r.DT) - e["otime"]
        xyz = synth.to_grid(w.lut.grid_proj, w.lut.coord_proj, [r.X, r.Y, r.Z])
        off = np.abs((xyz - w.lut.ll_corner) / w.lut.node_spacing - e["ijk"])
        obs.track("origin_dt", abs(dt))
        obs.track("node_distance", off.max())
        obs.count("located")
        fit = straight_times(w, xyz)
        res = np.array([dt + fit[ph][n] - e[ph][n] for ph in phases for n in w.names if n != lost])
        rms = float(np.sqrt(np.mean(res ** 2)))
        obs.track("arrival_misfit", rms)
        if loose:
            # between nodes, depth and origin time trade off: what is fixed is that the arrivals are explained
            obs.check(rms <= (0.25 if len(phases) == 2 else 1.0), "arrivals", f"the reported origin puts the arrivals {rms:.3f} s (rms) from where they are", **info)
            obs.check(abs(dt) <= (0.5 if len(phases) == 2 else 1.0), "origin_time", f"origin time {dt:+.3f} s off", **info)
            obs.check(off[:2].max() <= (1.0 if len(phases) == 2 else 1.6) and off[2] <= 3.0, "hypocentre", f"located {np.round(off, 2)} nodes from the source", **info)
        else:
            obs.count("on_node")
            obs.check(abs(dt) <= 0.08 + 1 / sr, "origin_time", f"origin time {dt:+.3f} s off", **info)
            obs.check(off.max() <= 0.6, "hypocentre", f"located {np.round(off, 2)} nodes from the source", **info)
        pk = pd.read_csv(d / "r" / "locate" / "picks" / f"{r.EventID}.picks", dtype={"Station": str})
        got = pk[pk["PickTime"].astype(str) != "-1"]
        obs.check(not (lost in set(got["Station"]) and mode != "gap"), "pick_without_data", f"station {lost} has no usable data ({mode}) but is picked", **info)
        want = [n for n in w.names if n != lost]
        for ph in phases:
            res = []
            for n in want:
                p = got[(got["Station"] == n) & (got["Phase"] == ph)]
                obs.check(len(p) <= 1, "pick_twice", f"{n} {ph}: {len(p)} picks", **info)
                if len(p) == 1:
                    res.append(UTCDateTime(p.iloc[0]["PickTime"]) - (e["otime"] + e[ph][n]))
            obs.count("picks", len(res))
            obs.count("possible_picks", len(want))
            obs.check(len(res) >= 0.7 * len(want), "picks_missing", f"{ph}: {len(res)} of {len(want)} stations picked", **info)
            if res:
                obs.track("pick_error", np.max(np.abs(res)))
                obs.track("pick_bias", abs(np.mean(res)))
                obs.check(abs(np.mean(res)) <= 0.1, "pick_bias", f"{ph} picks {np.mean(res):+.3f} s from the synthetic arrivals on average", **info)
                obs.check(np.max(np.abs(res)) <= 0.15, "pick_time", f"{ph} pick {max(res, key=abs):+.3f} s from the synthetic arrival", **info)


def main(chk):
    n = chk.pick(36, 1500)
    chk.run(recovery, [dict(id=f"w{i}", nev=[1, 2, 0, 1][i % 4]) for i in range(n)])
    chk.require(worlds=n // 2, located=n // 3, on_node=n // 10, noise_worlds=n // 8, picks=5 * n)
    chk.rule = "events reported against the sources put into the data; a key is a distinct configuration of the chain"
