"""C22: result files state the computed values at their documented precision."""
import csv
import math
import numpy as np
import pandas as pd
from obspy import UTCDateTime
from checks import c15
from qv import harness, synth


def exponent(v):
    return int(math.floor(math.log10(abs(v)) + 1e-12))


def decimals(lut):
    """how many decimals X, Y and Z deserve: two beyond the node spacing, no fewer than a microdegree and a metre"""
    a = lut.index2coord([[0, 0, 0], [1, 1, 1]])
    d = [-exponent(v) for v in a[1] - a[0]]
    km = abs(lut.unit_conversion_factor - 1000) < 1
    return [max(d[0] + 2, 6), max(d[1] + 2, 6), max(d[2] + 2, 3 if km else 0)]


def sig(n):
    return lambda v: 0.5000001 * 10.0 ** (exponent(v) - n + 1) if v else 0.0


def dec(n):
    return lambda v: 0.5000001 * 10.0 ** (-n) + abs(v) * 1e-15


def rows(path):
    with open(path, newline="") as f:
        return list(csv.DictReader(f))


def num(text):
    return math.nan if text.strip().lower() in ("", "nan") else float(text)


def value(obs, key, text, want, tol, **lab):
    got = num(text)
    want = float(want) if want is not None else math.nan
    if math.isnan(want):
        return obs.check(math.isnan(got), key, lambda: dict(got=text, want="missing", **lab))
    return obs.check(not math.isnan(got) and abs(got - want) <= tol(want), key, lambda: dict(got=text, want=want, tolerance=tol(want), **lab))


def moment(obs, key, text, want, **lab):
    try:
        ok = abs(UTCDateTime(text).ns - want.ns) < 1000
    except Exception:
        ok = False
    return obs.check(ok, key, lambda: dict(got=text, want=str(want), **lab))


LOC = ["X", "Y", "Z"]


def judge_event(obs, path, mem, dcm):
    """mem: what the event held in memory"""
    r = rows(path)
    if not obs.check(len(r) == 1, "event-file-one-row", lambda: len(r)):
        return
    r = r[0]
    need = ["EventID", "DT", "X", "Y", "Z", "COA", "COA_NORM", *[f"GAU_{k}" for k in (*LOC, "ErrX", "ErrY", "ErrZ")], *[f"COV_{k}" for k in ("ErrX", "ErrY", "ErrZ", "Err_XYZ")],
            "TRIG_COA", "DEC_COA", "DEC_COA_NORM"] + (["ML", "ML_Err", "ML_r2"] if mem["ml"] else [])
    if not obs.check(sorted(r) == sorted(need), "event-file-columns", lambda: list(r)):
        return
    obs.check(r["EventID"] == mem["uid"] and path.stem == mem["uid"], "event-file-id", lambda: dict(got=(r["EventID"], path.name), want=mem["uid"]))
    moment(obs, "event-file-time", r["DT"], mem["DT"])
    tols = dict(zip(LOC, map(dec, dcm)))
    for k in LOC:
        value(obs, "event-file-location", r[k], mem["spline"][k], tols[k], column=k)
        value(obs, "event-file-location", r["GAU_" + k], mem["gaussian"][k], tols[k], column="GAU_" + k)
        value(obs, "event-file-error", r["GAU_Err" + k], mem["gaussian"]["Err" + k], tols["Z"], column="GAU_Err" + k)
        value(obs, "event-file-error", r["COV_Err" + k], mem["covariance"]["Err" + k], tols["Z"], column="COV_Err" + k)
    value(obs, "event-file-error", r["COV_Err_XYZ"], np.prod([mem["covariance"]["Err" + k] for k in LOC]) ** (1 / 3), tols["Z"], column="COV_Err_XYZ")
    for k in ("COA", "COA_NORM", "TRIG_COA", "DEC_COA", "DEC_COA_NORM"):
        value(obs, "event-file-coalescence", r[k], mem[k], sig(4), column=k)
    if mem["ml"]:
        for k in ("ML", "ML_Err", "ML_r2"):
            value(obs, "event-file-magnitude", r[k], mem["ml"][k], sig(3), column=k)
    obs.count("event_files")
    obs.key("event", dcm[2], bool(mem["ml"]))


def memory(event, uid):
    c = event.coa_data
    i = int(np.nanargmax(c["COA"].astype(float).values))
    return dict(uid=uid, DT=c["DT"].iloc[i], COA=float(c["COA"].iloc[i]), COA_NORM=float(c["COA_NORM"].iloc[i]), **{k: float(v) for k, v in event.trigger_info.items()},
                spline=dict(event.locations["spline"]), gaussian=dict(event.locations["gaussian"]), covariance=dict(event.locations["covariance"]), ml=dict(event.localmag))


def judge_picks(obs, path, df, uid):
    r = rows(path)
    if not obs.check(path.stem == uid and len(r) == len(df), "pick-file-rows", lambda: dict(file=path.name, rows=len(r), want=len(df))):
        return
    if len(r) and not obs.check(list(r[0]) == list(df.columns), "pick-file-columns", lambda: dict(got=list(r[0]), want=list(df.columns))):
        return
    for a, (_, b) in zip(r, df.iterrows()):
        obs.check((a["Station"], a["Phase"]) == (b.Station, b.Phase), "pick-file-key", lambda: dict(got=a, want=b.to_dict()))
        moment(obs, "pick-file-modelled", a["ModelledTime"], b.ModelledTime)
        if isinstance(b.PickTime, UTCDateTime):
            moment(obs, "pick-file-time", a["PickTime"], b.PickTime)
            value(obs, "pick-file-error", a["PickError"], b.PickError, sig(3))
            value(obs, "pick-file-snr", a["SNR"], b.SNR, sig(3))
            value(obs, "pick-file-residual", a["Residual"], b.Residual, lambda v: 1e-6)
            obs.count("picks")
        else:
            obs.check(all(num(a[k]) == -1 for k in ("PickTime", "PickError", "SNR")), "pick-file-missing", lambda: dict(got=a))
            obs.count("missing_picks")


AMP_TOL = {**{k: sig(5) for k in ("epi_dist", "z_dist", "P_amp", "P_avg_amp", "S_amp", "S_avg_amp", "Noise_amp")}, **{k: sig(2) for k in ("P_freq", "S_freq")},
           **{k: sig(3) for k in ("P_filter_gain", "S_filter_gain", "ML", "ML_Err")}}


def judge_amps(obs, path, df, uid):
    r = rows(path)
    if not obs.check(path.stem == uid and len(r) == len(df), "amplitude-file-rows", lambda: dict(file=path.name, rows=len(r), want=len(df))):
        return
    if len(r) and not obs.check(list(r[0]) == ["id", *df.columns], "amplitude-file-columns", lambda: dict(got=list(r[0]), want=list(df.columns))):
        return
    for a, (i, b) in zip(r, df.iterrows()):
        obs.check(a["id"] == i, "amplitude-file-id", lambda: dict(got=a["id"], want=i))
        for k, tol in AMP_TOL.items():
            if k in df.columns:
                value(obs, "amplitude-file-value", a[k], b[k], tol, column=k, id=i)
        for k in ("P_time", "S_time"):
            if isinstance(b[k], UTCDateTime):
                moment(obs, "amplitude-file-time", a[k], b[k])
            else:
                obs.check(a[k] in ("", "nan"), "amplitude-file-time", lambda: dict(got=a[k], want="missing"))
        obs.check(a["is_picked"] == str(bool(b.is_picked)), "amplitude-file-picked", lambda: dict(got=a["is_picked"], want=b.is_picked))
        obs.count("amplitude_rows")


def wide(rng, lo=-6, hi=6, signed=False):
    v = 10 ** rng.uniform(lo, hi)
    return float(-v if signed and rng.random() < 0.5 else v)


def a_time(rng):
    base = [UTCDateTime(2020, 12, 31, 23, 59, 59), UTCDateTime(2021, 1, 1), UTCDateTime(1999, 2, 28, 12), UTCDateTime(2016, 2, 29, 23, 59)][int(rng.integers(0, 4))]
    return base + (0.0 if rng.random() < 0.2 else int(rng.integers(0, 2_000_000)) / 1e6)


def files(case, rng, obs):
    """files written from values of every size"""
    from quakemigrate.io import read_coalescence, write_amplitudes, write_coalescence
    from quakemigrate.io.core import Run
    from quakemigrate.io.event import Event
    from quakemigrate.signal.pickers import GaussianPicker
    d = harness.case_dir()
    units = str(rng.choice(["km", "m"]))
    f = 1.0 if units == "km" else 1000.0
    spacing = 10 ** rng.uniform(-2.5, 1.2, 3) * f
    nc = (6, 6, 6)
    spec = synth.grid_spec(nc, spacing, units=units)
    lut = synth.make_lut(spec, synth.stations_df(rng, spec, 3, units=units), vp=5 * f, vs=3 * f)
    dcm = decimals(lut)
    sub = "sub" if rng.random() < 0.4 else ""
    run = Run(d, "run", sub, stage="locate")
    root = d / "run" / "locate" / sub
    t = a_time(rng)
    uid = str(t).replace("-", "").replace(":", "").replace("T", "").replace(".", "").replace("Z", "")[:17]
    trig = {"EventID": uid if rng.random() < 0.5 else np.int64(uid), "CoaTime": t, "TRIG_COA": wide(rng, -3, 4), "COA": wide(rng, -3, 4), "COA_NORM": wide(rng, -1, 2)}
    if rng.random() < 0.2:
        trig = {"EventID": uid, "CoaTime": t, "COA_V": 5.5678, "COA": 3.456789, "COA_NORM": 2.0}
        if rng.random() < 0.5:
            trig.pop("COA_NORM")
        if rng.random() < 0.5:
            trig.pop("COA")
    ev = Event(0.5, pd.Series(trig))
    n = int(rng.integers(3, 30))
    times = np.array([t + k * 0.02 for k in range(n)])
    coa, coan = np.array([wide(rng, -3, 4) for _ in range(n)]), np.array([wide(rng, -3, 4) for _ in range(n)])
    xyz = rng.normal(0, 100, (n, 3))
    ev.add_compute_output(times, coa, coan, xyz, rng.random((3, 3, 3, n)), None)

    def loc():
        return np.array([rng.uniform(-180, 180), rng.uniform(-90, 90), wide(rng, -5, 1.5, True) * f])
    ev.add_spline_location(loc())
    ev.add_gaussian_location(loc(), np.array([wide(rng, -5, 2) * f for _ in range(3)]))
    ev.add_covariance_location(loc(), np.array([wide(rng, -5, 2) * f for _ in range(3)]))
    if rng.random() < 0.6:
        ml = list(np.full(3, np.nan) if rng.random() < 0.3 else [rng.normal(0, 3), wide(rng, -3, 0), np.nan if rng.random() < 0.3 else wide(rng, -2, 1, True)])
        ev.add_local_magnitude(*ml)
        obs.close("event-magnitude", np.array([ev.localmag[k] for k in ("ML", "ML_Err", "ML_r2")]), np.array(ml), rtol=0, atol=0)
    mem = memory(ev, uid)
    i = int(np.argmax(coa))
    obs.check(mem["DT"] == times[i] and mem["COA"] == coa[i] and mem["COA_NORM"] == coan[i], "event-peak", "the event does not hold its own peak")
    info = ev.trigger_info
    if "TRIG_COA" in trig:
        obs.check((info["TRIG_COA"], info["DEC_COA"], info["DEC_COA_NORM"]) == (trig["TRIG_COA"], trig["COA"], trig["COA_NORM"]), "event-trigger-values", lambda: dict(got=info, want=trig))
    else:                        # columns of earlier versions: what is not stored is not made up
        obs.count("earlier_trigger_files")
        obs.check(info["TRIG_COA"] == trig["COA_V"] and all(np.isnan(info[a]) or info[a] == trig.get(b) for a, b in (("DEC_COA", "COA"), ("DEC_COA_NORM", "COA_NORM")))
                  and ("COA" not in trig or "COA_NORM" not in trig or not np.isnan([info["DEC_COA"], info["DEC_COA_NORM"]]).any()), "event-trigger-values", lambda: dict(got=info, want=trig))
    ev.write(run, lut)
    f1 = list(d.rglob("*.event"))
    if obs.check(f1 == [root / "events" / f"{uid}.event"], "event-file-place", lambda: [str(x) for x in f1]):
        judge_event(obs, f1[0], mem, dcm)
    # picks
    with synth.quiet():
        picker = GaussianPicker(onset=synth.make_onset(50))
    rws = []
    for k in range(int(rng.integers(0, 9))):
        miss = rng.random() < 0.3
        mt = a_time(rng)
        pt = -1 if miss else mt + float(rng.normal(0, 0.3))
        rws.append([f"S{k:02d}" if rng.random() < 0.7 else f"{k:03d}", str(rng.choice(["P", "S"])), mt, pt, -1 if miss else wide(rng, -4, 1), -1 if miss else wide(rng, -2, 6), -1 if miss else pt - mt])
    df = pd.DataFrame(rws, columns=["Station", "Phase", "ModelledTime", "PickTime", "PickError", "SNR", "Residual"])
    keep = df.copy(deep=True)
    picker.write(run, ev.uid, df)
    obs.check(df.equals(keep), "writing-altered-picks", "picks altered by writing")
    f2 = list(d.rglob("*.picks"))
    if obs.check(f2 == [root / "picks" / f"{uid}.picks"], "pick-file-place", lambda: [str(x) for x in f2]):
        judge_picks(obs, f2[0], keep, uid)
    # amplitudes
    rws = []
    for k in range(int(rng.integers(1, 9))):
        miss = rng.random() < 0.3
        r = dict(epi_dist=wide(rng, -3, 3), z_dist=wide(rng, -3, 3, True))
        for ph in "PS":
            m = miss or rng.random() < 0.1
            r.update({f"{ph}_amp": np.nan if m else wide(rng, -9, 3), f"{ph}_freq": np.nan if m else wide(rng, -2, 2), f"{ph}_time": np.nan if m else a_time(rng),
                      f"{ph}_avg_amp": np.nan if m else wide(rng, -9, 3), f"{ph}_filter_gain": np.nan if m else (None if rng.random() < 0.3 else wide(rng, -3, 0))})
        r.update(Noise_amp=np.nan if miss else wide(rng, -9, 3), is_picked=bool(rng.random() < 0.5))
        rws.append(r)
    am = pd.DataFrame(rws, index=pd.Index([f"XX.S{k}.00.HHZ" if rng.random() < 0.7 else f".S{k}..[E,2]" for k in range(len(rws))], name="id"))
    if rng.random() < 0.6:
        am["ML"] = [np.nan if rng.random() < 0.3 else rng.normal(0, 2) for _ in rws]
        am["ML_Err"] = [np.nan if rng.random() < 0.3 else wide(rng, -3, 1) for _ in rws]
    keep = am.copy(deep=True)
    write_amplitudes(run, am, ev)
    obs.check(am.equals(keep), "writing-altered-amplitudes", "amplitudes altered by writing")
    f3 = list(d.rglob("*.amps"))
    if obs.check(f3 == [root / "amplitudes" / f"{uid}.amps"], "amplitude-file-place", lambda: [str(x) for x in f3]):
        judge_amps(obs, f3[0], keep, uid)
    # maps
    for marg in (False, True):
        m = rng.random((4, 3, 2) if marg else (4, 3, 2, 7)) * wide(rng)
        if rng.random() < 0.3:
            m = m.astype(np.float32)
        write_coalescence(run, m, ev, marginalised=marg)
        p = root / ("marginalised_coalescence_maps" if marg else "coalescence_maps") / f"{uid}.npy"
        if obs.check(p.exists(), "map-file-place", lambda: [str(x) for x in d.rglob("*.npy")]):
            g = read_coalescence(p)
            obs.check(g.dtype == m.dtype and np.array_equal(g, m), "map-file-values", "the map read back differs")
            obs.count("maps")


def availability(case, rng, obs):
    from quakemigrate.io import read_availability, write_availability
    from quakemigrate.io.core import Run
    d = harness.case_dir()
    run = Run(d, "run", "x" if rng.random() < 0.3 else "", stage="detect")
    start = UTCDateTime(2020, 12, 30, 22) + float(rng.choice([0.0, 0.5, 0.02, 1234.567891]))
    step = float(rng.choice([0.75, 60, 300, 3600, 7 * 3600.0]))
    n = int(rng.integers(1, 30))
    names = [f"ST{k}" for k in range(int(rng.integers(1, 6)))] + (["007"] if rng.random() < 0.3 else [])
    cols = [f"{s}_{p}" for p in ("P", "S")[:int(rng.integers(1, 3))] for s in names]
    A = rng.integers(0, 2, (n, len(cols)))
    df = pd.DataFrame(A, columns=cols, index=[str(start + step * k) for k in range(n)])
    write_availability(run, df.copy(deep=True))
    want = {}
    for k in range(n):
        t = start + step * k
        want.setdefault(f"{t.year}_{t.julday:03d}_StationAvailability.csv", []).append((t, A[k]))
    got = {p.name: p for p in d.rglob("*.csv")}
    if not obs.check(sorted(got) == sorted(want), "availability-files", lambda: dict(got=sorted(got), want=sorted(want))):
        return
    for name, p in got.items():
        with open(p, newline="") as fh:
            r = list(csv.reader(fh))
        obs.check(r[0][1:] == cols, "availability-columns", lambda: dict(got=r[0], want=cols))
        if not obs.check(len(r) - 1 == len(want[name]), "availability-rows", lambda: dict(file=name, got=len(r) - 1, want=len(want[name]))):
            continue
        for line, (t, a) in zip(r[1:], want[name]):
            moment(obs, "availability-time", line[0], t)
            obs.check([int(v) for v in line[1:]] == a.tolist(), "availability-value", lambda: dict(file=name, row=line, want=a))
            obs.count("availability_rows")
    back = read_availability(run, start, start + step * (n - 1))
    obs.check(list(back.columns) == cols and np.array_equal(back.values, A) and all(abs(UTCDateTime(i).ns - (start + step * k).ns) < 1000 for k, i in enumerate(back.index)),
              "availability-read-back", lambda: dict(got=back.values, want=A))
    obs.key("availability", len(want), len(cols))
    # files of earlier versions: one column per station, standing for both phases
    if all(c.endswith("_P") for c in cols):
        for p in got.values():
            df = pd.read_csv(p, index_col=0)
            df.columns = [c[:-2] for c in cols]
            df.to_csv(p)
        back = read_availability(run, start, start + step * (n - 1))
        obs.check(sorted(back.columns) == sorted(c[:-1] + p for c in cols for p in "PS") and all(np.array_equal(back[c[:-1] + p].values, A[:, j]) for j, c in enumerate(cols) for p in "PS"),
                  "availability-earlier-layout", lambda: dict(got=back.values, want=A))
        obs.count("earlier_layout")


def pipeline(case, rng, obs):
    """what a location run held in memory against what it wrote"""
    from quakemigrate.signal.local_mag import LocalMag
    d = harness.case_dir()
    units = str(rng.choice(["km", "m"]))
    f = 1.0 if units == "km" else 1000.0
    sp = np.array(rng.choice([0.5, 1.0, 2.0], 3))
    seen, tables = [], []

    class Watching(LocalMag):
        def calc_magnitude(self, event, lut, run):
            tables.clear()
            if rng.random() < 0.8:
                event, mag = super().calc_magnitude(event, lut, run)
            else:
                mag = np.nan
            seen.append((memory(event, str(event.uid)), event.picks["df"].copy(deep=True), tables[0] if tables else None))
            return event, mag
    sub = "s" if rng.random() < 0.5 else ""
    w = synth.World(rng, d, n=5, nodes=(7, 7, 6), spacing=sp, units=units, sr=50, duration=90, events=2, t0="2020-12-31T23:59:30", ev_times=[20.0, 50.0 + float(rng.uniform(0, 5))])
    onset = synth.make_onset(50)
    scan = synth.make_scan(w.archive(), w.lut, onset, d / "runs", name="r1", marginal_window=0.5, run_subname=sub, write_marginal_coalescence=True)
    with synth.quiet():
        scan.mags = Watching({"signal_window": 1.0, "noise_window": 1.0}, {"A0": "UK"}, plot_amplitudes=False)
    from quakemigrate.io.data import WaveformData
    cm = scan.mags.mag.calculate_magnitudes

    def calc(a):
        out = cm(a)
        tables.append(out.copy(deep=True))
        return out
    scan.mags.mag.calculate_magnitudes = calc
    trig = [e["otime"] for e in w.events]
    rws = []
    for e in w.events:
        x = w.coord(e["ijk"])
        rws.append(dict(EventID=c15.uid_of(e["otime"]), CoaTime=str(e["otime"]), TRIG_COA=wide(rng, -1, 2), COA_X=x[0], COA_Y=x[1], COA_Z=x[2], COA=wide(rng, -1, 2), COA_NORM=wide(rng, 0, 1)))
    c15.write_files(d / "runs" / "r1", "r1", sub, rws, trig)
    # (instrument responses are C23's subject: here the simulated record is the record)
    WaveformData.get_wa_waveform, keep = (lambda self, tr, velocity=False, **k: tr.copy()), WaveformData.get_wa_waveform
    try:
        with synth.quiet(), np.errstate(all="ignore"):
            scan.locate(starttime=w.t0, endtime=w.t0 + 90)
    finally:
        WaveformData.get_wa_waveform = keep
    root = d / "runs" / "r1" / "locate" / sub
    dcm = decimals(w.lut)
    if not obs.check(len(seen) >= 1, "pipeline-located", "no event was located"):
        return
    ids = sorted(m["uid"] for m, _, _ in seen)
    for kind, ext, want in (("events", "event", ids), ("picks", "picks", ids), ("marginalised_coalescence_maps", "npy", ids), ("amplitudes", "amps", sorted(m["uid"] for m, _, t in seen if t is not None))):
        names = sorted(p.stem for p in (root / kind).glob(f"*.{ext}"))
        obs.check(names == want, "pipeline-files", lambda: dict(kind=kind, got=names, want=want))
    for m, df, tab in seen:
        src = [r for r in rws if r["EventID"] == m["uid"]]
        obs.check(len(src) == 1 and all(abs(m[a] - src[0][b]) <= 1e-9 * abs(m[a]) for a, b in (("TRIG_COA", "TRIG_COA"), ("DEC_COA", "COA"), ("DEC_COA_NORM", "COA_NORM"))),
                  "pipeline-trigger-values", lambda: dict(got=m, want=src))
        judge_event(obs, root / "events" / f"{m['uid']}.event", m, dcm)
        judge_picks(obs, root / "picks" / f"{m['uid']}.picks", df, m["uid"])
        if tab is not None:
            judge_amps(obs, root / "amplitudes" / f"{m['uid']}.amps", tab, m["uid"])
            obs.count("pipeline_amplitudes")
    obs.count("located", len(seen))


def main(chk):
    chk.run(files, [dict(id=f"f{i}") for i in range(chk.pick(240, 4000))])
    chk.run(availability, [dict(id=f"a{i}") for i in range(chk.pick(120, 2000))])
    chk.run(pipeline, [dict(id=f"p{i}") for i in range(chk.pick(16, 200))])
    chk.require(event_files=chk.pick(150, 2500), picks=300, missing_picks=100, amplitude_rows=500, maps=200, availability_rows=400, earlier_layout=20, pipeline_amplitudes=8, located=16)
    chk.rule = "result files against the values held in memory; a key is a distinct precision, magnitude or layout pattern"
