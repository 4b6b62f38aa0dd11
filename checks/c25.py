"""C25: input tables are read completely; what does not fit is refused before any result."""
import csv, logging, pathlib, pickle
import numpy as np
import pandas as pd
from obspy import UTCDateTime, read_inventory
from qv import harness, synth, pipe

STYLES = ["plain", "lead0", "int", "na", "expo", "bool", "mixed", "unicode"]


def name_list(rng, style, n):
    if style == "plain":
        return [f"S{k:03d}" for k in range(n)]
    if style == "lead0":
        return [f"{k:04d}" for k in range(n)]
    if style == "int":
        return [str(100 + k) for k in range(n)]
    if style == "na":
        return (["NA", "NaN", "null", "None", "nan", "N/A", "NULL"] * n)[:n]
    if style == "expo":
        return [f"{k + 1}E{k % 7 + 1}" for k in range(n)]
    if style == "bool":
        return (["TRUE", "False", "T", "Y"] * n)[:n]
    if style == "unicode":
        return [f"Þó{k}é" for k in range(n)]
    return [f"{k}" if k % 2 else f"ST{k}" for k in range(n)]


def number(rng, lo, hi):
    v = rng.uniform(lo, hi)
    return [f"{v:.0f}", f"{v:.1f}", f"{v:.4f}", f"{v:.8f}", repr(float(v)), f"{v:.6e}"][int(rng.integers(6))]


def write_table(path, cols, rows, sep=",", eol="\n", pre=()):
    with open(path, "w", encoding="utf-8", newline="") as f:
        for p in pre:
            f.write(p + eol)
        f.write(sep.join(cols) + eol)
        for r in rows:
            f.write(sep.join(r[c] for c in cols) + eol)


def same_floats(obs, key, got, want, msg):
    obs.check(len(got) == len(want), key + "_rows", f"{msg}: {len(got)} rows read, {len(want)} in the file")
    if len(got) == len(want):
        obs.close(key, np.asarray(got, float), np.asarray(want, float), rtol=1e-13, atol=1e-14, msg=msg)


def stations_case(case, rng, obs):
    from quakemigrate.io import read_stations
    import quakemigrate.util as util
    d = harness.case_dir()
    required = ["Latitude", "Longitude", "Elevation", "Name"]
    for k in range(6):
        n = int(rng.choice([1, 2, 7, 60, 400]))
        style = str(rng.choice(STYLES))
        extra = [e for e in ["Network", "Comment", "latitude", "Depth", "Start"] if rng.random() < 0.3]
        cols = [str(c) for c in rng.permutation(required + extra)]
        names = name_list(rng, style, n)
        rows = []
        for i in rng.permutation(n):
            r = dict(Latitude=number(rng, -90, 90), Longitude=number(rng, -180, 180), Elevation=number(rng, -500, 4000), Name=names[i])
            r.update({e: ["XX", "a b", "7", "-3.25", ""][int(rng.integers(5))] for e in extra})     # empty: not known for this station
            rows.append(r)
        sep, kw, pre = ",", {}, []
        form = int(rng.integers(5))
        if form == 1:
            sep, kw = "\t", dict(sep="\t")
        elif form == 2:
            sep, kw = ";", dict(delimiter=";")
        elif form == 3:
            pre, kw = ["# a comment line"], dict(comment="#")
        elif form == 4:
            pre, kw = ["a title", "another title"], dict(skiprows=2)
        f = d / f"st{k}.txt"
        write_table(f, cols, rows, sep, "\r\n" if rng.random() < 0.2 else "\n", pre)
        kw0 = dict(kw)
        with obs.no_raise("station_read", f"valid station table ({style}, {n} rows, columns {cols})"):
            got = read_stations(str(f) if rng.random() < 0.5 else f, **kw)
        obs.count("station_tables")
        obs.count("station_rows", n)
        obs.key("stations", style, form, tuple(sorted(extra)), n)
        obs.check(set(cols) <= set(got.columns), "station_columns", lambda: f"columns {list(got.columns)} read from {cols}")
        obs.check([x for x in got["Name"]] == [r["Name"] for r in rows] and all(isinstance(x, str) for x in got["Name"]), "station_names",
                  lambda: f"{style}: names {list(got['Name'])[:8]} read from {[r['Name'] for r in rows][:8]}")
        for c in ("Latitude", "Longitude"):
            same_floats(obs, "station_values", got[c], [float(r[c]) for r in rows], c)
        # "positive upwards" in the file; depth-positive in the frame of the lookup table
        same_floats(obs, "station_elevation", got["Elevation"], [-float(r["Elevation"]) for r in rows], "elevation (sign reversed)")
        for e in extra:
            blank = [r[e] == "" for r in rows]
            obs.check([bool(v) for v in pd.isna(got[e])] == blank, "station_extra", f"empty entries of extra column {e}")
            obs.count("empty_entries", sum(blank))
            if any(blank):
                continue
            obs.check([str(x) if not isinstance(x, float) else float(x) for x in got[e]]
                      == [r[e] if not isinstance(x, float) else float(r[e]) for x, r in zip(got[e], rows)] or
                      all(_eq(x, r[e]) for x, r in zip(got[e], rows)), "station_extra", f"extra column {e} altered")
        # --- any proper subset of the required columns is refused ---
        for drop in _subsets(rng, required):
            keep = [c for c in cols if c not in drop]
            if not keep:
                keep = ["Comment"]
                for r in rows:
                    r.setdefault("Comment", "x")
            if rng.random() < 0.3:                 # the header is case sensitive
                keep, ren = [], {}
                for c in cols:
                    keep.append(c.lower() if c in drop else c)
                keep = list(dict.fromkeys(keep))
                bad = [{**r, **{c.lower(): r[c] for c in drop}} for r in rows]
            else:
                bad = rows
            write_table(d / "bad.txt", keep, bad, sep, "\n", pre)
            try:
                got = read_stations(str(d / "bad.txt"), **dict(kw0))
                obs.violate("station_header_accepted", f"a table with columns {keep} was accepted")
            except util.StationFileHeaderException:
                obs.count("station_refusals")
                obs.key("drop", tuple(sorted(drop)))
            except Exception as e:
                obs.violate("station_header_error", f"columns {keep}: {type(e).__name__} instead of StationFileHeaderException: {e}")


def _eq(x, s):
    try:
        return float(x) == float(s)
    except ValueError:
        return str(x) == s


def _subsets(rng, cols):
    out = [[c] for c in cols]
    for _ in range(3):
        out.append([c for c in cols if rng.random() < 0.5] or list(cols))
    return out


def vmodel_case(case, rng, obs):
    from quakemigrate.io import read_vmodel
    from quakemigrate.lut import compute_traveltimes
    import quakemigrate.util as util
    d = harness.case_dir()
    for k in range(6):
        n = int(rng.choice([1, 2, 5, 30, 200]))
        phases = [p for p in ["Vp", "Vs", "Vsh", "Vx"] if rng.random() < 0.6] or ["Vp"]
        extra = [e for e in ["Rho", "Qp"] if rng.random() < 0.3]
        cols = [str(c) for c in rng.permutation(["Depth"] + phases + extra)]
        dep = np.sort(rng.uniform(-3, 60, n))
        if n > 2 and rng.random() < 0.3:       # discontinuities, given twice
            j = rng.integers(1, n, max(1, n // 5))
            dep[j] = dep[j - 1]
            obs.count("discontinuities")
        elif rng.random() < 0.2:
            dep = rng.permutation(dep)
        rows = [dict({c: number(rng, 1, 8) for c in phases + extra}, Depth=repr(float(z))) for z in dep]
        sep, kw = [(",", {}), ("\t", dict(sep="\t")), (" ", dict(sep=r"\s+"))][int(rng.integers(3))]
        write_table(d / "v.txt", cols, rows, sep)
        with obs.no_raise("vmodel_read", f"valid velocity model with columns {cols}"):
            got = read_vmodel(str(d / "v.txt"), **kw)
        obs.count("velocity_models")
        obs.key("vmodel", tuple(sorted(phases)), n, sep)
        obs.check(set(got.columns) == set(cols), "vmodel_columns", lambda: f"columns {list(got.columns)} read from {cols}")
        for c in cols:
            same_floats(obs, "vmodel_values", got[c], [float(r[c]) for r in rows], c)
        keep = [c for c in cols if c != "Depth"]
        if rng.random() < 0.4:
            keep = [c if c != "Depth" else "depth" for c in cols]
            rows = [{**r, "depth": r["Depth"]} for r in rows]
        write_table(d / "b.txt", keep, rows, sep)
        try:
            read_vmodel(str(d / "b.txt"), **kw)
            obs.violate("vmodel_header_accepted", f"a model with columns {keep} was accepted")
        except util.InvalidVelocityModelHeader as e:
            obs.check("Depth" in str(e), "vmodel_header_message", f"message does not name the missing column: {e}")
            obs.count("vmodel_refusals")
        except Exception as e:
            obs.violate("vmodel_header_error", f"columns {keep}: {type(e).__name__} instead of InvalidVelocityModelHeader: {e}")
    # --- a model or argument list that lacks a phase asked for must not make a table ---
    spec = synth.grid_spec((6, 6, 5), (1.0, 1.0, 1.0))
    st = synth.stations_df(rng, spec, 3)
    vm = pd.DataFrame(dict(Depth=[-5.0, 2.0, 30.0], Vp=[5.0, 6.0, 7.0]))
    for method, kw, exc in [("homogeneous", dict(vp=5.0), TypeError), ("homogeneous", dict(vs=3.0), TypeError),
                            ("1dfmm", dict(), TypeError), ("1dnlloc", dict(), TypeError), ("3dfmm", dict(), NotImplementedError),
                            ("nonsense", dict(vp=5.0, vs=3.0), ValueError),
                            ("1dnlloc", dict(vmod=vm), Exception), ("1dfmm", dict(vmod=vm), (util.InvalidVelocityModelHeader, ImportError))]:
        f = d / "bad.LUT"
        try:
            with synth.quiet():
                compute_traveltimes(spec, st.copy(), method=method, phases=["S"] if "vmod" in kw else ["P", "S"], save_file=str(f), **kw)
            obs.violate("traveltimes_accepted", f"method {method} with only {list(kw)} produced a table for P and S")
        except Exception as e:
            obs.check(isinstance(e, exc), "traveltimes_error", f"method {method} with {list(kw)}: {type(e).__name__}: {e}; expected {exc}")
            obs.count("traveltime_refusals")
            obs.key("tt", method, tuple(kw))
        obs.check(not f.exists(), "traveltimes_saved", f"method {method} with {list(kw)} left a lookup table file behind")


COLS = ["EventID", "CoaTime", "TRIG_COA", "COA_X", "COA_Y", "COA_Z", "COA", "COA_NORM"]


def trig_rows(rng, times):
    rows = []
    for t in times:
        rows.append(dict(EventID=str(t)[:-4].replace("-", "").replace("T", "").replace(":", "").replace(".", "").replace("Z", ""), CoaTime=str(t), TRIG_COA=round(float(rng.uniform(1, 9)), 9),
                         COA_X=float(rng.uniform(-180, 180)), COA_Y=float(rng.uniform(-90, 90)), COA_Z=float(rng.uniform(-3, 40)),
                         COA=float(rng.uniform(1, 9)), COA_NORM=float(rng.uniform(1, 3))))
    return rows


def judge_events(obs, got, want, what):
    obs.check(len(got) == len(want), "events_rows", f"{what}: {len(got)} events read, {len(want)} expected")
    obs.count("event_rows", len(want))
    if len(got) != len(want):
        return
    obs.check([str(x) for x in got["EventID"]] == [r["EventID"] for r in want], "events_order", f"{what}: identifiers or order differ")
    obs.check([t.ns for t in got["CoaTime"]] == [UTCDateTime(r["CoaTime"]).ns for r in want], "events_times", f"{what}: times altered")
    for c in COLS[2:]:
        same_floats(obs, "events_values", got[c], [r[c] for r in want], f"{what} {c}")
    obs.check(list(got.index) == list(range(len(want))), "events_index", f"{what}: rows not renumbered")


def events_case(case, rng, obs):
    from quakemigrate.io.core import Run
    from quakemigrate.io.triggered_events import read_triggered_events
    import quakemigrate.util as util
    d = harness.case_dir()
    for k in range(4):
        sub = str(rng.choice(["", "sub"]))
        run = Run(d, f"r{k}", sub)
        day0 = UTCDateTime(str(rng.choice(["2019-12-30", "2020-02-27", "2021-06-01"])))
        rows = []
        for i in range(int(rng.integers(1, 5))):
            if rng.random() < 0.2 and i:
                continue                               # a day without a file
            day = day0 + 86400 * i
            n = int(rng.choice([0, 1, 3, 40]))
            offs = np.sort(rng.integers(0, 86400 * 1000, n)) / 1000
            if n and rng.random() < 0.4:
                offs[0] = 0.0
            if n > 1 and rng.random() < 0.4:
                offs[-1] = 86399.999
            rr = trig_rows(rng, [day + float(o) for o in offs])
            p = d / f"r{k}" / "trigger" / sub / "events"
            p.mkdir(parents=True, exist_ok=True)
            with open(p / f"{run.name}_{day.year}_{day.julday:03d}_TriggeredEvents.csv", "w", newline="") as f:
                w = csv.writer(f)
                w.writerow(COLS)
                for r in rr:
                    w.writerow([r[c] if isinstance(r[c], str) else repr(r[c]) for c in COLS])
            rows += [(day.ns, r) for r in rr]
        cand = [UTCDateTime(r["CoaTime"]) for _, r in rows]
        for _ in range(6):
            if cand and rng.random() < 0.6:
                a = cand[int(rng.integers(len(cand)))]
            else:
                a = day0 + float(rng.integers(0, 3 * 86400))
            b = a + [0.0, 1.0, 3600.0, 86400.0, 3 * 86400.0][int(rng.integers(5))]
            if rng.random() < 0.4:
                b = UTCDateTime((b + 86400).date)
            if cand and rng.random() < 0.3:
                b = max(a, cand[int(rng.integers(len(cand)))])
            covered = [day0 + 86400 * i for i in range(6) if (d / f"r{k}" / "trigger" / sub / "events" / f"{run.name}_{(day0 + 86400 * i).year}_{(day0 + 86400 * i).julday:03d}_TriggeredEvents.csv").exists()
                       and UTCDateTime(a.date) <= day0 + 86400 * i <= b]
            midnight = b.ns % (86400 * 10 ** 9) == 0
            want = [r for _, r in rows if a.ns <= UTCDateTime(r["CoaTime"]).ns and
                    (UTCDateTime(r["CoaTime"]).ns < b.ns if midnight else UTCDateTime(r["CoaTime"]).ns <= b.ns)]
            try:
                got = read_triggered_events(run, starttime=a, endtime=b)
            except util.NoTriggerFilesFound:
                obs.check(not covered, "events_nofile", f"{a} to {b}: NoTriggerFilesFound although {len(covered)} files are there")
                obs.count("nofile_refusals")
                continue
            obs.check(bool(covered), "events_nofile_accepted", f"{a} to {b}: no file, no error")
            judge_events(obs, got, want, f"{a} to {b}")
            obs.count("event_windows")
            obs.key("window", len(want) > 0, midnight, len(covered), sub)
        # --- a file of the user's own, in any order, with extra columns ---
        rr = trig_rows(rng, [day0 + float(o) / 100 for o in rng.integers(0, 4 * 8640000, int(rng.integers(1, 30)))])
        cols = [str(c) for c in rng.permutation(COLS)] + (["MinTime"] if rng.random() < 0.5 else [])
        with open(d / "own.csv", "w", newline="") as f:
            w = csv.writer(f)
            w.writerow(cols)
            for r in rr:
                r.setdefault("MinTime", r["CoaTime"])
                w.writerow([r[c] if isinstance(r[c], str) else repr(r[c]) for c in cols])
        judge_events(obs, read_triggered_events(run, trigger_file=str(d / "own.csv")), rr, "trigger_file")
        obs.count("event_files")


def lut_case(case, rng, obs):
    from quakemigrate.io import read_lut, read_response_inv
    from quakemigrate.lut import compute_traveltimes
    d = harness.case_dir()
    spec = synth.grid_spec(tuple(int(v) for v in rng.integers(5, 9, 3)), np.round(rng.uniform(0.3, 2, 3), 3))
    st = synth.stations_df(rng, spec, int(rng.integers(1, 8)))
    st = st.sample(frac=1, random_state=int(rng.integers(10 ** 6)))
    f = d / "sub" / "t.LUT"
    phases = [["P", "S"], ["P"], ["S", "P"]][int(rng.integers(3))]
    with synth.quiet():
        lut = compute_traveltimes(spec, st.copy(), method="homogeneous", phases=phases, vp=5.0, vs=3.0, save_file=str(f))
        back = read_lut(str(f))
    obs.count("tables_restored")
    obs.key("lut", tuple(phases), len(st), tuple(int(v) for v in lut.node_count))
    obs.check(list(back.station_data["Name"]) == list(st["Name"]) and back.station_data.reset_index(drop=True).equals(st.reset_index(drop=True)), "lut_stations", "stations of the restored table differ")
    obs.check(list(back.phases) == phases, "lut_phases", f"phases {back.phases} restored from {phases}")
    for a in ("ll_corner", "ur_corner", "node_spacing", "node_count", "precision"):
        obs.check(np.array_equal(np.asarray(getattr(back, a)), np.asarray(getattr(lut, a))), "lut_grid", f"{a} differs after reading back")
    for s in st["Name"]:
        for p in phases:
            obs.check(np.array_equal(back.traveltimes[s][p], lut.traveltimes[s][p]), "lut_values", f"traveltimes {s}/{p} differ after reading back")
    obs.check(np.allclose(back.index2coord([[1, 2, 3]]), lut.index2coord([[1, 2, 3]]), rtol=0, atol=1e-12), "lut_projection", "projection differs after reading back")
    # --- response files ---
    from obspy.core.inventory import Inventory, Network, Station, Channel, Response, InstrumentSensitivity
    chs = []
    for _, r in st.iterrows():
        resp = Response(instrument_sensitivity=InstrumentSensitivity(value=float(rng.uniform(1e8, 1e9)), frequency=1.0, input_units="M/S", output_units="COUNTS"))
        chs.append(Station(r.Name, float(r.Latitude), float(r.Longitude), 10.0, channels=[Channel("HHZ", "", float(r.Latitude), float(r.Longitude), 10.0, 0.0, response=resp)]))
    inv = Inventory(networks=[Network("XX", stations=chs)], source="qv")
    inv.write(str(d / "r.xml"), format="STATIONXML")
    got = read_response_inv(str(d / "r.xml"))
    for c, s in zip(chs, st["Name"]):
        obs.check(got.get_response(f"XX.{s}..HHZ", UTCDateTime(2020, 1, 1)).instrument_sensitivity.value == c.channels[0].response.instrument_sensitivity.value, "response_read", f"sensitivity of {s} differs")
    obs.count("response_channels", len(chs))
    (d / "junk.txt").write_text("\n".join(str(v) for v in rng.integers(0, 99, 20)))
    for a, exc in [((str(d / "junk.txt"), False), TypeError), ((str(d / "r.xml"), True), NotImplementedError)]:
        try:
            read_response_inv(*a)
            obs.violate("response_accepted", f"read_response_inv{a} was accepted")
        except Exception as e:
            obs.check(isinstance(e, exc), "response_error", f"read_response_inv{a}: {type(e).__name__}, expected {exc.__name__}")
            obs.count("response_refusals")


def results(run_dir):
    """Files holding results (everything but logs)."""
    return sorted(str(p.relative_to(run_dir)) for p in pathlib.Path(run_dir).rglob("*") if p.is_file() and p.suffix != ".log") if pathlib.Path(run_dir).exists() else []


class NotOnset:
    def __init__(self, o):
        self.__dict__.update(o.__dict__)
        self.phases, self.post_pad = o.phases, 0


def refused(obs, what, exc, run_dir, fn, only=None):
    """fn must raise exc, without leaving results of kind `only` (default: any) behind."""
    before = results(run_dir)
    try:
        with synth.quiet():
            fn()
        obs.violate("accepted/" + what, f"{what}: accepted")
    except Exception as e:
        obs.check(isinstance(e, exc), "wrong_error/" + what, f"{what}: {type(e).__name__}: {str(e)[:200]}; expected {exc}")
    left = [f for f in results(run_dir) if f not in before and (only is None or any(o in f for o in only))]
    obs.check(not left, "result_left/" + what, f"{what}: refused but {left} was written")
    obs.count("refusals")
    obs.key("refused", what)


def component_case(case, rng, obs):
    import quakemigrate.util as util
    from quakemigrate.signal import QuakeScan, Trigger
    from quakemigrate.signal.pickers import GaussianPicker
    from quakemigrate.signal.local_mag import LocalMag
    from quakemigrate.signal.onsets import STALTAOnset
    from quakemigrate.lut import compute_traveltimes
    from quakemigrate.io import Archive
    d = harness.case_dir()
    w = synth.World(rng, d, n=4, nodes=(6, 6, 5), duration=60.0, ev_times=[30.0], sr=50)
    onset = lambda: synth.make_onset(50)
    arch = w.archive()
    base = dict(run_path=str(d), plot_event_summary=False, threads=1)
    t0, t1 = str(w.t0 + 20), str(w.t0 + 40)
    k = iter(range(1000))

    def scan(name, lut=None, archive=None, on=None, **kw):
        return QuakeScan(archive or arch, lut or w.lut, onset=on or onset(), run_name=name, **{**base, **kw})

    wrong = [None, "onset", 3, dict(), STALTAOnset, GaussianPicker, NotOnset(onset()), LocalMag]
    for x in wrong:
        n = f"w{next(k)}"
        refused(obs, f"onset={type(x).__name__}", util.OnsetTypeError, d / n, lambda: QuakeScan(arch, w.lut, onset=x, run_name=n, **base))
    for x in ["picker", 3, onset(), GaussianPicker, LocalMag({}, dict(A0="UK"))]:
        n = f"w{next(k)}"
        refused(obs, f"picker={type(x).__name__}", util.PickerTypeError, d / n, lambda: scan(n, picker=x))
    for x in ["mags", 3, onset(), LocalMag, GaussianPicker(onset())]:
        n = f"w{next(k)}"
        refused(obs, f"mags={type(x).__name__}", util.MagsTypeError, d / n, lambda: scan(n, mags=x))
    # --- traveltime tables that lack a phase or a station ---
    with synth.quiet():
        plut = compute_traveltimes(w.spec, w.stations.copy(), method="homogeneous", phases=["P"], vp=5.0)
        slut = compute_traveltimes(w.spec, w.stations.iloc[:-1].copy(), method="homogeneous", phases=["P", "S"], vp=5.0, vs=3.0)
    row = trig_rows(rng, [w.events[0]["otime"]])
    row[0].update(dict(zip(["COA_X", "COA_Y", "COA_Z"], [float(v) for v in w.coord(w.events[0]["ijk"])])))
    for n, lut, exc in [("tp", plut, util.LUTPhasesException), ("ts", slut, Exception)]:
        what = "table without S" if n == "tp" else "table without a station"
        refused(obs, "detect with " + what, exc, d / n, lambda: scan(n, lut=lut, timestep=10.0, scan_rate=25).detect(t0, t1))
        pipe.write_triggers(d / n, row, w.t0)
        refused(obs, "locate with " + what, exc, d / n, lambda: scan(n, lut=lut, marginal_window=1.0).locate(t0, t1))
    # --- magnitudes that need what is not there ---
    mag = lambda: LocalMag(dict(signal_window=2.0), dict(A0="UK"), plot_amplitudes=False)
    pipe.write_triggers(d / "mp", row, w.t0)
    one = synth.make_onset(50, phases=["P"])
    refused(obs, "magnitudes with a table without S", util.LUTPhasesException, d / "mp",
            lambda: scan("mp", lut=plut, on=one, mags=mag(), marginal_window=1.0, picker=GaussianPicker(synth.make_onset(50, phases=["P"]), plot_picks=False)).locate(t0, t1), only=[".event", "amplitudes"])
    pipe.write_triggers(d / "mr", row, w.t0)
    refused(obs, "magnitudes without responses", AttributeError, d / "mr", lambda: scan("mr", mags=mag(), marginal_window=1.0, picker=GaussianPicker(onset(), plot_picks=False)).locate(t0, t1), only=[".event", "amplitudes"])
    for extra in ("real", "wa"):
        pipe.write_triggers(d / f"cw{extra}", row, w.t0)
        refused(obs, f"{extra} cut waveforms without responses", AttributeError, d / f"cw{extra}",
                lambda: scan(f"cw{extra}", marginal_window=1.0, picker=GaussianPicker(onset(), plot_picks=False), **{f"write_{extra}_waveforms": True}).locate(t0, t1), only=["cut_waveforms"])
    for p, exc in [(dict(), (TypeError, KeyError)), (dict(A0="nonsense"), ValueError)]:
        refused(obs, f"magnitude parameters {p}", exc, d / "none", lambda: attenuation(p))
    for p in [dict(highpass_filter=True), dict(bandpass_filter=True), dict(bandpass_filter=True, bandpass_lowcut=1.0), dict(highpass_filter=True, highpass_freq=1.0, bandpass_filter=True, bandpass_lowcut=1.0, bandpass_highcut=2.0), dict(bandpass_filter=True, bandpass_highcut=1.0)]:
        refused(obs, f"amplitude parameters {sorted(p)}", AttributeError, d / "none", lambda: LocalMag(p, dict(A0="UK")))
    # --- archives ---
    for fmt in ["nonsense", "YEAR/JD/station", ""]:
        refused(obs, f"archive format {fmt!r}", util.ArchivePathStructureError if fmt else (util.ArchivePathStructureError, util.ArchiveFormatException), d / "arch",
                lambda: scan("arch", archive=Archive(archive_path=str(w.archive_root), stations=w.stations, archive_format=fmt), timestep=10.0, scan_rate=25).detect(t0, t1))
    refused(obs, "no archive format", util.ArchiveFormatException, d / "arch2",
            lambda: scan("arch2", archive=Archive(archive_path=str(w.archive_root), stations=w.stations), timestep=10.0, scan_rate=25).detect(t0, t1))
    # --- parameters of the stages ---
    refused(obs, "detect backwards", util.TimeSpanException, d / "back", lambda: scan("back", timestep=10.0, scan_rate=25).detect(t1, t0))
    refused(obs, "locate backwards", util.TimeSpanException, d / "back", lambda: scan("back").locate(t1, t0))
    refused(obs, "locate without a window", RuntimeError, d / "back", lambda: scan("back").locate())
    refused(obs, "locate without triggers", util.NoTriggerFilesFound, d / "back", lambda: scan("back").locate(t0, t1))
    refused(obs, "locate half a window", Exception, d / "back", lambda: scan("back").locate(starttime=t0))
    tr = lambda n, **kw: Trigger(w.lut, run_path=str(d), run_name=n, plot_trigger_summary=False, **kw)
    refused(obs, "trigger backwards", util.TimeSpanException, d / "tb", lambda: tr("tb").trigger(t1, t0))
    refused(obs, "trigger method", util.InvalidTriggerThresholdMethodException, d / "tm", lambda: tr("tm", threshold_method=str(rng.choice(["nonsense", "Static", ""]))).trigger(t0, t1))
    refused(obs, "trigger interval", ValueError, d / "ti", lambda: tr("ti", marginal_window=2.0, min_event_interval=float(rng.choice([0.0, 2.0, 3.99]))).trigger(t0, t1))
    refused(obs, "trigger without detect", util.NoScanMseedDataException, d / "tn", lambda: tr("tn", marginal_window=1.0, min_event_interval=4.0).trigger(t0, t1))
    ok = tr("ok", marginal_window=2.0, min_event_interval=4.0)
    refused(obs, "set interval", ValueError, d / "ok", lambda: setattr(ok, "min_event_interval", 3.9))
    # --- onset and picker parameters ---
    refused(obs, "onset without a rate", (ValueError, TypeError), d / "none", lambda: STALTAOnset())
    refused(obs, "min_onset_value", ValueError, d / "none", lambda: STALTAOnset(sampling_rate=50, min_onset_value=float(rng.choice([0.009, 0.0, -1.0]))))
    refused(obs, "pick threshold method", util.InvalidPickThresholdMethodException, d / "none", lambda: GaussianPicker(onset(), threshold_method="nonsense"))
    hi = synth.make_onset(50)
    hi.bandpass_filters = {"P": [2.0, 25.0, 2], "S": [2.0, 26.0, 2]}
    refused(obs, "filter above Nyquist", util.NyquistException, d / "ny", lambda: scan("ny", on=hi, timestep=10.0, scan_rate=25).detect(t0, t1))
    # --- and the same components, put right, do work (the refusals above are not vacuous) ---
    with synth.quiet():
        s = scan("good", timestep=10.0, scan_rate=25, marginal_window=1.0, picker=GaussianPicker(onset(), plot_picks=False))
        s.detect(t0, t1)
        pipe.write_triggers(d / "good", row, w.t0)
        s.locate(t0, t1)
    good = results(d / "good")
    obs.check(any("scanmseed" in f for f in good) and any(f.endswith(".event") for f in good) and any(f.endswith(".picks") for f in good), "control", f"the corrected run wrote only {good}")


def attenuation(params):
    """The magnitude of one amplitude observation under the given parameters."""
    from quakemigrate.signal.local_mag import LocalMag
    import pandas as pd
    mag = LocalMag({}, params).mag
    cols = ["epi_dist", "z_dist", "P_amp", "P_freq", "P_time", "P_avg_amp", "P_filter_gain", "S_amp", "S_freq", "S_time", "S_avg_amp", "S_filter_gain", "Noise_amp", "is_picked"]
    df = pd.DataFrame([[10.0, 5.0] + [1.0] * 11 + [True]], columns=cols, index=["XX.AAA..HHN"])
    return mag.calculate_magnitudes(df)


def main(chk):
    q = chk.pick
    chk.run(stations_case, [dict(id=f"s{i}") for i in range(q(24, 400))])
    chk.run(vmodel_case, [dict(id=f"v{i}") for i in range(q(10, 120))])
    chk.run(events_case, [dict(id=f"e{i}") for i in range(q(24, 400))])
    chk.run(lut_case, [dict(id=f"l{i}") for i in range(q(10, 120))])
    chk.run(component_case, [dict(id=f"c{i}") for i in range(q(6, 60))])
    s = q(1, 12)
    chk.require(station_tables=70 * s, station_refusals=450 * s, velocity_models=30 * s, event_windows=200 * s, refusals=130 * s, tables_restored=5 * s)
    chk.rule = ("tables: values written by the generator against values read (names verbatim, order, row count, signs); "
             "every proper subset of required columns; refusals: exception class and absence of result files")
