"""C27: a stage's results depend only on its inputs, not on earlier work."""
import copy
import io
import os
import pickle
import shutil
from types import SimpleNamespace

import numpy as np
import pandas as pd
from obspy import UTCDateTime
from checks import c10, c15, c21, c23
from qv import harness, pipe, stage, synth

NAME = "run"


# --- what a stage was given, as seen from outside -------------------------------------
def view(o, depth=0):
    """Comparable picture of the public state of an object."""
    if isinstance(o, np.ndarray):
        return ("array", o.dtype.str, o.shape, o.tobytes() if o.dtype != object else repr(o.tolist()))
    if isinstance(o, pd.DataFrame):
        return ("frame", [str(c) for c in o.columns], [str(i) for i in o.index], [repr(v) for c in o.columns for v in o[c]])
    if isinstance(o, pd.Series):
        return ("series", str(o.name), [str(i) for i in o.index], [repr(v) for v in o])
    if isinstance(o, dict):
        return ("dict", [(str(k), view(v, depth + 1)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [view(v, depth + 1) for v in o])
    if o is None or isinstance(o, (bool, int, float, str, np.generic, UTCDateTime)):
        return repr(o)
    if hasattr(o, "__dict__") and depth < 4 and type(o).__module__.startswith("quakemigrate"):
        return {k: view(v, depth + 1) for k, v in vars(o).items() if not k.startswith("_")}
    return f"{type(o).__module__}.{type(o).__name__}"


def changes(before, after, at=""):
    """What was there before and is different now (new attributes are no one's input)."""
    if isinstance(before, dict) and isinstance(after, dict):
        return [c for k in before for c in ([f"{at}.{k} gone"] if k not in after else changes(before[k], after[k], f"{at}.{k}"))]
    return [] if before == after else [f"{at}: {str(before)[:200]} became {str(after)[:200]}"]


def files(root):
    return {str(p.relative_to(root)): p.read_bytes() for p in sorted(root.rglob("*")) if p.is_file()}


# --- the objects of a user's session --------------------------------------------------
class Session:
    """Objects that live as long as a process does."""

    def __init__(self, d, w, o):
        self.d, self.w, self.o = d, w, o
        self.stations = pd.read_csv(d / "stations.csv", dtype={"Name": str})
        from quakemigrate.io import read_lut
        with synth.quiet():
            self.lut = read_lut(str(d / "table.lut"))
        with open(d / "inv.pkl", "rb") as f:
            self.inv = pickle.load(f)
        self.archive = synth.make_archive(d / "archive", self.stations, w.fmt, response_inv=self.inv)
        self.onset = self.new_onset()
        self.pick_onset = self.onset if o["shared_onset"] else self.new_onset(P=(0.2, o["pick_lta"]), S=(0.2, o["pick_lta"]))
        from quakemigrate.signal.local_mag import LocalMag
        from quakemigrate.signal.pickers import GaussianPicker
        self.picker = GaussianPicker(onset=self.pick_onset)
        self.amp_params = {"signal_window": 1.0, "noise_window": 2.0, "noise_measure": o["noise"], "bandpass_filter": True, "bandpass_lowcut": 2.0, "bandpass_highcut": 0.4 * w.sr}
        self.mag_params = {"A0": "UK", "amp_feature": "S_amp", "station_corrections": {f"XX.{n}..HHN": 0.1 for n in w.names[:2]}}
        self.mags = LocalMag(self.amp_params, self.mag_params, plot_amplitudes=False) if o["mags"] else None

    def new_onset(self, **kw):
        o = self.o
        return synth.make_onset(self.w.sr, position=o["position"], phases=o["phases"], allow_gaps=o["allow_gaps"], full_timespan=not o["allow_gaps"], **kw)

    def scan(self, root, **kw):
        kw = dict(self.o["scan"], picker=self.picker, mags=self.mags, **kw)
        name = kw.pop("name", NAME)
        return synth.make_scan(kw.pop("archive", self.archive), kw.pop("lut", self.lut), kw.pop("onset", self.onset), root, name, **kw)

    def trigger(self, root, lut=None, **kw):
        return synth.make_trigger(lut or self.lut, root, NAME, **dict(self.o["trigger"], **kw))

    def given(self):
        on = self.onset, self.pick_onset
        return {k: view(v) for k, v in dict(lut=self.lut, archive=self.archive, stations=self.stations, picker=self.picker, mags=self.mags, amp_params=self.amp_params, mag_params=self.mag_params,
                                            onset=on[0], pick_onset=on[1], inv=[[(c.code, c.response.instrument_sensitivity.value) for c in s] for n in self.inv for s in n]).items()}


class Stop(Exception):
    """The failure put into a run."""


def interrupted(archive, at):
    """An archive that fails at the n-th read."""
    a = copy.copy(archive)
    n = [0]

    def read(*args, **kw):
        n[0] += 1
        if n[0] > at:
            raise Stop
        return type(archive).read_waveform_data(archive, *args, **kw)
    a.read_waveform_data = read
    return a


# --- things done earlier --------------------------------------------------------------
def earlier(rng, S, root, kind, obs):
    """One piece of earlier work with the session's objects, in the run directory."""
    w, o = S.w, S.o
    beg, end = UTCDateTime(o["start"]), UTCDateTime(o["end"])
    ts = o["scan"]["timestep"]
    lo = beg + float(rng.integers(0, 3)) * ts
    try:
        with synth.quiet():
            if kind == "detect_full":
                S.scan(root).detect(str(beg), str(end))
            elif kind == "detect_part":
                S.scan(root, timestep=float(rng.choice([5.0, 10.0]))).detect(str(lo), str(lo + 2 * ts))
            elif kind == "detect_before":
                # the hours before, of the same day: a file of the same name
                a = max(UTCDateTime(beg.date), beg - 30 * ts)
                S.scan(root, timestep=ts if rng.random() < 0.5 else 10.0).detect(str(a), str(max(beg, a + ts)))
            elif kind == "detect_other_data":
                S.scan(root, archive=synth.make_archive(S.d / "noise", S.stations, w.fmt), onset=S.new_onset()).detect(str(beg), str(end))
            elif kind == "detect_other_name":
                S.scan(root, name="another").detect(str(lo), str(lo + 2 * ts))
            elif kind == "detect_fails":
                S.scan(root, archive=interrupted(S.archive, int(rng.integers(0, 4))), continuous_scanmseed_write=bool(rng.random() < 0.5)).detect(str(beg), str(end))
            elif kind == "detect_no_phase":
                lut = copy.deepcopy(S.lut)
                for v in lut.traveltimes.values():
                    v.pop(o["phases"][-1])
                S.scan(root, lut=lut, onset=S.new_onset()).detect(str(beg), str(end))
            elif kind == "detect_no_data":
                S.scan(root, continuous_scanmseed_write=True).detect(str(beg + 86400 * 40), str(beg + 86400 * 40 + 3 * ts))
            elif kind in ("other_table", "other_table_made"):
                # the same stations and grid, other traveltimes
                lut = copy.deepcopy(S.lut)
                f = float(rng.choice([0.02, 0.3, 1.9]))
                for v in lut.traveltimes.values():
                    for p in v:
                        v[p] = v[p] * f
                s = S.scan(root, lut=lut, name="another")
                if kind == "other_table":
                    s.detect(str(lo), str(lo + ts))
            elif kind == "other_grid":
                S.scan(root, lut=S.lut.decimate([2, 2, 1]), name="another").detect(str(lo), str(lo + ts))
            elif kind == "other_table_located":
                # another table (traveltimes and their uncertainty), used to locate
                lut = copy.deepcopy(S.lut)
                f = float(rng.choice([0.3, 1.9]))
                for v in lut.traveltimes.values():
                    for p in v:
                        v[p] = v[p] * f
                lut.fraction_tt = float(rng.choice([0.01, 0.9]))
                S.scan(root, lut=lut, name="another", marginal_window=0.8).locate(trigger_file=str(S.d / "t.csv"))
            elif kind == "locate_mags_other":
                # with magnitudes if the judged run has none, and the other way round
                from quakemigrate.signal.local_mag import LocalMag
                s = S.scan(root, name="another")
                s.mags = None if s.mags else LocalMag(dict(S.amp_params), dict(S.mag_params), plot_amplitudes=False)
                s.locate(trigger_file=str(S.d / "t.csv"))
            elif kind == "picking_onset_scanned":
                S.scan(root, onset=S.pick_onset, name="another").detect(str(lo), str(lo + ts))
            elif kind == "trigger_low":
                S.trigger(root, static_threshold=1.01, threshold_method="static", min_event_interval=2.0).trigger(str(beg), str(end))
            elif kind == "trigger_region":
                S.trigger(root).trigger(str(beg), str(end), region=[-170.0, 10.0, 1e4, -160.0, 20.0, 2e4])
            elif kind == "trigger_sub":
                S.trigger(root, static_threshold=1.2, trigger_name="sub").trigger(str(beg), str(end))
            elif kind == "trigger_windows":
                S.trigger(root, write_event_time_windows=True, smooth_coa=True, static_threshold=1.3).trigger(str(beg), str(end))
            elif kind == "trigger_fails":
                S.trigger(root, static_threshold=1.01, threshold_method="static").trigger(str(beg), str(end + 86400 * 3))
            elif kind == "locate_other":
                S.scan(root, marginal_window=0.8).locate(trigger_file=str(S.d / "t.csv"))
            elif kind == "locate_sub":
                S.scan(root, run_subname="sub", marginal_window=0.8).locate(trigger_file=str(S.d / "t.csv"))
            elif kind == "locate_cut":
                s = S.scan(root, name="another", write_cut_waveforms=True, write_marginal_coalescence=True)
                s.pre_cut, s.post_cut = 1.0, 2.0
                s.locate(trigger_file=str(S.d / "t.csv"))
            elif kind == "locate_fails":
                S.scan(root, archive=interrupted(S.archive, 1)).locate(trigger_file=str(S.d / "t.csv"))
            elif kind == "locate_nothing":
                S.scan(root).locate(trigger_file=str(S.d / "missing.csv"))
            elif kind == "locate_pick_fails":
                s = S.scan(root, name=NAME)
                keep = s.mags
                s.mags = SimpleNamespace(amp=SimpleNamespace(pad=lambda *a: (3.0, 3.0)), calc_magnitude=lambda *a: (_ for _ in ()).throw(Stop()))
                try:
                    s.locate(trigger_file=str(S.d / "t.csv"))
                finally:
                    s.mags = keep
            elif kind == "export":
                import quakemigrate.export.to_obspy as t
                t.read_quakemigrate(root / NAME, units=w.units)
            elif kind == "plots":
                S.trigger(root, plot_trigger_summary=True, static_threshold=1.05).trigger(str(beg), str(end))
            elif kind == "bad_arguments":
                for f in (lambda: S.scan(root, mags="none"), lambda: S.scan(root, onset="none"), lambda: S.scan(root, picker="x"), lambda: S.trigger(root, threshold_method="z"),
                          lambda: S.scan(root).detect(str(end), str(beg)), lambda: S.scan(root).locate()):
                    try:
                        f()
                    except Exception:
                        obs.count("failed_attempts")
    except Stop:
        obs.count("interrupted")
        obs.count("failed_attempts")
    except Exception:
        obs.count("failed_attempts")
    obs.count("earlier_actions")


KINDS = ["detect_part", "detect_before", "detect_other_data", "detect_other_name", "detect_fails", "detect_no_phase", "detect_no_data", "other_table", "other_table_made", "other_table_located", "locate_mags_other", "other_grid", "picking_onset_scanned",
         "trigger_low", "trigger_region", "trigger_sub", "trigger_windows", "trigger_fails", "locate_other", "locate_sub", "locate_cut", "locate_fails", "locate_nothing", "locate_pick_fails", "export", "plots", "bad_arguments"]


def stored(root, w):
    got, dup, mis, _ = pipe.collect(root / NAME, w.t0, w.sr, ucf=1.0)
    return {c: pd.Series(v).sort_index() for c, v in got.items()}


def located(root):
    keep = (".csv", ".event", ".picks", ".amps", ".npy", ".m")
    return {k: v for k, v in files(root / NAME / "locate").items() if k.endswith(keep)}


def same_scan(obs, key, root, ref, w, span, info):
    got = stored(root, w)
    lo, hi = span
    for c in ref:
        g = got[c]
        g = g[(g.index >= lo - 10 * w.sr * 3600) & (g.index <= hi + 10 * w.sr * 3600)]
        ok = g.index.equals(ref[c].index) and np.array_equal(g.values, ref[c].values)
        obs.check(ok, f"{key}/coalescence", lambda: f"{c}: {len(g)} samples stored, {len(ref[c])} expected; " + (f"{(g.values != ref[c].values).sum()} differ" if len(g) == len(ref[c]) else ""), **info)
    obs.count("samples_compared", len(ref["COA"]))


def same_files(obs, key, ref, got, info, skip=lambda k: False):
    bad = [k for k in ref if not skip(k) and got.get(k) != ref[k]]
    obs.check(not bad, key, lambda: f"{bad} differ(s) from a fresh run: {ref[bad[0]][:500]!r} against {got.get(bad[0], b'(missing)')[:500]!r}", **info)
    obs.count("files_compared", len(ref))


def histories(case, rng, obs):
    d = harness.case_dir()
    w = c10.world(rng, d, nev=2, dur=110.0, gaps=True)
    # an archive of the same stations without the events
    st = synth.make_waveforms(rng, w.names, w.t0, w.duration, w.sr, ())
    synth.write_archive(d / "noise", st, w.fmt)
    beg = w.t0 + 12.0
    ts = float(rng.choice([8.0, 16.0]))
    end = beg + 80 - 1 / w.sr
    o = dict(start=str(beg), end=str(end), position=str(rng.choice(["classic", "centred"])), phases=w.phases, allow_gaps=bool(rng.random() < 0.3), shared_onset=bool(rng.random() < 0.5), pick_lta=float(rng.choice([1.0, 4.0])),
             mags=bool(rng.random() < 0.6), noise=str(rng.choice(["RMS", "STD", "ENV"])), scan=dict(timestep=ts, marginal_window=float(rng.choice([0.6, 1.0])), threads=int(rng.integers(1, 5))),
             trigger=dict(static_threshold=2.0, threshold_method=str(rng.choice(["static", "mad", "median_ratio"])), mad_multiplier=6.0, median_multiplier=1.8, marginal_window=1.0, min_event_interval=4.0, pad=float(rng.choice([3.0, 8.0])),
                          normalise_coalescence=bool(rng.random() < 0.4)))
    o["tspan"] = [str(beg + float(rng.integers(0, 12))), str(end - float(rng.integers(0, 12)))]
    if rng.random() < 0.4:      # an event right at the start
        o["tspan"][0] = str(w.events[0]["otime"] + float(rng.uniform(0.05, 0.3)))
    rows = []
    for e in w.events:
        t = UTCDateTime(ns=int(round((e["otime"].ns - w.t0.ns) / 1e9 * w.sr)) * int(1e9) // w.sr + w.t0.ns)
        rows.append(dict(EventID=c15.uid_of(t), CoaTime=str(t), TRIG_COA=3.0, COA_X=-17.0, COA_Y=64.5, COA_Z=1.0, COA=5.0, COA_NORM=2.0))
    pd.DataFrame(rows).to_csv(d / "t.csv", index=False)
    inputs = {k: v for k, v in files(d).items()}
    # each stage from fresh objects in a directory of its own
    ref = d / "ref"
    with synth.quiet():
        Session(d, w, o).scan(ref).detect(o["start"], o["end"])
        Session(d, w, o).trigger(ref).trigger(*o["tspan"])
        Session(d, w, o).scan(ref).locate(o["start"], o["end"])
    scan0, av0 = stored(ref, w), files(ref / NAME / "detect" / "availability")
    trig0, loc0 = files(ref / NAME / "trigger"), located(ref)
    span = (int(scan0["COA"].index.min()), int(scan0["COA"].index.max()))
    obs.count("located", sum(k.endswith(".event") for k in loc0))
    obs.count("triggered", sum(v.count(b"\n") - 1 for k, v in trig0.items() if k.endswith(".csv")))
    # the same after a history
    root = d / "hist"
    S = Session(d, w, o)
    kinds = [str(k) for k in case["kinds"]]
    done = []
    info = dict(history=done, faults=w.faults, **{k: o[k] for k in ("phases", "shared_onset", "mags", "allow_gaps", "position")})
    before = S.given()
    made = S.scan(root) if rng.random() < 0.5 else None      # scan objects made early and used late
    # what can come before the detect, trigger and locate runs that are judged
    parts = [[], [], []]
    for k in kinds:
        last = 0 if k.startswith("detect") else 1 if k.startswith(("trigger", "plots")) else 2
        parts[int(rng.integers(min(last, 1), last + 1)) if rng.random() < 0.8 else 0].append(k)
    if rng.random() < 0.3:
        parts[0].insert(0, "detect_full")

    if not o["shared_onset"] and rng.random() < 0.5:
        parts[int(rng.integers(3))].append("picking_onset_scanned")

    if made is not None and rng.random() < 0.6:        # with the onset of the scan made before
        parts[0].append("other_table_made")

    def work(part):
        for k in part:
            done.append(k)
            earlier(rng, S, root, k, obs)
            ch = changes(before, S.given())
            obs.check(not ch, "inputs_altered", lambda: f"after {k}: {ch[:3]}", **info)
            obs.count("views_compared")
    work(parts[0])
    with obs.no_raise("detect", str(info)), synth.quiet():
        scan = made or S.scan(root)
        if rng.random() < 0.4:
            scan.detect(o["start"], o["end"])       # twice with the same object
        scan.detect(o["start"], o["end"])
    same_scan(obs, "detect", root, scan0, w, span, info)
    same_files(obs, "detect/availability", av0, files(root / NAME / "detect" / "availability"), info)
    work(parts[1])
    with obs.no_raise("trigger", str(info)), synth.quiet():
        trig = S.trigger(root)
        if rng.random() < 0.5:
            trig.trigger(o["start"], str(UTCDateTime(o["start"]) + 30))     # part of the span, same object
            trig.trigger(*o["tspan"], region=[-170.0, 10.0, 1e4, -160.0, 20.0, 2e4])
        trig.trigger(*o["tspan"])
    same_files(obs, "trigger", trig0, files(root / NAME / "trigger"), info)
    # a run for which nothing was triggered does not take the events of another
    with synth.quiet():
        try:
            S.scan(root, run_subname="untriggered").locate(o["start"], o["end"])
            obs.violate("locate/untriggered", "a run without triggered events was located", **info)
        except Exception:
            obs.count("failed_attempts")
    obs.check(not any(".event" in k for k in files(root / NAME / "locate" / "untriggered")), "locate/untriggered", "events of another run were located", **info)
    work(parts[2])
    for again in range(2):
        prior = files(root / NAME / "locate")
        with obs.no_raise("locate", str(info)), synth.quiet():
            (scan if rng.random() < 0.6 else S.scan(root)).locate(o["start"], o["end"])
        got = located(root)
        same_files(obs, "locate", loc0, got, info)
        # nothing else is touched
        now = files(root / NAME / "locate")
        for k, v in prior.items():
            if k not in loc0 and "logs" not in k:
                obs.check(now.get(k) == v, "locate/other_files", f"{k}, left by an earlier run, was changed", **info)
        obs.count("locate_runs")
    ch = changes(before, S.given())
    obs.check(not ch, "inputs_altered", lambda: f"in the end: {ch[:3]}", **info)
    inp = files(d)
    obs.check(all(inp.get(k) == v for k, v in inputs.items()), "files_altered", lambda: f"{[k for k, v in inputs.items() if inp.get(k) != v][:3]}", **info)
    obs.count("histories")
    obs.key(*done, o["shared_onset"], o["mags"])
    obs.sample = info


# --- one process against another ------------------------------------------------------
def processes(case, rng, obs):
    """Work in a process that has done other things against a process of its own."""
    d = harness.case_dir()
    w = c10.world(rng, d, nev=2, dur=110.0)
    beg = w.t0 + 12.0
    base = dict(sr=w.sr, fmt=w.fmt, phases=w.phases, start=str(beg), end=str(beg + 80 - 1 / w.sr), mags=bool(rng.random() < 0.6), scan=dict(timestep=16.0, marginal_window=0.8),
                trigger=dict(static_threshold=2.0, marginal_window=0.8, min_event_interval=4.0, pad=5.0))
    # other worlds with the same station names first
    e = d / "other"
    e.mkdir()
    w2 = c10.world(rng, e, nev=1, dur=90.0)
    o2 = dict(base, mags=not base["mags"], sr=w2.sr, fmt=w2.fmt, phases=w2.phases, start=str(w2.t0 + 12), end=str(w2.t0 + 60 - 1 / w2.sr))
    for s in ("detect", "trigger", "locate"):
        try:
            stage.run(e, NAME, s, o2)
        except Exception:
            obs.count("failed_attempts")
    for s in ("detect", "trigger", "locate"):
        stage.run(d, NAME, s, base)
    here = {k: v for k, v in files(d / NAME).items() if "logs" not in k}
    (d / NAME).rename(d / "kept")
    for s in ("detect", "trigger", "locate"):
        rc, err = stage.run_apart(d, NAME, s, base, c10.lib(), hashseed=int(rng.integers(1, 999)))
        obs.check(rc == 0, "process/fails", f"{s} fails in a process of its own: {err[-500:]}")
    apart = {k: v for k, v in files(d / NAME).items() if "logs" not in k}
    if obs.check(set(here) == set(apart), "process/files", lambda: f"{sorted(set(here) ^ set(apart))}"):
        c10.close_tables(obs, "process", {k: v for k, v in apart.items() if k.endswith((".csv", ".event", ".picks", ".amps"))}, {k: v for k, v in here.items() if k.endswith((".csv", ".event", ".picks", ".amps"))}, dict(faults=w.faults))
        for k in here:
            if k.endswith(".scanmseed"):
                obs.check(here[k] == apart[k], "process/coalescence", f"{k} differs between processes")
    obs.count("processes")
    obs.count("files_compared", len(here))
    obs.key("process", w.sr, w.fmt, len(here))


def side_by_side(case, rng, obs):
    """Runs of separate periods, at the same time in the same run directory, against the same runs one after another."""
    from concurrent.futures import ThreadPoolExecutor
    d = harness.case_dir()
    w = c10.world(rng, d, nev=2, dur=110.0, at=str(rng.choice(["2021-12-31T23:59:20", "2020-02-28T23:59:20"])))
    night = w.t0 + 40.0
    base = dict(sr=w.sr, fmt=w.fmt, phases=w.phases, mags=bool(rng.random() < 0.6), scan=dict(timestep=2.0, marginal_window=0.8, continuous_scanmseed_write=bool(rng.random() < 0.7)),
                trigger=dict(static_threshold=2.0, marginal_window=0.8, min_event_interval=4.0, pad=5.0))
    days = [dict(base, start=str(a), end=str(b - 1 / w.sr)) for a, b in ((w.t0 + 12.0, night), (night, w.t0 + 92.0))]
    info = dict(faults=w.faults, t0=str(w.t0))

    def periods():
        """between the triggered events"""
        ts = sorted(float(UTCDateTime(t) - w.t0) for f in sorted((d / NAME / "trigger" / "events").glob("*.csv")) for t in pd.read_csv(f)["CoaTime"])
        cut = [0.0, *((a + b) / 2 for a, b in zip(ts[:3], ts[1:])), 110.0]
        obs.count("located_side_by_side", len(ts))
        return [dict(base, start=str(w.t0 + a), end=str(w.t0 + b)) for a, b in zip(cut, cut[1:])]

    for o in days:
        stage.run(d, NAME, "detect", o)
    for o in days:
        stage.run(d, NAME, "trigger", o)
    for o in periods():
        stage.run(d, NAME, "locate", o)
    ref = {k: v for k, v in files(d / NAME).items() if "logs" not in k}
    (d / NAME).rename(d / "kept")
    for s in ("detect", "trigger", "locate"):
        os_ = days if s != "locate" else periods()
        with ThreadPoolExecutor(len(os_)) as ex:
            for rc, err in ex.map(lambda o: stage.run_apart(d, NAME, s, o, c10.lib()), os_):
                obs.check(rc == 0, "beside/fails", f"{s} fails beside another: {err[-500:]}", **info)
    got = {k: v for k, v in files(d / NAME).items() if "logs" not in k}
    if obs.check(set(ref) == set(got), "beside/files", lambda: f"{sorted(set(ref) ^ set(got))}", **info):
        tabs = (".csv", ".event", ".picks", ".amps")
        c10.close_tables(obs, "beside", {k: v for k, v in ref.items() if k.endswith(tabs)}, {k: v for k, v in got.items() if k.endswith(tabs)}, info)
        for k in ref:
            if k.endswith(".scanmseed"):
                obs.check(ref[k] == got[k], "beside/coalescence", f"{k} differs", **info)
    obs.count("side_by_side")
    obs.count("files_compared", len(ref))
    obs.key("beside", w.sr, w.fmt, len(ref))


# --- tables ---------------------------------------------------------------------------
def tables(case, rng, obs):
    """Traveltime tables computed, combined, decimated and served in some order."""
    from quakemigrate.io import read_lut
    from quakemigrate.lut import compute_traveltimes
    d = harness.case_dir()
    os.chdir(d)
    units = str(rng.choice(["km", "m"]))
    f = 1.0 if units == "km" else 1000.0
    n = int(rng.integers(3, 6))
    spec, st, spacing = c21.geometry(rng, rng.integers(4, 9, 3), units, n, f)
    vm = pd.DataFrame({"Depth": np.array([-5.0, 0.0, 3.0, 40.0]) * f, "Vp": np.array([4.0, 4.5, 5.5, 6.5]) * f, "Vs": np.array([2.2, 2.5, 3.1, 3.7]) * f})

    def compute(how, stations, phases=("P", "S"), k=1.0):
        with synth.quiet():
            if how == "homogeneous":
                return compute_traveltimes(spec, stations, how, phases=list(phases), vp=5.0 * f * k, vs=3.0 * f * k)
            return compute_traveltimes(spec, stations, how, phases=list(phases), vmod=vm.assign(Vp=vm.Vp * k, Vs=vm.Vs * k) if k != 1 else vm)

    def default(stations):
        with synth.quiet():
            return compute_traveltimes(spec, stations, "homogeneous", vp=5.0 * f, vs=3.0 * f)
    given = lambda: {k: view(v) for k, v in dict(spec=dict(spec), stations=st, vmodel=vm).items()}
    before = given()
    how = "homogeneous"
    ref = compute(how, st.copy())
    want = copy.deepcopy(ref.traveltimes)
    live = {}       # name: (table, picture of what it should be)

    def picture(lut):
        return dict(tt={s: {p: np.array(v) for p, v in t.items()} for s, t in lut.traveltimes.items()}, data=view(lut.station_data), phases=list(lut.phases), node=np.array(lut.node_count).tolist(), corner=np.array(lut.ll_corner).tolist())

    def compare(what):
        for k, (lut, p) in live.items():
            q = picture(lut)
            stack = [[lut.traveltimes[s][x] for s in lut.station_data["Name"]] for x in lut.phases]
            obs.check(float(lut.max_traveltime) == float(np.max(stack)), "max_traveltime", lambda: f"of table {k} after {what}: {lut.max_traveltime} against {np.max(stack)}", history=done)
            serve = lut.serve_traveltimes(10)
            obs.check(np.array_equal(serve, np.rint(np.moveaxis(np.concatenate(stack), 0, -1) * 10)), "served", lambda: f"table {k} after {what}: other traveltimes served", history=done)
            same = q["data"] == p["data"] and q["phases"] == p["phases"] and q["node"] == p["node"] and q["corner"] == p["corner"] and q["tt"].keys() == p["tt"].keys() and all(
                q["tt"][s].keys() == p["tt"][s].keys() and all(np.array_equal(q["tt"][s][x], p["tt"][s][x]) for x in p["tt"][s]) for s in p["tt"])
            obs.check(same, "table_altered", lambda: f"table {k} changed by {what}: " + str([x for x in ("data", "phases", "node", "corner") if q[x] != p[x]]), history=done)
            obs.count("tables_compared")
    done = []
    half = st.iloc[: n // 2].reset_index(drop=True), st.iloc[n // 2:].reset_index(drop=True)
    for i in range(int(rng.integers(5, 9))):
        act = str(rng.choice(["compute", "default", "other", "fail", "add", "decimate", "decimate_in_place", "serve", "save", "scan", "plot"]))
        done.append(act)
        touched = None
        if act == "compute":
            live[f"t{i}"] = [compute(how, st), None]
            touched = f"t{i}"
        elif act == "default":
            live[f"t{i}"] = [default(half[int(rng.integers(2))]), None]
            touched = f"t{i}"
        elif act == "other":
            live[f"t{i}"] = [compute(how, half[0], ("P",), 1.3), None]
            touched = f"t{i}"
        elif act == "fail":
            try:
                with synth.quiet():
                    compute_traveltimes(spec, st, *[("homogeneous",), ("no such",)][int(rng.integers(2))], phases=["P", "S"], vp=4.0)
            except Exception:
                obs.count("failed_attempts")
        elif act == "add":
            a, b = compute(how, half[0]), compute(how, half[1], k=1.1)
            live[f"t{i}b"] = [b, picture(b)]
            with synth.quiet():
                live[f"t{i}"] = [a + b, None]
            touched = f"t{i}"
        elif live:
            k = str(rng.choice(list(live)))
            lut = live[k][0]
            if act == "decimate":
                live[f"t{i}"] = [lut.decimate([2, 1, 2]), None]
                touched = f"t{i}"
            elif act == "decimate_in_place":
                lut.decimate([1, 2, 1], inplace=True)
                touched = k
            elif act == "serve":
                for sr in (10, 50):
                    av = {f"{s}_{p}": 1 for s in lut.traveltimes for p in lut.traveltimes[s]}
                    t = lut.serve_traveltimes(sr, av)
                    t += 1      # what was served belongs to the caller
                lut.traveltime_to(lut.phases[0], [1, 1, 1])
                lut.max_traveltime
            elif act == "save":
                lut.save(str(d / f"s{i}.lut"))
                with synth.quiet():
                    again = read_lut(str(d / f"s{i}.lut"))
                obs.check(all(np.array_equal(again.traveltimes[s][p], v) for s, x in live[k][1]["tt"].items() for p, v in x.items()), "saved_table", "read back differently", history=done)
                again.decimate([2, 2, 2], inplace=True)
            elif act == "scan":
                synth.make_scan(synth.make_archive(d, st), lut, synth.make_onset(50), d, "x")
                synth.make_trigger(lut, d, "x")
            elif act == "plot":
                import matplotlib.pyplot as plt
                fig = plt.figure()
                with synth.quiet():
                    lut.plot(fig, (9, 15))
                plt.close(fig)
        if touched:
            live[touched][1] = picture(live[touched][0])
        compare(act)
        ch = changes(before, given())
        obs.check(not ch, "inputs_altered", lambda: f"{act} altered {ch[:2]}", history=done)
    # the first computation again
    again = compute(how, st)
    obs.check(list(again.traveltimes) == list(want) and all(np.array_equal(again.traveltimes[s][p], want[s][p]) for s in want for p in want[s]), "recomputed", "the same table computed again differs", history=done)
    obs.count("table_histories")
    obs.key("tables", *done)


def main(chk):
    n = chk.pick(20, 220)
    rng = np.random.default_rng([chk.seed, 27])
    order, cases = [], []
    for i in range(n):
        ks = []
        while len(ks) < 4:
            if not order:
                order = list(rng.permutation(KINDS))
            ks.append(str(order.pop()))
        cases.append(dict(id=f"h{i}", kinds=ks))
    chk.run(histories, cases)
    chk.run(processes, [dict(id=f"p{i}") for i in range(chk.pick(3, 30))])
    chk.run(side_by_side, [dict(id=f"b{i}") for i in range(chk.pick(3, 30))])
    chk.run(tables, [dict(id=f"t{i}") for i in range(chk.pick(40, 600))])
    chk.require(histories=10, earlier_actions=30, failed_attempts=10, interrupted=2, located=10, triggered=10, locate_runs=20, files_compared=100, views_compared=20, samples_compared=10 ** 4, processes=1, side_by_side=1, table_histories=20, tables_compared=100)
    chk.rule = "histories of earlier work (kinds of action, in order) followed by the judged stages; a key is a distinct history"
