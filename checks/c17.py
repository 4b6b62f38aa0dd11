"""C17: phase picks lie in their own phase windows and are consistent with the location."""
import numpy as np
import pandas as pd
from obspy import Stream, Trace, UTCDateTime
from scipy.optimize import least_squares
from qv import harness, pipe, synth


def make_picker(onset, **kw):
    from quakemigrate.signal.pickers import GaussianPicker

    class Watching(GaussianPicker):
        seen = []

        def pick_phases(self, event, lut, run):
            out = super().pick_phases(event, lut, run)
            ev = out[0]
            Watching.seen.append(dict(uid=str(ev.uid), otime=ev.otime, hyp=np.array(ev.hypocentre), trigger=ev.trigger_time, df=ev.picks["df"].copy(),
                                      fits=ev.picks["gaussfits"], windows=ev.picks["pick_windows"], returned=out[1].copy()))
            return out
    Watching.seen = []
    with synth.quiet():
        p = Watching(onset=onset, plot_picks=False, **kw)
    return p


class CountedOnset(pipe.TagOnset):
    halfwidths = {"P": 0.1, "S": 0.2}

    def gaussian_halfwidth(self, phase):
        return self.halfwidths[phase] * self.sampling_rate / 2

    def calculate_onsets(self, data, timespan=None):
        out = super().calculate_onsets(data, timespan)
        # the picker asks for seed ids of what went in
        st = Stream()
        for s in out[1].onsets:
            for ch in "ZNE":
                st += Trace(np.zeros(4), dict(network="XX", station=s, channel=f"HH{ch}", location="00"))
        out[1].filtered_waveforms = st
        return out


def pulses(rng, v, centre, sr):
    kind = rng.random()
    n = np.arange(len(v))
    c = centre + rng.normal(0, 0.15) * sr
    w = rng.uniform(0.03, 0.3) * sr
    h = 10 ** rng.uniform(0, 1.5)
    if kind < 0.6:
        v += h * np.exp(-0.5 * ((n - c) / w) ** 2)
    elif kind < 0.7:
        v[int(round(c))] += h
    elif kind < 0.8:
        v += h * np.exp(-0.5 * ((n - c) / w) ** 2) + h * 1.1 * np.exp(-0.5 * ((n - c - 0.4 * sr) / w) ** 2)
    elif kind < 0.87:
        v += h * np.exp(-0.5 * ((n - c - rng.choice([-1, 1]) * rng.uniform(0.3, 1.5) * sr) / w) ** 2)
    elif kind < 0.93:
        a = int(round(c))
        v[a:a + int(2 * w) + 2] += h


def picks(case, rng, obs):
    d = harness.case_dir()
    sr = int(rng.choice([25, 50, 100, 64]))
    k = int(rng.integers(max(4, sr // 8), sr))
    mw = k / sr
    n = int(rng.integers(3, 7))
    names = synth.station_names(n)
    units = str(rng.choice(["km", "m"]))
    f = 1.0 if units == "km" else 1000.0
    nc = tuple(int(v) for v in rng.integers(6, 11, 3))
    spec = synth.grid_spec(nc, rng.choice([0.5, 1.0, 2.0], 3) * f, units=units)
    lut = synth.make_lut(spec, synth.stations_df(rng, spec, n, units=units, names=names), vp=5.0 * f, vs=float(rng.choice([3.0, 4.4])) * f,
                         fraction_tt=float(rng.choice([0.0, 0.05, 0.1, 0.4])))
    phases = [["P", "S"], ["P", "S"], ["P"], ["S"], ["S", "P"]][int(rng.integers(0, 5))]
    base = UTCDateTime("2021-03-01T11:20:00") if rng.random() < 0.5 else UTCDateTime("2020-12-31T23:59:30")
    nev = 3
    gap = 60.0
    trig = [base + gap * i + int(rng.integers(0, 5 * sr)) / sr for i in range(nev)]
    t_ref = base - 100
    total = int((nev * gap + 220) * sr)
    onset = CountedOnset(rng, names, t_ref, total, sr, phases, pre=float(rng.choice([0.5, 1.0, 2.0])))
    onset.channel_maps = {"P": "*Z", "S": "*[N,E,1,2]"}
    quiet = {s for s in names if rng.random() < 0.12}
    for key in onset.table:
        base_v = np.maximum(rng.lognormal(0.02, 0.15, total), 0.4)
        if key[0] in quiet:
            base_v = np.full(total, 1.0)
        onset.table[key] = base_v
    for i in range(nev):
        src = tuple(int(rng.integers(1, m - 1)) for m in nc)
        at = trig[i] + int(rng.integers(-k // 2, k // 2 + 1)) / sr
        for (s, p), v in onset.table.items():
            pulses(rng, v, (at - t_ref) * sr + float(lut.traveltimes[s][p][src]) * sr, sr)

    def avail(start, keys):
        r = np.random.default_rng([int(round((start - t_ref) / 10)), n])
        av = {q: int(r.random() < 0.8) for q in keys}
        if sum(av.values()) < 2:
            av = {q: 1 for q in keys}
        return av
    onset.availability_fn = avail
    x = np.round(rng.normal(0, 100, total)).astype(np.int32)
    synth.write_archive(d / "arch", Stream([Trace(x, dict(network="XX", station=names[0], channel="HHZ", sampling_rate=sr, starttime=t_ref))]))
    arch = synth.make_archive(d / "arch", pd.DataFrame({"Name": names}))
    kw = {}
    method = str(rng.choice(["MAD", "MAD", "percentile", "default"]))
    if method == "percentile":
        kw = dict(threshold_method="percentile", percentile_pick_threshold=float(rng.choice([0.5, 0.9, 0.99, 1.0])))
    elif method == "MAD":
        kw = dict(threshold_method="MAD", mad_pick_threshold=float(rng.choice([1.0, 5.0, 8.0, 12.0])))
    if rng.random() < 0.25:
        kw["fraction_tt"] = float(rng.choice([0.0, 0.2, 0.5]))
    seeds = bool(rng.random() < 0.3)
    if seeds:
        kw["write_seed_ids"] = True
    frac = kw.get("fraction_tt", lut.fraction_tt)
    picker = make_picker(onset, **kw)
    scan = synth.make_scan(arch, lut, onset, d, picker=picker, marginal_window=mw)
    rows = [dict(EventID="".join(c for c in str(t) if c.isdigit())[:17], CoaTime=str(t), TRIG_COA=2.0, COA_X=1.0, COA_Y=1.0, COA_Z=1.0, COA=2.0, COA_NORM=1.5) for t in trig]
    (d / "t.csv").write_text(pd.DataFrame(rows).to_csv(index=False))
    with synth.quiet():
        scan.locate(trigger_file=str(d / "t.csv"))
    info = dict(sr=sr, mw=mw, phases=phases, frac=frac, **{a: b for a, b in kw.items() if a != "fraction_tt"})
    pre = {r["EventID"]: None for r in rows}
    for e in type(picker).seen:
        judge(obs, e, onset, lut, sr, mw, frac, kw, names, phases, scan, d, seeds, info, quiet)
    obs.key(sr, tuple(phases), frac, tuple(sorted(kw.items())), n, units)
    obs.sample = info


def judge(obs, e, onset, lut, sr, mw, frac, kw, names, phases, scan, d, seeds, info, quiet):
    # what the onset stage gave for this event
    call = [c for c in onset.calls if abs(c["start"] + scan.pre_pad + 2 * mw - e["trigger"]) < 2.0][-1]
    start, ns = call["start"], call["n"]
    used = {}
    for (s, p), v in call["av"].items():
        if v:
            used.setdefault(s, []).append(p)
    nodes = (synth.to_grid(lut.grid_proj, lut.coord_proj, e["hyp"]) - lut.ll_corner) / lut.node_spacing
    if np.abs(nodes - np.floor(nodes) - 0.5).min() < 1e-3:
        obs.count("tie")
        return
    node = tuple(np.rint(nodes).astype(int))
    df = e["df"]
    want_rows = sorted((s, p) for s in used for p in used[s])
    got_rows = sorted(zip(df["Station"], df["Phase"]))
    if not obs.check(want_rows == got_rows, "rows", f"{got_rows} for {want_rows}", **info):
        return
    obs.check(df.astype(str).equals(e["returned"].astype(str)), "returned", "returned picks differ from those on the event", **info)
    for s in used:
        win, arr = {}, {}
        ph = used[s]
        for p in ph:
            tt = float(lut.traveltimes[s][p][node])
            a = (e["otime"] + tt - start) * sr
            h = (tt * frac + mw) * sr
            win[p] = [int(np.rint(a)) - int(np.rint(h)), int(np.rint(a)), int(np.rint(a)) + int(np.rint(h))]
            arr[p] = tt
        unsure = any(abs(v - np.floor(v) - 0.5) < 1e-6 for p in ph for v in [(e["otime"] + arr[p] - start) * sr, (arr[p] * frac + mw) * sr])
        if unsure:
            obs.count("tie")
            continue
        o = sorted(ph, key=lambda p: win[p][1])
        win[o[0]][0] = max(0, win[o[0]][0])
        for a, b in zip(o, o[1:]):
            m = (win[a][1] + win[b][1]) // 2
            win[a][2], win[b][0] = min(m, win[a][2]), max(m, win[b][0])
            obs.count("split", win[a][2] == m)
        win[o[-1]][2] = min(win[o[-1]][2], ns)
        inf = dict(info, station=s)
        table = {p: onset.window((s, p), start, ns) for p in ph}
        for p in ph:
            row = df[(df.Station == s) & (df.Phase == p)].iloc[0]
            obs.check(abs(row.ModelledTime - (e["otime"] + arr[p])) < 2e-6, "modelled", f"{p}: {row.ModelledTime}, expected {e['otime'] + arr[p]}", **inf)
            w = e["windows"][s][p]
            obs.check(list(w) == win[p], "window", f"{p}: window {list(w)}, expected {win[p]} in {ns} samples", **inf)
            if seeds:
                ids = ["XX." + s + ".00.HH" + c for c in ("Z" if p == "P" else "EN")]
                obs.check(list(row.SEED_ids) == ids, "seed_ids", f"{p}: {row.SEED_ids}", **inf)
            x = table[p]
            noise = np.concatenate([x[[i for i in range(ns) if not any(a <= i < b for a, _, b in win.values())]]])
            noise = noise[noise > 1]
            missing = [row.PickTime == -1, row.PickError == -1, row.SNR == -1, row.Residual == -1]
            obs.check(all(missing) or not any(missing), "partly_missing", f"{p}: {row.PickTime} {row.PickError} {row.SNR} {row.Residual}", **inf)
            made = not any(missing)
            fit = e["fits"][s][p]
            if not len(noise):
                obs.count("no_noise")
                obs.check(not made, "pick_without_noise", f"{p}", **inf)
                continue
            if kw.get("threshold_method") == "percentile":
                thr = np.quantile(noise, kw["percentile_pick_threshold"])
            else:
                med = np.median(noise)
                thr = med + kw.get("mad_pick_threshold", 8.0) * 1.4826 * np.median(np.abs(noise - med))
            obs.close("threshold", fit["PickThreshold"], thr, rtol=1e-9, msg=f"{p}: pick threshold", **inf)
            y = x[win[p][0]:win[p][2]]
            pk = int(np.argmax(y)) if len(y) else None
            lo = hi = pk
            if pk is None or not y[pk] > thr:
                obs.check(not made, "pick_below_threshold", lambda: f"{p}: largest onset {y[pk] if pk is not None else None} in the window, threshold {thr}, pick {row.PickTime}", **inf)
                obs.count("no_pick")
                continue
            while lo > 0 and y[lo - 1] > thr:
                lo -= 1
            while hi < len(y) - 1 and y[hi + 1] > thr:
                hi += 1
            if hi == lo:
                obs.check(not made, "pick_single_sample", f"{p}", **inf)
                obs.count("no_pick_single")
                continue
            a, b = win[p][0] + lo - 1, win[p][0] + hi + 2
            if b > ns or a < 0:
                obs.count("at_end")
                continue
            ts, ys = np.arange(a, b) / sr, x[a:b]
            ref = least_squares(lambda q: q[0] * np.exp(-0.5 * ((ts - q[1]) / q[2]) ** 2) - ys, [ys.max(), ts[np.argmax(ys)], onset.gaussian_halfwidth(p) / sr], method="lm", max_nfev=2000)
            sse = lambda q: np.sum((q[0] * np.exp(-0.5 * ((ts - q[1]) / q[2]) ** 2) - ys) ** 2)
            inside = win[p][0] + 0.5 < ref.x[1] * sr < win[p][2] - 0.5
            outside = not (win[p][0] - 0.5 < ref.x[1] * sr < win[p][2] + 0.5)
            good = ref.success and ref.cost * 2 < 0.3 * np.sum((ys - ys.mean()) ** 2)
            if not made:
                obs.check(not (good and inside), "pick_lost", lambda: f"{p}: no pick although the onset peaks at {y[pk]:.3f} above {thr:.3f} and a Gaussian fits at {ref.x}", **inf)
                obs.count("no_pick_fit")
                continue
            q = [float(v) for v in (row.SNR, row.PickTime - start, row.PickError)]
            obs.check(win[p][0] - 1e-3 <= q[1] * sr <= win[p][2] + 1e-3, "pick_outside_window", f"{p}: pick at sample {q[1] * sr} of window {win[p]}", **inf)
            obs.check(q[2] >= 0, "negative_error", f"{q}", **inf)
            obs.check(sse(q) <= sse(ref.x) * (1 + 1e-3) + 1e-9 * np.sum(ys ** 2) or (outside and not good), "fit",
                      lambda: f"{p}: pick {q} has misfit {sse(q):.5g}, the least-squares Gaussian {ref.x.tolist()} {sse(ref.x):.5g}", **inf)
            if good and inside:
                cond = np.linalg.cond(ref.jac)
                if cond < 1e4:
                    obs.close("fit_values", q, [ref.x[0], ref.x[1], abs(ref.x[2])], rtol=1e-4, atol=1e-5, msg=f"{p}: height, mean, sigma", **inf)
                    obs.count("fits")
            obs.check(abs(row.Residual - (row.PickTime - row.ModelledTime)) < 2e-6, "residual", f"{p}: {row.Residual}", **inf)
            obs.check(fit["PickValue"] == row.SNR and abs(fit["popt"][0] - q[0]) < 1e-12 and len(fit["xdata"]) == len(fit["xdata_dt"]), "fit_record", f"{p}", **inf)
            obs.count("picks")
    # the pick file holds the same
    f = d / "run" / "locate" / "picks" / f"{e['uid']}.picks"
    if obs.check(f.exists(), "file", str(f), **info):
        t = pd.read_csv(f, dtype=str)
        if obs.check(len(t) == len(df) and list(t["Station"]) == list(df["Station"]) and list(t["Phase"]) == list(df["Phase"]), "file_rows", "", **info):
            for a, b in zip(df.itertuples(), t.itertuples()):
                for c in ("ModelledTime", "PickTime"):
                    u, v = getattr(a, c), getattr(b, c)
                    obs.check(v == "-1" if u == -1 else abs(UTCDateTime(v) - u) < 2e-6, "file_time", f"{c} {v} for {u}", **info)
                for c in ("PickError", "SNR"):
                    u, v = getattr(a, c), float(getattr(b, c))
                    obs.check(abs(u - v) <= 5.1e-3 * abs(u), "file_value", f"{c} {v} for {u}", **info)
                obs.check(abs(float(b.Residual) - a.Residual) < 2e-6, "file_value", f"Residual {b.Residual}", **info)
            obs.count("files")


def main(chk):
    chk.run(picks, [dict(id=f"p{i}") for i in range(chk.pick(120, 2000))])
    chk.require(picks=600, fits=200, no_pick=100, no_pick_single=5, split=100, files=150, no_noise=5)
    chk.rule = "generated onset functions picked by the scan's own picker; a key is a distinct (rate, phases, window fraction, threshold options, stations, units)"
