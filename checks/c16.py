"""C16: origin time, hypocentre and uncertainties are those of the coalescence map."""
import numpy as np
import pandas as pd
from obspy import Stream, Trace, UTCDateTime
from qv import harness, locref, pipe, refs, repo, synth


class Capture(pipe.NullPicker):
    """Looks at every event that reaches the picking stage."""

    seen = None

    def pick_phases(self, event, lut, run):
        self.seen.append(dict(uid=str(event.uid), otime=event.otime, trigger=event.trigger_time, dt=list(event.coa_data["DT"]),
                              coa=event.coa_data[["COA", "COA_NORM", "X", "Y", "Z"]].values.astype(float),
                              max=dict(event.max_coalescence), loc={k: dict(v) for k, v in event.locations.items()},
                              hyp=np.array(event.hypocentre), unc=np.array(event.loc_uncertainty)))
        return super().pick_phases(event, lut, run)


def fake_maps(rng, nc, ns, peak, kind):
    """4-D map with its highest value at sample `peak`."""
    X = np.stack(np.meshgrid(*[np.arange(n, dtype=float) for n in nc], indexing="ij"), -1)
    if kind == "rough":
        m = rng.lognormal(0, 0.5, (*nc, ns))
        m[tuple(rng.integers(0, n) for n in nc) + (peak,)] = m.max() * 1.3
        return m
    c = np.array([rng.uniform(0, n - 1) for n in nc])
    if rng.random() < 0.3:          # at a face, edge or corner
        for a in rng.permutation(3)[:int(rng.integers(1, 4))]:
            c[a] = rng.choice([0, nc[a] - 1])
    if rng.random() < 0.2:
        c = np.rint(c)
    sd = rng.uniform(0.7, 3.0, 3)
    Q = np.linalg.qr(rng.normal(size=(3, 3)))[0] if kind == "tilted" else np.eye(3)
    d = (X - c) @ Q / sd
    space = np.exp(-0.5 * (d ** 2).sum(-1))
    if kind == "double":
        c2 = np.array([rng.uniform(0, n - 1) for n in nc])
        space = space + rng.uniform(0.5, 0.99) * np.exp(-0.5 * (((X - c2) / sd) ** 2).sum(-1))
    w = rng.uniform(3, ns / 2)
    env = np.exp(-0.5 * ((np.arange(ns) - peak) / w) ** 2)
    drift = rng.normal(0, 0.02, ns)
    m = 1.0 + rng.uniform(0.5, 4) * space[..., None] * (env * (1 - np.abs(drift)))
    m = m + rng.choice([0.0, 0.003, 0.05]) * rng.random(m.shape)
    t = int(np.argmax(m.max((0, 1, 2))))
    if t != peak:
        m[..., [t, peak]] = m[..., [peak, t]]
    return m


def located(case, rng, obs):
    d = harness.case_dir()
    sr = int(rng.choice([20, 25, 50, 64, 100]))
    k = int(rng.integers(max(3, sr // 6), sr))                    # marginal window in samples
    mw = k / sr if rng.random() < 0.7 else float(rng.choice([0.29, 0.55, 0.57, 0.58, 0.35, 1.15, 1.0, 0.5]))
    if abs(mw * sr - round(mw * sr)) > 1e-9:
        mw = k / sr
    k = round(mw * sr)
    units = str(rng.choice(["km", "m"]))
    f = 1.0 if units == "km" else 1000.0
    n = int(rng.integers(2, 6))
    names = synth.station_names(n)
    nc = tuple(int(v) for v in rng.integers(5, 14, 3))
    spacing = np.round(rng.uniform(0.1, 3, 3), 2) * f if rng.random() < 0.7 else np.repeat(np.round(rng.uniform(0.1, 3), 2), 3) * f
    spec = synth.grid_spec(nc, spacing, zmin=float(rng.choice([-1.5, 0.0, 3.0])) * f, units=units, kind=str(rng.choice(["lcc", "tmerc"])),
                           lat0=float(rng.choice([64.5, -38.0])), lon0=float(rng.choice([-17.0, 175.0])))
    lut = synth.make_lut(spec, synth.stations_df(rng, spec, n, units=units, names=names), vp=5.0 * f, vs=3.0 * f)
    obs.check(tuple(lut.node_count) == nc, "harness_grid", f"{lut.node_count}")
    base = UTCDateTime(str(rng.choice(["2020-12-31T23:59:40", "2021-03-01T11:20:00"])))
    nev = case.get("events", 4)
    # trigger times on samples, far enough apart not to share anything
    gap = 30.0
    trig = [base + gap * i + int(rng.integers(0, 5 * sr)) / sr for i in range(nev)]
    ns = 4 * k + 1
    kinds = [str(rng.choice(["blob", "tilted", "double", "rough"])) for _ in range(nev)]
    peaks = [int(rng.integers(k + 1, 3 * k)) if rng.random() < 0.85 else int(rng.choice([rng.integers(0, k), rng.integers(3 * k + 1, ns)])) for _ in range(nev)]
    stub = case["mode"] == "map"
    mtt = np.rint(lut.max_traveltime * sr) / sr
    onset = pipe.TagOnset(rng, names, base - 20, int((nev * gap + 60) * sr + 200 * sr), sr, ["P", "S"], pre=float(rng.choice([0.0, 0.37, 1.0])))
    x = np.round(rng.normal(0, 100, int((nev * gap + 200) * sr))).astype(np.int32)
    synth.write_archive(d / "arch", Stream([Trace(x, dict(network="XX", station=names[0], channel="HHZ", sampling_rate=sr, starttime=base - 80))]))
    arch = synth.make_archive(d / "arch", pd.DataFrame({"Name": names}))
    picker = Capture(onset=onset)
    picker.plot_picks = False
    picker.seen = []
    onset.t_ref = base - 90
    onset.table = {key: rng.lognormal(0.2, 0.6, int((nev * gap + 300) * sr)) for key in onset.table}
    if not stub:
        # a source in the grid radiates pulses, so that a peak of some kind stands out at the intended time
        for i in range(nev):
            src = tuple(int(rng.integers(0, m)) for m in nc)
            for (s, p), v in onset.table.items():
                j = int(round((trig[i] - onset.t_ref) * sr)) + peaks[i] - 2 * k + int(round(float(lut.traveltimes[s][p][src]) * sr))
                w = rng.uniform(1.0, 0.15 * sr)
                jj = np.arange(max(0, j - 60), j + 61)
                v[jj] += rng.uniform(4, 12) * np.exp(-0.5 * ((jj - j) / w) ** 2)
    scan = synth.make_scan(arch, lut, onset, d, picker=picker, marginal_window=mw, write_marginal_coalescence=True, threads=int(rng.integers(1, 4)))
    rows = [dict(EventID="".join(c for c in str(t) if c.isdigit())[:17], CoaTime=str(t), TRIG_COA=2.0, COA_X=1.0, COA_Y=1.0, COA_Z=1.0,
                 COA=round(float(rng.uniform(1, 5)), 4), COA_NORM=1.5, TRIG_COA_NORM=1.0) for t in trig]
    (d / "trig.csv").write_text(pd.DataFrame(rows).to_csv(index=False))
    import quakemigrate.core.lib as lib
    maps = []
    orig = lib.migrate

    def fake(*a, **k):
        onsets, _, first_idx, last_idx = repo.in_order(orig, a, k)[:4]
        i = len(maps)
        m = np.ascontiguousarray(fake_maps(rng, nc, onsets.shape[-1] - first_idx - last_idx, peaks[i], kinds[i]))
        maps.append(m.copy())
        return m

    def watch(*a, **k):
        maps.append(refs.ref_migrate(*repo.in_order(orig, a, k)[:5]))
        return orig(*a, **k)
    repl = fake if stub else watch
    repo.patch_everywhere(orig, repl)
    try:
        with synth.quiet():
            scan.locate(trigger_file=str(d / "trig.csv"))
    finally:
        repo.patch_everywhere(repl, orig)
    info = dict(sr=sr, mw=mw, units=units, nodes=nc, spacing=spacing.tolist())
    if not obs.check(len(maps) == nev, "events_computed", f"{len(maps)} of {nev} events computed", **info):
        return
    seen = {e["uid"]: e for e in picker.seen}
    for i in range(nev):
        m = maps[i]
        inf = dict(info, kind=kinds[i] if stub else "onsets", event=i)
        if not obs.check(m.shape[-1] == ns, "window", f"{m.shape[-1]} samples computed for 4 x {mw} s at {sr} Hz", **inf):
            continue
        top = m.max((0, 1, 2))
        best = int(np.argmax(top))
        if np.sum(top > top[best] * (1 - 1e-9)) > 1:
            obs.count("ties")
            continue
        uid = rows[i]["EventID"]
        if abs(best - 2 * k) >= k:
            if abs(best - 2 * k) > k:
                obs.check(uid not in seen, "outside", "an event whose peak is outside the marginal window was located", **inf)
                obs.count("outside")
            continue
        if not obs.check(uid in seen, "missing", f"peak {best - 2 * k} samples from the trigger, marginal window {k}; seen {list(seen)[:2]}", **inf):
            continue
        e = seen[uid]
        judge(obs, e, m, best, k, sr, trig[i], lut, spec["ll_corner"], np.array(nc), spacing, d, uid, inf)
    obs.key(case["mode"], units, nc, sr, k)
    obs.sample = info


def judge(obs, e, m, best, k, sr, trigger, lut, spec_ll, nc, spacing, d, uid, inf):
    ot = trigger + (best - 2 * k) / sr
    obs.check(abs(e["otime"] - ot) < 1e-6, "otime", f"{e['otime']} reported, {ot} has the highest coalescence", **inf)
    # coalescence series kept with the event
    sel = np.arange(best - k, best + k + 1)
    dts = np.array([(t - trigger) * sr + 2 * k for t in e["dt"]])
    if obs.check(len(dts) == len(sel) and np.abs(dts - sel).max() < 1e-3, "series_times", lambda: f"{len(dts)} samples from {dts[0]:.3f} to {dts[-1]:.3f}, window {sel[0]}-{sel[-1]}", **inf):
        top = m.max((0, 1, 2))
        obs.close("series_coa", e["coa"][:, 0], top[sel], rtol=1e-9, msg="coalescence of the event", **inf)
        obs.close("series_norm", e["coa"][:, 1], (top * nc.prod() / m.sum((0, 1, 2)))[sel], rtol=1e-9, msg="normalised coalescence", **inf)
        flat = m.reshape(-1, m.shape[-1])
        where = np.array(np.unravel_index(np.argmax(flat, 0)[sel], nc)).T
        obs.close("series_xyz", e["coa"][:, 2:], np.asarray(lut.index2coord(where)), rtol=1e-9, msg="position of the peak", **inf)
    obs.close("max_coalescence", [e["max"]["COA"], e["max"]["COA_NORM"]], [m[..., best].max(), m[..., best].max() * nc.prod() / m[..., best].sum()],
              rtol=1e-9, msg="values at the origin time", **inf)
    # marginal map
    M = m[..., sel].sum(-1)
    M = M / M.max()
    f = d / "run" / "locate" / "marginalised_coalescence_maps" / f"{uid}.npy"
    if obs.check(f.exists(), "marginal_file", str(f), **inf):
        got = np.load(f)
        obs.close("marginal", got, M, rtol=1e-9, atol=1e-12, msg="marginalised map", **inf)
    ll = synth.to_grid(lut.grid_proj, lut.coord_proj, spec_ll)
    idx = lambda xyz: (synth.to_grid(lut.grid_proj, lut.coord_proj, xyz) - ll) / spacing
    # hypocentre: peak of the cubic interpolation, within two nodes of the peak node
    C = locref.Cubic(M)
    sp = e["loc"]["spline"]
    g = idx([sp["X"], sp["Y"], sp["Z"]])
    obs.check((g > -1e-3).all() and (g < nc - 1 + 1e-3).all(), "hypocentre_outside", f"{g} of grid {nc}", **inf)
    obs.check(np.abs(g - C.pk).max() < 2 + 1e-3, "hypocentre_far", f"{g} reported, peak node {C.pk}", **inf)
    obs.close("hypocentre", e["hyp"], [sp["X"], sp["Y"], sp["Z"]], atol=0, msg="hypocentre is the spline location", **inf)
    if (C.sizes == 5).all():
        obs.count("spline")
        x, v = C.best()
        obs.check(C(g)[0] > v - 1e-6 * max(1, abs(v)) - 2e-4 * (M.max() - C.val.min()), "spline", lambda: f"interpolated value {C(g)[0]} at the hypocentre {g}, {v} at {x}", **inf)
        obs.check(np.abs(g * 10 - np.rint(g * 10)).max() < 0.02, "spline_step", f"{g}: not a tenth of a node", **inf)
    elif len(set(C.sizes)) > 1:
        obs.count("at_edge")
        obs.close("gridded", g, C.pk, atol=1e-3, msg="hypocentre near the edge of the grid", **inf)
    # Gaussian
    S = locref.smooth(M)
    loc, err, cond, condA = locref.gaussian_fit(S)
    order = np.sort(S.ravel())
    if cond < 1e5 and condA < 1e6 and order[-1] - order[-2] > 1e-9:
        ga = e["loc"]["gaussian"]
        got = idx([ga["X"], ga["Y"], ga["Z"]])
        obs.close("gaussian", got, loc, rtol=1e-5, atol=2e-3, msg="Gaussian location in nodes", **inf)
        ge = np.array([ga["ErrX"], ga["ErrY"], ga["ErrZ"]])
        obs.close("gaussian_err", ge / spacing, err, rtol=1e-5, atol=1e-9, msg="Gaussian uncertainty along the axes, in nodes", **inf)
        obs.close("loc_uncertainty", e["unc"], ge, atol=0, msg="uncertainty of the event", **inf)
        obs.count("gaussian")
        obs.count("tilted", inf["kind"] == "tilted")
    # covariance
    if np.abs(M - 0.9).min() > 1e-9:
        mean, std = locref.covariance(M, spacing)
        co = e["loc"]["covariance"]
        got = idx([co["X"], co["Y"], co["Z"]])
        obs.close("covariance", got * spacing, mean, atol=2e-3 * spacing.max(), msg="covariance location", **inf)
        ce = np.array([co["ErrX"], co["ErrY"], co["ErrZ"]])
        obs.close("covariance_err", ce, std, rtol=1e-6, atol=1e-9 * spacing.max(), msg="covariance uncertainty", **inf)
        obs.close("covariance_xyz", co["Err_XYZ"], ce.prod() ** (1 / 3), rtol=1e-6, atol=1e-9 * spacing.max(), msg="geometric mean", **inf)
        obs.count("covariance")
    # the event file repeats them under the right names
    ef = d / "run" / "locate" / "events" / f"{uid}.event"
    if obs.check(ef.exists(), "event_file", str(ef), **inf):
        r = pd.read_csv(ef).iloc[0]
        for key, src, nm in [("", "spline", "XYZ"), ("GAU_", "gaussian", "XYZ"), ("GAU_Err", "gaussian", ("ErrX", "ErrY", "ErrZ")), ("COV_Err", "covariance", ("ErrX", "ErrY", "ErrZ"))]:
            for a, c in zip("XYZ", nm):
                if not obs.check(key + a in r, "event_file_column", key + a, **inf):
                    continue
                v = e["loc"][src][c]
                tol = 1.01e-3 * (1 if inf["units"] == "km" else 1e3) if c == "Z" or "Err" in key else 1.01e-6
                obs.check(abs(r[key + a] - v) <= max(tol, 1e-9 * abs(v)), "event_file_value", f"{key + a}: {r[key + a]} for {v}", **inf)
        obs.check("DT" in r and abs(UTCDateTime(r["DT"]) - e["otime"]) < 2e-6, "event_file_time", str(r.get("DT")), **inf)
    obs.count("judged")


def main(chk):
    chk.run(located, [dict(id=f"m{i}", mode="map") for i in range(chk.pick(120, 2000))])
    chk.run(located, [dict(id=f"o{i}", mode="onset") for i in range(chk.pick(40, 700))])
    chk.require(judged=300, spline=50, at_edge=40, gaussian=200, tilted=50, covariance=250, outside=10)
    chk.rule = "generated coalescence maps (crafted, and migrated from crafted onsets) located by the scan; a key is a distinct (source of map, units, node counts, rate, window)"
