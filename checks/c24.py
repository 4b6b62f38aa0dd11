"""C24: exports carry the located events' values without loss or mix-up."""
import io
import numpy as np
import pandas as pd
from obspy import Stream, Trace, UTCDateTime, read, read_events
from obspy.geodetics import gps2dist_azimuth
from checks import c15
from qv import harness, synth

DEG = 180 / (np.pi * 6371.0)          # degrees of arc per km


def near(a, b, rel=1e-9, ab=0.0):
    return a is not None and abs(float(a) - float(b)) <= rel * abs(float(b)) + ab


def us(t):
    return int(round(t.ns / 1000))


def make_run(rng, root, sub, names, nets, units, nev, t0):
    """The files of a finished location run, written the way the stages document them; returns what they state."""
    d = root / "locate" / sub
    f = 1.0 if units == "km" else 1000.0
    out = {}
    mags = rng.random() < 0.7
    cuts = rng.random() < 0.7
    for k in range(nev):
        t = t0 + 3600 * k * float(rng.uniform(0.5, 30)) + int(rng.integers(0, 1000)) / 1000
        ot = t + int(rng.integers(-5_000_00, 500_000)) / 1e6
        if rng.random() < 0.3:
            ot = UTCDateTime(ot.ns // 10 ** 9 * 10 ** 9 // 1e9) + int(rng.integers(0, 20000)) / 1e6     # early in a second
        uid = c15.uid_of(t)
        r6 = lambda v, n=6: float(np.round(v, n))
        e = dict(EventID=uid, DT=str(ot), X=r6(rng.uniform(-180, 180)), Y=r6(rng.uniform(-85, 85)), Z=r6(rng.uniform(-2, 30) * f, 3), COA=float(f"{rng.lognormal():.4g}"), COA_NORM=float(f"{rng.lognormal():.4g}"))
        e.update({f"GAU_{c}": r6(e[c] + rng.normal(0, 0.01)) for c in "XYZ"})
        e.update({f"GAU_Err{c}": r6(rng.uniform(0.01, 5) * f, 3) for c in "XYZ"})
        e.update({f"COV_Err{c}": r6(rng.uniform(0.01, 5) * f, 3) for c in "XYZ"})
        e["COV_Err_XYZ"] = r6((e["COV_ErrX"] * e["COV_ErrY"] * e["COV_ErrZ"]) ** (1 / 3), 3)
        e.update({c: float(f"{rng.lognormal():.4g}") for c in ("TRIG_COA", "DEC_COA", "DEC_COA_NORM")})
        picks = []
        for s in names:
            if rng.random() < 0.15:
                continue
            for ph in (["PS"] * 7 + ["P", "P", "S"])[int(rng.integers(10))]:
                mt = ot + int(rng.integers(500_000, 30_000_000)) / 1e6
                if rng.random() < 0.3:
                    picks.append([s, ph, str(mt), "-1", "-1", "-1", "-1"])
                else:
                    pt = mt + int(rng.integers(-500_000, 500_000)) / 1e6
                    if rng.random() < 0.3:       # just after a second, or just before one
                        pt = UTCDateTime(ns=pt.ns // 10 ** 9 * 10 ** 9) + float(rng.choice([0.000004, 0.0042, 0.05, 0.99996]))
                    picks.append([s, ph, str(mt), str(pt), f"{rng.lognormal(-3):.3g}", f"{rng.lognormal(1):.3g}", str(pt - mt)])
        if rng.random() < 0.1:
            picks = [p[:3] + ["-1"] * 4 for p in picks]
        amps, has = [], False
        if mags:
            for s in names:
                for c in ("[E,2]", "[N,1]", "Z"):
                    ed, zd = float(f"{rng.uniform(0.1, 90):.5g}"), float(f"{rng.uniform(0.1, 20):.5g}")
                    if rng.random() < 0.3 or (k % 4 == 3 and rng.random() < 2):
                        amps.append(dict(id=f".{s}..{c}", epi_dist=ed, z_dist=zd, is_picked=False))
                        continue
                    r = dict(id=f"{nets[s]}.{s}.{str(rng.choice(['', '00']))}.HH{c[-2] if len(c) > 1 and rng.random() < 0.3 else c.strip('[')[0]}", epi_dist=ed, z_dist=zd, is_picked=bool(rng.random() < 0.5))
                    for ph in "PS":
                        if rng.random() < 0.85:
                            r.update({f"{ph}_amp": float(f"{rng.lognormal(-3, 3):.5g}"), f"{ph}_freq": float(f"{rng.uniform(0.5, 30):.2g}"), f"{ph}_time": str(ot + int(rng.integers(0, 30_000_000)) / 1e6),
                                      f"{ph}_avg_amp": float(f"{rng.lognormal(-3, 3):.5g}"), f"{ph}_filter_gain": float(f"{rng.uniform(0.1, 1):.3g}")})
                    r["Noise_amp"] = float(f"{rng.lognormal(-6, 3):.5g}")
                    amps.append(r)
        out[uid] = dict(e=e, picks=picks, amps=amps, ot=UTCDateTime(e["DT"]))
    use = "S"
    if mags:
        use = str(rng.choice(["S", "P"]))
        for ev in out.values():
            n = 0
            for r in ev["amps"]:
                if f"{use}_amp" in r and rng.random() < 0.95:
                    r["ML"], r["ML_Err"] = float(f"{rng.normal(1, 1):.3g}"), float(f"{rng.lognormal(-1):.3g}")
                    n += 1
            ev["e"].update(ML=float(f"{rng.normal(1, 1):.3g}") if n else np.nan, ML_Err=float(f"{rng.lognormal(-1):.3g}") if n else np.nan, ML_r2=float(f"{rng.uniform(-1, 1):.3g}") if n else np.nan)
            ev["nml"] = n
    cols = ["id", "epi_dist", "z_dist", "P_amp", "P_freq", "P_time", "P_avg_amp", "P_filter_gain", "S_amp", "S_freq", "S_time", "S_avg_amp", "S_filter_gain", "Noise_amp", "is_picked"]
    for uid, ev in out.items():
        for sdir in ("events", "picks") + (("amplitudes",) if mags else ()):
            (d / sdir).mkdir(parents=True, exist_ok=True)
        pd.DataFrame([ev["e"]]).to_csv(d / "events" / f"{uid}.event", index=False)
        pd.DataFrame(ev["picks"], columns=["Station", "Phase", "ModelledTime", "PickTime", "PickError", "SNR", "Residual"]).to_csv(d / "picks" / f"{uid}.picks", index=False)
        if mags:
            cc = cols + (["ML", "ML_Err"] if any(f"{use}_amp" in r for r in ev["amps"]) else [])
            pd.DataFrame([{c: r.get(c, np.nan) for c in cc} for r in ev["amps"]]).to_csv(d / "amplitudes" / f"{uid}.amps", index=False)
    return out, mags, use


def judge_event(obs, ev, rec, factor, mags, use, reread=False):
    e = rec["e"]
    org = ev.origins
    if not obs.check(len(org) == 2, "origins", lambda: len(org)):
        return
    pref = ev.preferred_origin()
    obs.check(pref is not None and near(pref.longitude, e["X"], 1e-12) and near(pref.latitude, e["Y"], 1e-12), "preferred-origin", lambda: dict(got=pref, want=e))
    for o, pre in zip(org, ("", "GAU_")):
        obs.check(us(o.time) == us(rec["ot"]), "origin-time", lambda: dict(got=o.time, want=rec["ot"]))
        obs.check(near(o.longitude, e[pre + "X"], 1e-12) and near(o.latitude, e[pre + "Y"], 1e-12), "hypocentre", lambda: dict(got=o, want=e))
        obs.check(near(o.depth, e[pre + "Z"] * factor * 1000), "depth", lambda: dict(got=o.depth, want=e[pre + "Z"], factor=factor))
        obs.check(near(o.longitude_errors.uncertainty, e["GAU_ErrX"] * factor * DEG, 2e-3) and near(o.latitude_errors.uncertainty, e["GAU_ErrY"] * factor * DEG, 2e-3)
                  and near(o.depth_errors.uncertainty, e["GAU_ErrZ"] * factor * 1000), "uncertainty", lambda: dict(got=o, want=e))
        c = o.origin_uncertainty.confidence_ellipsoid
        obs.check(near(c.semi_major_axis_length, e["COV_ErrY"] * factor * 1000) and near(c.semi_intermediate_axis_length, e["COV_ErrX"] * factor * 1000) and near(c.semi_minor_axis_length, e["COV_ErrZ"] * factor * 1000),
                  "ellipsoid", lambda: dict(got=c, want=e))
    for k, c in (("coa", "COA"), ("coa_norm", "COA_NORM"), ("trig_coa", "TRIG_COA"), ("dec_coa", "DEC_COA"), ("dec_coa_norm", "DEC_COA_NORM")):
        obs.check(near(ev.extra[k].value, e[c], 1e-12), "coalescence", lambda: dict(key=k, got=ev.extra[k], want=e[c]))
    # picks
    want = []
    for s, ph, mt, pt, er, snr, _ in rec["picks"]:
        want.append((s, ph, "modelled", us(UTCDateTime(mt)), None, None))
        if pt != "-1":
            want.append((s, ph, "autopick", us(UTCDateTime(pt)), float(er), float(snr)))
    got = []
    for p in ev.picks:
        m = str(p.method_id).rsplit("/", 1)[-1]
        snr = p.get("extra", {}).get("snr") if hasattr(p, "extra") else None
        got.append((p.waveform_id.station_code, p.phase_hint, m, us(p.time), p.time_errors.uncertainty if p.time_errors else None, float(snr.value) if snr else None))
    k = lambda q: q[:4]
    obs.check(sorted(map(k, got)) == sorted(map(k, want)), "picks", lambda: dict(got=sorted(map(k, got)), want=sorted(map(k, want))))
    w = {k(q): q for q in want}
    for g in got:
        q = w.get(k(g))
        if q and q[4] is not None:
            obs.check(near(g[4], q[4], 1e-12) and near(g[5], q[5], 1e-12), "pick-error", lambda: dict(got=g, want=q))
    obs.count("picks", len(want))
    # amplitudes
    if not mags:
        obs.check(not ev.amplitudes and not ev.station_magnitudes and not ev.magnitudes, "amplitudes-from-nowhere", "amplitudes without an amplitude file")
        return
    want, sm = [], []
    for r in rec["amps"]:
        for ph in "PS":
            if f"{ph}_amp" in r:
                a = (r["id"], f"{ph}_amp", us(UTCDateTime(r[f"{ph}_time"])))
                want.append((a, r[f"{ph}_amp"] / 1000, r["Noise_amp"] / 1000, 1 / r[f"{ph}_freq"], r[f"{ph}_filter_gain"], r[f"{ph}_avg_amp"] / 1000))
                if ph == use and "ML" in r:
                    sm.append((a, r["ML"], r["ML_Err"], r["epi_dist"], r["z_dist"], r["is_picked"]))
    got, ids = {}, {}
    for a in ev.amplitudes:
        key = (a.waveform_id.get_seed_string(), str(a.method_id).rsplit("/", 1)[-1], us(a.time_window.reference))
        ids[str(a.resource_id)] = key
        got.setdefault(key, []).append((a.generic_amplitude, a.generic_amplitude_errors.uncertainty, a.period, float(a.extra.filter_gain.value), float(a.extra.avg_amp.value)))
        obs.check(a.unit == "m", "amplitude-unit", lambda: a.unit)
    if obs.check(sorted((k for k in got for _ in got[k])) == sorted(x[0] for x in want), "amplitudes", lambda: dict(got=sorted(got), want=sorted(x[0] for x in want))):
        for x in want:
            obs.check(any(all(near(a, b, 1e-9) for a, b in zip(g, x[1:])) for g in got[x[0]]), "amplitude-values", lambda: dict(got=got[x[0]], want=x))
    g = []
    for m in ev.station_magnitudes:
        g.append((ids.get(str(m.amplitude_id)), m.mag, m.mag_errors.uncertainty, float(m.extra.epi_dist.value), float(m.extra.z_dist.value), str(m.extra.picked.value).lower() == "true"))
    if obs.check(sorted(str(x[0]) for x in g) == sorted(str(x[0]) for x in sm), "station-magnitudes", lambda: dict(got=g, want=sm)):
        for x in sm:
            obs.check(any(y[0] == x[0] and all(near(a, b, 1e-9) for a, b in zip(y[1:5], x[1:5])) and y[5] == x[5] for y in g), "station-magnitude-values", lambda: dict(got=g, want=x))
    if rec["nml"]:
        if obs.check(len(ev.magnitudes) == 1, "magnitude", lambda: dict(n=len(ev.magnitudes))):
            obs.check(ev.preferred_magnitude() is not None, "preferred-magnitude", lambda: dict(got=ev.preferred_magnitude_id))
            m = ev.magnitudes[0]
            obs.check(near(m.mag, e["ML"], 1e-12) and near(m.mag_errors.uncertainty, e["ML_Err"], 1e-12) and near(m.extra.r2.value, e["ML_r2"], 1e-12) and m.station_count == len(sm), "magnitude", lambda: dict(got=m, want=e, stations=len(sm)))
    else:
        obs.check(not ev.magnitudes, "magnitude-from-nowhere", lambda: dict(got=ev.magnitudes))
        obs.count("no_magnitude")
    obs.count("amplitudes", len(want))


def judge_nlloc(obs, path, rec, auto):
    want = []
    for s, ph, mt, pt, er, _, _ in rec["picks"]:
        if auto and pt != "-1":
            want.append((s, ph, us(UTCDateTime(pt)), float(er)))
        elif not auto:
            want.append((s, ph, us(UTCDateTime(mt)), None))
    lines = [ln.split() for ln in path.read_text().splitlines()]
    got = []
    for f in lines:
        if not obs.check(len(f) == 15 and f[9] == "GAU", "nlloc-line", lambda: " ".join(f)):
            return
        t = UTCDateTime(f[6][:4] + "-" + f[6][4:6] + "-" + f[6][6:8]) + int(f[7][:2]) * 3600 + int(f[7][2:]) * 60 + float(f[8])
        got.append((f[0], f[4], us(t), float(f[10])))
        # nothing is known of coda, amplitude and period, and every pick has its prior weight
        obs.check([float(v) for v in f[11:]] == [-1, -1, -1, 1], "nlloc-line", lambda: " ".join(f))
    if obs.check(sorted(g[:2] for g in got) == sorted(w[:2] for w in want), "nlloc-picks", lambda: dict(got=got, want=want)):
        for g, w in zip(sorted(got), sorted(want, key=lambda x: x[:3])):
            obs.check(g[:2] == w[:2] and abs(g[2] - w[2]) <= 51, "nlloc-time", lambda: dict(got=g, want=w))
            if w[3] is not None:
                obs.check(abs(g[3] - w[3]) <= 0.0051 * w[3] * 1.01, "nlloc-error", lambda: dict(got=g, want=w))
    obs.count("nlloc_lines", len(got))


def judge_markers(obs, path, rec, uid):
    L = [ln for ln in path.read_text().splitlines() if not ln.startswith("#")]
    ev = [ln.split() for ln in L if ln.startswith("event:")]
    ph = [ln.split() for ln in L if ln.startswith("phase:")]
    t = lambda f: us(UTCDateTime(f[1] + "T" + f[2]))
    obs.check(len(ev) == 1 and t(ev[0]) == us(rec["ot"]) and uid in ev[0][4], "marker-event", lambda: dict(got=ev, want=str(rec["ot"])))
    want = []
    for s, p, mt, pt, *_ in rec["picks"]:
        want += [(s, p, us(UTCDateTime(x))) for x in (mt, pt) if x != "-1"]
    got = sorted((f[4].split(".")[1], f[8], t(f)) for f in ph)
    obs.check(got == sorted(want), "marker-picks", lambda: dict(got=got, want=sorted(want)))
    obs.count("markers", len(got))


def judge_mfast(obs, d, rng, ev, rec, stem, st, stations, units):
    elev = 1000.0 if units == "km" else 1.0
    byst = {}
    for s, p, mt, pt, *_ in rec["picks"]:
        byst.setdefault(s, {})[p] = (UTCDateTime(mt), None if pt == "-1" else UTCDateTime(pt))
    files = {p.name: p for p in d.rglob("*") if p.is_file()}
    must = set()
    for _, s in stations.iterrows():
        for c in "ZNE":
            trs = st.select(station=s.Name, component=c)
            nm = f"{stem}.{s.Name}.{c.lower()}"
            if len(trs) and byst.get(s.Name, {}).get("S", (0, None))[1] is not None:
                must.add(nm)
                obs.check(nm in files, "mfast-missing", lambda: dict(file=nm, got=sorted(files)))
            if nm not in files:
                continue
            g, tr = read(str(files[nm]))[0], trs[0] if len(trs) else None
            if not obs.check(tr is not None, "mfast-from-nowhere", nm):
                continue
            h = g.stats.sac
            obs.check(np.array_equal(g.data, tr.data.astype(np.float32)) and g.stats.station == s.Name and abs(g.stats.starttime - tr.stats.starttime) < 1e-3 + 1e-3, "mfast-data", lambda: dict(file=nm, got=str(g), want=str(tr)))
            ref = UTCDateTime(year=h.nzyear, julday=h.nzjday, hour=h.nzhour, minute=h.nzmin, second=h.nzsec, microsecond=h.nzmsec * 1000)
            tol = 2.1e-3
            obs.check(abs(ref + h.o - rec["ot"]) < tol, "mfast-origin-time", lambda: dict(file=nm, got=str(ref + h.o), want=str(rec["ot"])))
            for hd, p in (("t0", "S"), ("a", "P")):
                mt, pt = byst.get(s.Name, {}).get(p, (None, None))
                v = h.get(hd)
                v = None if v is None or abs(v + 12345) < 1e-3 else ref + float(v)
                if pt is not None:
                    obs.check(v is not None and abs(v - pt) < tol, "mfast-pick", lambda: dict(file=nm, header=hd, got=str(v), want=str(pt)))
                    obs.count("mfast_picks")
                elif v is not None:         # a modelled arrival may stand in
                    obs.check(mt is not None and abs(v - mt) < tol, "mfast-pick-from-nowhere", lambda: dict(file=nm, header=hd, got=str(v)))
            e = rec["e"]
            obs.check(near(h.evla, e["Y"], 1e-6) and near(h.evlo, e["X"], 1e-6) and near(h.evdp, e["Z"] * (1 if units == "km" else 1e-3), 1e-6, 1e-6), "mfast-event", lambda: dict(file=nm, got=h, want=e))
            dist, az, _ = gps2dist_azimuth(e["Y"], e["X"], s.Latitude, s.Longitude)
            obs.check(near(h.stla, s.Latitude, 1e-6) and near(h.stlo, s.Longitude, 1e-6) and near(h.stel, s.Elevation * elev, 1e-6, 1e-6), "mfast-station", lambda: dict(file=nm, got=h, want=s.to_dict(), units=units))
            obs.check(near(h.dist, dist / 1000, 1e-5), "mfast-distance", lambda: dict(file=nm, got=h.dist, want=dist / 1000))
            obs.check("az" in h and abs((h.az - az + 180) % 360 - 180) < 1e-3, "mfast-azimuth", lambda: dict(file=nm, got=h.get("az"), want=az))
            obs.check(near(h.cmpaz, {"N": 0, "Z": 0, "E": 90}[c]) and near(h.cmpinc, {"N": 90, "Z": 0, "E": 90}[c]), "mfast-orientation", lambda: dict(file=nm, got=h))
            obs.count("mfast_files")


def export(case, rng, obs):
    from quakemigrate.export import to_mfast, to_nlloc, to_obspy, to_snuffler
    d = harness.case_dir()
    units = str(rng.choice(["km", "m"]))
    factor = 1.0 if units == "km" else 1e-3
    n = int(rng.integers(1, 6))
    names = synth.station_names(n)
    if rng.random() < 0.4:
        names[0] = str(rng.choice(["001", "0123", "12", "NA", "1E5", "nan"]))
    nets = {s: str(rng.choice(["XX", "YY"])) for s in names}
    sub = str(rng.choice(["", "sub"]))
    t0 = [UTCDateTime(2020, 12, 31, 23, 59, 45), UTCDateTime(2019, 2, 28, 22, 59, 50)][int(rng.integers(0, 2))]
    nev = int(rng.integers(0, 6))
    truth, mags, use = make_run(rng, d / "run", sub, names, nets, units, nev, t0)
    with synth.quiet():
        cat = to_obspy.read_quakemigrate(str(d / "run") if rng.random() < 0.5 else d / "run", units, run_subname=sub, local_mag_ph=use)
    ids = sorted(str(e.resource_id).rsplit("/", 1)[-1] for e in cat)
    if not obs.check(ids == sorted(truth), "events", lambda: dict(got=ids, want=sorted(truth))):
        return
    cats = [("memory", cat)]
    if nev:
        buf = io.BytesIO()
        with synth.quiet():
            cat.copy().write(buf, format="QUAKEML", nsmap={"qm": to_obspy.ns})
            buf.seek(0)
            cats.append(("quakeml", read_events(buf)))
    for how, c in cats:
        if obs.check(len(c) == nev, "events", lambda: dict(how=how, got=len(c), want=nev)):
            for ev in c:
                judge_event(obs, ev, truth[str(ev.resource_id).rsplit("/", 1)[-1]], factor, mags, use)
        obs.count(how, len(c))
    f = 1.0 if units == "km" else 1000.0
    stations = pd.DataFrame(dict(Network=[nets[s] for s in names], Name=names, Latitude=np.round(rng.uniform(-80, 80, n), 5), Longitude=np.round(rng.uniform(-170, 170, n), 5), Elevation=np.round(rng.uniform(-0.5, 3, n) * f, 3)))
    rows = stations.sample(frac=1, random_state=int(rng.integers(0, 1000))) if rng.random() < 0.5 else stations
    code = None if rng.random() < 0.6 else "ZZ"
    tab = rows if rng.random() < 0.7 else rows.drop(columns="Network")
    to_snuffler.snuffler_stations(tab, str(d), "st.txt", code)
    got = [ln.split() for ln in (d / "st.txt").read_text().splitlines()]
    want = [(code or (s.Network if "Network" in tab else ""), s.Name, s.Latitude, s.Longitude, s.Elevation) for _, s in rows.iterrows()]
    obs.check([(*g[0].split(".")[:2], *map(float, g[1:4])) for g in got] == want, "snuffler-stations", lambda: dict(got=got, want=want))
    for ev in cat:
        uid = str(ev.resource_id)
        rec = truth[uid]
        for auto in (True, False):
            with synth.quiet():
                to_nlloc.nlloc_obs(ev, str(d / f"{uid}.{auto}"), autopick=auto)
            judge_nlloc(obs, d / f"{uid}.{auto}", rec, auto)
        own = "own" if rng.random() < 0.3 else None
        to_snuffler.snuffler_markers(ev, str(d / "snuf"), *([] if own is None else [f"{own}.txt"]))
        judge_markers(obs, d / "snuf" / uid / (f"{own}.txt" if own else f"{uid}.markers"), rec, uid)
        # cut waveforms, as they may be
        st = Stream()
        off = 0.0 if rng.random() < 0.5 else 1.0
        for s in names:
            if rng.random() < 0.15:
                continue
            for c in "ZNE":
                if rng.random() < 0.85:
                    t = UTCDateTime(ns=rec["ot"].ns // 10 ** 6 * 10 ** 6) - 5 + off * int(rng.integers(-2000, 2000)) / 1000
                    st += Trace(rng.integers(-1000, 1000, 3000).astype(np.int32), dict(network=nets[s], station=s, channel="HH" + c, sampling_rate=100, starttime=t))
        cw = d / "run" / "locate" / sub / "raw_cut_waveforms"
        cw.mkdir(parents=True, exist_ok=True)
        if not len(st):
            continue
        st.write(str(cw / f"{uid}.m"), format="MSEED")
        obs.check(str(ev.extra.cut_waveforms_file.value) == str((cw / f"{uid}.m").resolve()), "cut-waveform-path", lambda: dict(got=ev.extra.cut_waveforms_file))
        with synth.quiet():
            to_mfast.sac_mfast(ev, rows, str(d / "mfast"), units, **({"filename": own} if own else {}))
        judge_mfast(obs, d / "mfast" / uid, rng, ev, rec, own or uid, st, rows, units)
        refused(obs, "mfast-units", lambda: to_mfast.sac_mfast(ev, rows, str(d / "refused"), str(rng.choice(["cm", "KM", ""]))))
    obs.key(units, mags, use, sub, nev, n)


def refused(obs, key, f):
    try:
        with synth.quiet():
            f()
    except (AttributeError, ValueError):
        obs.count("refused")
        return
    obs.violate(key, "accepted without an error")


def intervals(case, rng, obs):
    """Pick uncertainties given as lower and upper bounds, and what is refused."""
    from obspy.core.event import Catalog, Event, Pick, WaveformStreamID
    from quakemigrate.export import to_nlloc, to_obspy
    d = harness.case_dir()
    ev = Event()
    t0 = UTCDateTime(2021, 12, 31, 23, 59, 40)
    want = []
    for i in range(int(rng.integers(1, 9))):
        p = Pick(time=t0 + int(rng.integers(0, 60 * 10 ** 6)) / 1e6, waveform_id=WaveformStreamID(network_code="", station_code=f"S{i}"), phase_hint=str(rng.choice(["P", "S"])), method_id="autopick")
        how = int(rng.integers(0, 3))
        a, b = (float(f"{v:.3g}") for v in rng.lognormal(-2, 1, 2))
        if how == 0:
            p.time_errors.uncertainty = a
        elif how == 1:
            p.time_errors.lower_uncertainty, p.time_errors.upper_uncertainty = a, b
        ev.picks.append(p)
        want.append((f"S{i}", p.phase_hint, us(p.time), {0: a, 1: (a + b) / 2, 2: -1.0}[how]))
        obs.count("bounds", how == 1)
    to_nlloc.nlloc_obs(ev, str(d / "x.obs"))
    got = []
    for ln in (d / "x.obs").read_text().splitlines():
        f = ln.split()
        t = UTCDateTime(f[6][:4] + "-" + f[6][4:6] + "-" + f[6][6:8]) + int(f[7][:2]) * 3600 + int(f[7][2:]) * 60 + float(f[8])
        got.append((f[0], f[4], us(t), float(f[10])))
    ok = len(got) == len(want) and all(g[:2] == w[:2] and abs(g[2] - w[2]) <= 51 and abs(g[3] - w[3]) <= 0.0051 * abs(w[3]) for g, w in zip(sorted(got), sorted(want)))
    obs.check(ok, "nlloc-bounds", lambda: dict(got=sorted(got), want=sorted(want)))
    obs.key("bounds", len(want))
    refused(obs, "nlloc-catalog", lambda: to_nlloc.nlloc_obs(Catalog([ev, ev]), str(d / "y.obs")))
    truth, mags, use = make_run(rng, d / "run", "", ["AA"], {"AA": "XX"}, "km", 2, t0)
    have = [k for k in ("real", "wa") if rng.random() < 0.5]
    for k in have:
        (d / "run" / "locate" / f"{k}_cut_waveforms").mkdir()
    cat = to_obspy.read_quakemigrate(d / "run", "km", local_mag_ph=use)
    for e in cat:
        for k in ("real", "wa"):
            v = e.extra.get(f"{k}_cut_waveforms_file")
            p = (d / "run" / "locate" / f"{k}_cut_waveforms" / f"{str(e.resource_id)}.m").resolve()
            obs.check((k in have) == (v is not None) and (v is None or str(v.value) == str(p)), "cut-waveform-path", lambda: dict(kind=k, got=v))
            obs.count("links")
    refused(obs, "catalog-units", lambda: to_obspy.read_quakemigrate(d / "run", str(rng.choice(["cm", "KM", ""])), local_mag_ph=use))


def main(chk):
    chk.run(intervals, [dict(id=f"i{i}") for i in range(chk.pick(30, 400))])
    chk.run(export, [dict(id=f"e{i}") for i in range(chk.pick(160, 3000))])
    chk.require(memory=150, quakeml=150, picks=1500, amplitudes=500, no_magnitude=20, nlloc_lines=600, markers=600, mfast_files=150, mfast_picks=150, bounds=15, links=60, refused=100)
    chk.rule = "exported catalogues and files against the run's result files; a key is a distinct layout of a run"
