"""C19: local magnitudes follow the attenuation law, corrections and filters exactly."""
import math
import re
import numpy as np
import pandas as pd
from obspy import UTCDateTime
from qv import harness, synth

# published laws: -log A0 = n log10(r / r0) + K (r - r0) + c
LAWS = {"keir2006": (1.196997, 0.001066, 17, 2), "Danakil2017": (1.274336, -0.000273, 17, 2), "Greenfield2018_askja": (1.4406, 0.003, 17, 2),
        "Greenfield2018_bardarbunga": (1.2534, 0.0032, 17, 2), "Greenfield2018_comb": (1.1999, 0.0016, 17, 2), "Hutton-Boore": (1.11, 0.00189, 100, 3),
        "Langston1998": (0.776, 0.000902, 17, 2)}


def law(name, r):
    if callable(name):
        return name(r)
    if name == "UK":
        return 1.11 * math.log10(r) + 0.00189 * r - 1.16 * math.exp(-0.2 * r) - 2.09
    n, k, r0, c = LAWS[name]
    return n * math.log10(r / r0) + k * (r - r0) + c


def table(rng, obs):
    n = int(rng.integers(1, 9))
    names = [f"S{chr(65 + i)}{chr(65 + int(rng.integers(0, 3)))}" for i in range(n)]
    if n > 2 and rng.random() < 0.5:
        names[0], names[1] = "X" + names[2], names[2] + "X"     # one name inside another
    filtered = rng.random() < 0.5
    rows, ids = [], []
    for s in names:
        epi, z = float(rng.uniform(0.1, 200)), float(rng.uniform(-3, 30))
        if rng.random() < 0.08:
            epi = 0.0
            z = 0.0 if rng.random() < 0.5 else z
        picked = bool(rng.random() < 0.6)
        for c in "ENZ":
            nul = rng.random() < 0.15
            ids.append(f".{s}..{c}" if nul else f"XX.{s}.00.HH{c}")
            r = dict(epi_dist=epi, z_dist=z)
            base = 10 ** rng.uniform(-4, 1)
            for ph in "PS":
                miss = nul or rng.random() < 0.1
                g = float(rng.uniform(0.3, 1.02)) if filtered and not miss else (None if rng.random() < 0.5 and not filtered and not miss else np.nan)
                a = np.nan if miss else float(base * 10 ** rng.uniform(0, 1))
                if not miss and rng.random() < 0.03:
                    a = 0.0
                r.update({f"{ph}_amp": a, f"{ph}_freq": np.nan if miss else float(rng.uniform(0.5, 20)),
                          f"{ph}_time": np.nan if miss else UTCDateTime(2020, 1, 1) + float(rng.uniform(0, 9)), f"{ph}_avg_amp": a / 3, f"{ph}_filter_gain": g})
            r["Noise_amp"] = np.nan if nul or rng.random() < 0.05 else float(base * 10 ** rng.uniform(-2, 0.9))
            r["is_picked"] = picked and not nul
            rows.append(r)
    if rng.random() < 0.04:
        for r in rows:
            r["Noise_amp"] = np.nan
    cols = ["epi_dist", "z_dist", *[f"{p}_{k}" for p in "PS" for k in ("amp", "freq", "time", "avg_amp", "filter_gain")], "Noise_amp", "is_picked"]
    df = pd.DataFrame(rows, columns=cols, index=pd.Index(ids, name="id"))
    obs.key("table", n, filtered)
    return df, filtered, names


def params(rng, names, obs):
    own = rng.random() < 0.15
    A0 = (lambda r: 1.3 * np.log10(r) + 0.002 * r - 1.0) if own else str(rng.choice(list(LAWS) + ["UK"]))
    p = dict(A0=A0)
    if rng.random() < 0.6:
        p["amp_feature"] = str(rng.choice(["S_amp", "P_amp"]))
    if rng.random() < 0.5:
        p["use_hyp_dist"] = bool(rng.random() < 0.7)
    if rng.random() < 0.4:
        p["amp_multiplier"] = float(10 ** rng.uniform(-2, 2))
    if rng.random() < 0.5:
        p["station_corrections"] = {f"XX.{s}.00.HH{c}": float(rng.normal(0, 0.4)) for s in names for c in "ENZ" if rng.random() < 0.6}
    if rng.random() < 0.5:
        p["weighted_mean"] = bool(rng.random() < 0.8)
    if rng.random() < 0.3:
        p["trace_filter"] = str(rng.choice([".*H[NE]$", "Z$", "S[ABC].*H[ENZ]$"]))
    if rng.random() < 0.7:
        p["noise_filter"] = float(rng.choice([0.0, 0.5, 1.0, 2.0, 5.0]))
    if rng.random() < 0.3:
        p["station_filter"] = [names[i] for i in rng.permutation(len(names))[:int(rng.integers(0, 3))]] + ["S"]
    if rng.random() < 0.3:
        p["dist_filter"] = float(rng.uniform(20, 180))
    if rng.random() < 0.3:
        p["pick_filter"] = True
    if rng.random() < 0.3:
        p["r2_only_used"] = bool(rng.random() < 0.3)
    obs.key("options", p.get("weighted_mean", False), p.get("noise_filter", 1.0), "trace_filter" in p, "dist_filter" in p, p.get("r2_only_used", True), p.get("use_hyp_dist", False))
    return p


def ref_channels(df, p):
    ph = p.get("amp_feature", "S_amp")
    mult = p.get("amp_multiplier", 1.0)
    gains = df[f"{ph[0]}_filter_gain"]
    corrected = not all(pd.isnull(g) for g in gains)
    out = []
    for i, (tid, r) in enumerate(df.iterrows()):
        amp, noise = float(r[ph]), float(r["Noise_amp"])
        if corrected:
            noise = noise / r[f"{ph[0]}_filter_gain"]
        d = math.hypot(r.epi_dist, r.z_dist) if p.get("use_hyp_dist") else r.epi_dist
        corr = p.get("station_corrections", {}).get(tid, 0.0)
        ml = err = math.nan
        if not (math.isnan(amp) or amp == 0 or d == 0 or amp < noise):
            att = law(p["A0"], d)
            ml = math.log10(amp * mult) + att + corr
            if not math.isnan(noise) and amp > noise:
                err = math.log10((amp + noise) / (amp - noise))
        out.append(dict(id=tid, amp=amp, noise=noise, d=d, corr=corr, ml=ml, err=err, station=tid.split(".")[1], picked=bool(r.is_picked)))
    return out


def ref_event(ch, p):
    live = [c for c in ch if not math.isnan(c["amp"]) and not math.isnan(c["noise"])]
    nf = p.get("noise_filter", 1.0)
    for c in live:
        c["noise_ok"] = nf == 0 or c["amp"] > c["noise"] * nf
        c["other_ok"] = ((p.get("trace_filter") is None or re.search(p["trace_filter"], c["id"]) is not None)
                         and c["station"] not in (p.get("station_filter") or []) and (not p.get("dist_filter") or c["d"] <= p["dist_filter"]))
        c["used"] = c["noise_ok"] and c["other_ok"] and (not p.get("pick_filter") or c["picked"]) and not math.isnan(c["ml"])
    used = [c for c in live if c["used"]]
    if not used:
        return math.nan, math.nan, math.nan, live, used
    w = np.array([1 / c["err"] ** 2 if p.get("weighted_mean") else 1.0 for c in used])
    m = np.array([c["ml"] for c in used])
    mean = (w @ m) / w.sum()
    err = math.sqrt((w @ (m - mean) ** 2) / w.sum()) if len(m) > 1 else used[0]["err"]
    mult = p.get("amp_multiplier", 1.0)
    if p.get("r2_only_used", True):
        sel = used
    else:
        sel = []
        for c in live:
            if not c["other_ok"]:
                continue
            if not c["noise_ok"] and c["d"] > 0:
                pred = 10 ** (mean - law(p["A0"], c["d"]))
                ratio = pred / (c["noise"] * mult * 10 ** c["corr"])
                if abs(ratio / 5 - 1) < 1e-6:
                    return mean, err, None, live, used
                if ratio < 5:
                    continue
            sel.append(c)
        if any(c["amp"] == 0 or c["d"] == 0 for c in sel):
            return mean, err, None, live, used
    y = np.array([math.log10(c["amp"] * mult) + c["corr"] for c in sel])
    if len(y) < 2 or np.ptp(y) == 0:
        return mean, err, math.nan, live, used
    f = np.array([mean - law(p["A0"], c["d"]) for c in sel])
    tot = ((y - y.mean()) ** 2).sum()
    return mean, err, 1 - ((y - f) ** 2).sum() / tot, live, used


def same_frame(a, b):
    return (list(a.columns) == list(b.columns) and list(a.index) == list(b.index)
            and all((pd.isnull(x) and pd.isnull(y)) or x == y for c in a.columns for x, y in zip(a[c], b[c])))


def near(a, b, tol=1e-9):
    if b is None:
        return True
    a = float(a)
    return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= tol * max(1, abs(b))


def magnitudes(case, rng, obs):
    from quakemigrate.signal.local_mag.magnitude import Magnitude
    df, filtered, names = table(rng, obs)
    p = params(rng, names, obs)
    mag = Magnitude(dict(p))
    ph = p.get("amp_feature", "S_amp")
    keep = df.copy(deep=True)
    with np.errstate(all="ignore"):
        out = mag.calculate_magnitudes(df)
    obs.check(same_frame(df, keep), "amplitudes-altered", lambda: f"the amplitude table changed: {p}")
    ch = ref_channels(keep, p)
    if not obs.check(list(out.index) == list(keep.index) and "ML" in out and "ML_Err" in out, "table-rows", lambda: list(out.index)):
        return
    obs.check(same_frame(out[keep.columns], keep), "measurements-altered", lambda: f"measurement columns changed {p}")
    for c, (_, r) in zip(ch, out.iterrows()):
        obs.check(near(r.ML, c["ml"]), "channel-magnitude", lambda: dict(got=r.ML, want=c, params=str(p)))
        if not (c["amp"] == c["noise"]) and not math.isnan(c["ml"]):
            obs.check(near(r.ML_Err, c["err"], 1e-7), "channel-magnitude-error", lambda: dict(got=r.ML_Err, want=c, params=str(p)))
        obs.count("channels")
        obs.count("missing_channels", math.isnan(c["ml"]))
    if not out[ph].notnull().any():
        return
    keep2 = out.copy(deep=True)
    if not p.get("r2_only_used", True) and p.get("noise_filter", 1.0) <= 0:
        with np.errstate(all="ignore"):
            try:
                got = mag.mean_magnitude(out)
                obs.check(pd.isnull(got[0]), "r2-needs-noise-filter", "no refusal")
            except AttributeError:
                obs.count("r2_refused")
        return
    with np.errstate(all="ignore"):
        got = mag.mean_magnitude(out)
    m, e, r2, live, used = ref_event(ch, p)
    lab = lambda: dict(got=[float(v) for v in got[:3]], want=(m, e, r2), used=[c["id"] for c in used], params=str(p))
    obs.check(near(got[0], m), "event-magnitude", lab)
    obs.check(near(got[1], e, 1e-7), "event-magnitude-error", lab)
    obs.check(near(got[2], r2, 1e-6), "event-r-squared", lab)
    obs.count("events", not math.isnan(m))
    obs.count("events_without", math.isnan(m))
    obs.count("single_channel", len(used) == 1)
    obs.key("weighted" if p.get("weighted_mean") else "plain", min(len(used), 5))
    tab = got[3]
    obs.check(list(tab.index) == [c["id"] for c in live], "observations-kept", lambda: dict(got=list(tab.index), want=[c["id"] for c in live]))
    if "Used" in tab:
        obs.check([i for i, u in zip(tab.index, tab["Used"]) if u] == [c["id"] for c in used], "used-set", lab)
    obs.check(same_frame(out, keep2), "magnitudes-altered", lambda: f"the table given to mean_magnitude changed: {p}")
    with np.errstate(all="ignore"):
        again = mag.mean_magnitude(out)
    obs.check(all(near(a, float(b), 1e-12) for a, b in zip(again[:3], got[:3])), "repeat", lambda: dict(first=got[:3], second=again[:3]))
    # ten times the amplitude is one magnitude more
    if not math.isnan(m) and rng.random() < 0.5:
        up = keep.copy(deep=True)
        for c in ("P_amp", "S_amp", "Noise_amp"):
            up[c] = up[c] * 10
        with np.errstate(all="ignore"):
            g10 = mag.mean_magnitude(mag.calculate_magnitudes(up))
        obs.check(near(g10[0], m + 1, 1e-7) and near(g10[1], e, 1e-6), "ten-times-amplitude", lambda: dict(got=g10[:3], base=(m, e)))
        obs.count("scalings")
    obs.sample = dict(used=len(used), ml=m, err=e, r2=r2)


def stage(case, rng, obs):
    """through LocalMag: what the event and the amplitude file carry"""
    from quakemigrate.io.core import Run
    from quakemigrate.io.event import Event
    from quakemigrate.signal.local_mag import LocalMag
    d = harness.case_dir()
    df, filtered, names = table(rng, obs)
    p = params(rng, names, obs)
    p.pop("r2_only_used", None)
    ph = p.get("amp_feature", "S_amp")
    if rng.random() < 0.15:
        df[ph] = np.nan
        df[f"{ph[0]}_filter_gain"] = np.nan
    other = "P_amp" if ph == "S_amp" else "S_amp"
    if other in df and rng.random() < 0.25:  # the phase which is not asked for could not be measured
        df[other] = np.nan
        df[f"{other[0]}_filter_gain"] = np.nan
        if not df[ph].isnull().all():
            obs.count("other_phase_missing")
    with synth.quiet():
        lm = LocalMag({}, p, plot_amplitudes=False)
    lm.amp.get_amplitudes = lambda event, lut: df.copy(deep=True)
    ev = Event(0.5, pd.Series({"EventID": "20210301000000000", "CoaTime": UTCDateTime(2021, 3, 1), "TRIG_COA": 1., "COA": 1., "COA_NORM": 1.}))
    run = Run(d, "run", "sub" if rng.random() < 0.5 else "", stage="locate")

    class L:
        unit_conversion_factor = 1000.0
    with synth.quiet(), np.errstate(all="ignore"):
        ret = lm.calc_magnitude(ev, L(), run)
    ch = ref_channels(df, p)
    m, e, r2, live, used = ref_event(ch, p)
    if df[ph].isnull().all():
        m = e = r2 = math.nan
        obs.count("no_measurement")
    lab = lambda: dict(got=ev.localmag, returned=ret[1], want=(m, e, r2), params=str(p))
    obs.check(near(ret[1], m) and near(ev.localmag.get("ML", 99), m) and near(ev.localmag.get("ML_Err", 99), e, 1e-7), "event-carries-magnitude", lab)
    obs.check(r2 is None or near(ev.localmag.get("ML_r2", 99), r2, 1e-6), "event-carries-r2", lab)
    obs.count("stage_events")
    f = list(d.rglob("*.amps"))
    if not obs.check(len(f) == 1 and f[0].stem == ev.uid, "amplitude-file", lambda: [str(x) for x in f]):
        return
    tab = pd.read_csv(f[0], index_col=0)
    if not obs.check(list(tab.index) == list(df.index), "amplitude-file-rows", lambda: dict(got=list(tab.index), want=list(df.index))):
        return
    for i, c in enumerate(ch):
        for col, rtol in ((ph, 1e-4), ("Noise_amp", 1e-4), ("epi_dist", 1e-4), ("z_dist", 1e-4)):
            a, b = float(tab.iloc[i][col]), float(df.iloc[i][col])
            obs.check((math.isnan(a) and math.isnan(b)) or abs(a - b) <= rtol * abs(b) + 1e-12, "amplitude-file-value", lambda: dict(column=col, got=a, want=b))
        if "ML" in tab:
            a = float(tab.iloc[i]["ML"])
            obs.check((math.isnan(a) and math.isnan(c["ml"])) or abs(a - c["ml"]) <= 0.006 * max(abs(c["ml"]), 1), "amplitude-file-ml", lambda: dict(got=a, want=c["ml"]))
            obs.count("file_rows")


def laws(case, rng, obs):
    """every built-in law, over distance; anything else is refused"""
    from quakemigrate.signal.local_mag.magnitude import Magnitude
    r = np.concatenate([10 ** rng.uniform(-1, 3, 200), [17.0, 100.0]])
    one = pd.DataFrame(dict(epi_dist=r, z_dist=0.0, S_amp=1.0, Noise_amp=0.01, S_filter_gain=np.nan, is_picked=True), index=[f"X.{i}..Z" for i in range(len(r))])
    for name in list(LAWS) + ["UK"]:
        m = Magnitude(dict(A0=name)).calculate_magnitudes(one.copy())
        obs.close("attenuation-law", m["ML"].values, [law(name, x) for x in r], rtol=1e-9, atol=1e-9, msg=name)
        obs.count("laws")
    for bad, exc in ((dict(), TypeError), (dict(A0="nowhere"), ValueError)):
        try:
            Magnitude(bad).calculate_magnitudes(one.copy())
            obs.violate("bad-law-accepted", repr(bad))
        except exc:
            obs.count("refusals")


def main(chk):
    chk.run(magnitudes, [dict(id=f"m{i}") for i in range(chk.pick(1500, 30000))])
    chk.run(stage, [dict(id=f"s{i}") for i in range(chk.pick(300, 5000))])
    chk.run(laws, [dict(id=f"l{i}") for i in range(chk.pick(3, 20))])
    chk.require(channels=chk.pick(8000, 160000), missing_channels=500, events=chk.pick(500, 10000), events_without=20, single_channel=20, scalings=100,
                stage_events=100, no_measurement=10, other_phase_missing=10, laws=16, refusals=4, r2_refused=5)
    chk.rule = "magnitude tables and event magnitudes of the real code against an independent calculation; a key is a distinct option or table pattern"
