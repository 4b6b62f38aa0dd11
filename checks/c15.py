"""C15: every triggered event is located once, and independently of the others."""
import hashlib
import numpy as np
import pandas as pd
from obspy import Stream, Trace, UTCDateTime
from qv import harness, pipe, refs, synth


def uid_of(t):
    return "".join(c for c in UTCDateTime(t).strftime("%Y%m%d%H%M%S%f"))[:17]


def outputs(run_dir, sub=""):
    """Everything a location run wrote, by event identifier (first run of digits in the name)."""
    out = {}
    root = run_dir / "locate" / sub
    for p in sorted(root.rglob("*")):
        if p.is_file() and "logs" not in p.parts:
            key = p.relative_to(root).parts
            out["/".join(key)] = p.read_bytes()
    return out


def of_event(outs, uid):
    return {k: v for k, v in outs.items() if uid in k}


def write_files(run_dir, name, sub, rows, trig):
    """Daily triggered-event files as the trigger stage leaves them."""
    p = run_dir / "trigger" / sub / "events"
    p.mkdir(parents=True, exist_ok=True)
    days = {}
    for r, t in zip(rows, trig):
        days.setdefault((t.year, t.julday), []).append(r)
    full = f"{name}_{sub}" if sub else name
    for (y, j), rr in days.items():
        pd.DataFrame(rr).to_csv(p / f"{full}_{y}_{j:03d}_TriggeredEvents.csv", index=False)


def tagged(case, rng, obs):
    d = harness.case_dir()
    sr = int(rng.choice([20, 25, 50]))
    k = int(rng.integers(sr // 3, 2 * sr))
    mw = k / sr
    n = int(rng.integers(2, 5))
    names = synth.station_names(n)
    nc = tuple(int(v) for v in rng.integers(5, 7, 3))
    spec = synth.grid_spec(nc, rng.choice([0.5, 1.0], 3))
    lut = synth.make_lut(spec, synth.stations_df(rng, spec, n, names=names))
    phases = ["P", "S"]
    tt = {(s, p): np.rint(np.array(lut.traveltimes[s][p], dtype=float) * sr).astype(int) for s in names for p in phases}
    mtt = max(int(t.max()) for t in tt.values())
    base = UTCDateTime(str(rng.choice(["2020-12-31T23:58:00", "2021-03-01T11:20:00", "2020-02-28T23:59:00", "2020-02-28T23:59:11"])))
    nev = int(rng.integers(3, 9))
    reach = 4 * mw + 40.0          # more than any window with its padding
    trig = [base + reach * i + int(rng.integers(0, 10 * sr)) / sr for i in range(nev)]
    for i in range(nev):          # one exactly at midnight
        if 0 < UTCDateTime(trig[i].date) + 86400 - trig[i] < 10 or 0 < trig[i] - UTCDateTime(trig[i].date) < 10:
            trig[i] = UTCDateTime((trig[i] + 20).date)
    status = [str(rng.choice(["ok", "ok", "ok", "nodata", "unavailable"])) for _ in range(nev)]
    t_ref = base - 2 * reach
    total = int((nev + 4) * reach * sr)
    onset = pipe.TagOnset(rng, names, t_ref, total, sr, phases, pre=float(rng.choice([0.0, 0.5, 2.0])))
    for i in range(nev):           # a common pulse, so that peaks are near the trigger in about half of the events
        src = tuple(int(rng.integers(0, m)) for m in nc)
        shift = int(rng.integers(-k + 1, k)) if rng.random() < 0.7 else int(rng.choice([-1, 1])) * int(rng.integers(k + 1, 2 * k))
        for key, v in onset.table.items():
            j = int(round((trig[i] - t_ref) * sr)) + shift + tt[key][src]
            v[j - 3:j + 4] += 60 * np.exp(-0.5 * (np.arange(-3, 4) / 1.5) ** 2)

    def avail(start, keys):
        i = int(np.argmin([abs(start - t) for t in trig]))
        r = np.random.default_rng([i, n, sr])
        if status[i] == "unavailable":
            return {q: 0 for q in keys}
        av = {q: int(r.random() < 0.8) for q in keys}
        if not sum(av.values()):
            av[keys[0]] = 1
        return av
    onset.availability_fn = avail
    # the archive holds data around every event but those without
    st = Stream()
    for i in range(nev):
        if status[i] != "nodata":
            a = int(round((trig[i] - reach / 2 + 10 - t_ref) * sr))
            x = np.round(rng.normal(0, 100, int((reach - 20) * sr))).astype(np.int32)
            for s in names[:1 + i % n]:
                st += Trace(x, dict(network="XX", station=s, channel="HHZ", sampling_rate=sr, starttime=t_ref + a / sr))
    st = st.merge(method=1).split()
    (d / "arch").mkdir()
    synth.write_archive(d / "arch", st)
    arch = synth.make_archive(d / "arch", pd.DataFrame({"Name": names}))
    rows = [dict(EventID=uid_of(t), CoaTime=str(t), TRIG_COA=float(np.round(rng.lognormal(0, 2), 6)), COA_X=1.0, COA_Y=1.0, COA_Z=1.0,
                 COA=float(np.round(rng.lognormal(0, 2), 6)), COA_NORM=float(np.round(rng.lognormal(0, 1), 6))) for t in trig]
    if rng.random() < 0.2:
        for r in rows:
            r["Extra"] = 1.0
    if rng.random() < 0.25:        # identifiers of the user's own catalogue
        for i, r in enumerate(rows):
            r["EventID"] = f"cat{(7 * i) % 10}{i:03d}q"
        obs.count("own_identifiers", nev)
    old = str(rng.choice(["", "", "", "raw", "bare"]))
    filed = [dict(r) for r in rows]   # as in the file: possibly of an earlier version
    for r, q in zip(rows, filed):
        if old:
            q["COA_V"] = q.pop("TRIG_COA")
        if old == "bare":
            q.pop("COA"), q.pop("COA_NORM")
            r["COA"] = r["COA_NORM"] = np.nan
    obs.count("old_tables", bool(old))
    sub = str(rng.choice(["", "sub", "s_2"]))
    write_files(d / "run", "run", sub, filed, trig)

    def picker():
        p = (pipe.NullPicker if case.get("null") else __import__("quakemigrate.signal.pickers", fromlist=["x"]).GaussianPicker)(onset=onset)
        p.plot_picks = False
        return p

    def run(name, which, how, sub=sub, order=None):
        scan = synth.make_scan(arch, lut, onset, d, name=name, picker=picker(), marginal_window=mw, run_subname=sub,
                               write_marginal_coalescence=True, threads=2)
        with synth.quiet():
            if how == "period":
                write_files(d / name, name, sub, filed, trig)
                scan.locate(*which)
            else:
                f = d / f"{name}.csv"
                pd.DataFrame([filed[i] for i in which]).to_csv(f, index=False)
                scan.locate(trigger_file=str(f))
        return outputs(d / name, sub)

    # what ought to be located
    expect = {}
    for i in range(nev):
        if status[i] != "ok":
            continue
        keys = [(s, p) for p in phases for s in names]
        pre = np.floor(onset.pre_pad * sr) / sr
        av = avail(trig[i] - 2 * mw - 1, keys)
        use = [q for q in keys if av[q]]
        o = int(round((trig[i] - t_ref) * sr)) - 2 * k
        w = np.stack([onset.table[q][o:o + 4 * k + 1 + mtt + 1] for q in use])
        m = refs.ref_migrate(w, np.stack([tt[q] for q in use], -1), 0, mtt + 1, len(use))
        mx, mxn, _ = refs.ref_peak(m)
        b = int(np.argmax(mx)) - 2 * k
        if abs(b) == k or np.sum(mx > mx.max() * (1 - 1e-9)) > 1:
            expect[i] = None       # on the edge: either way
        elif abs(b) < k:
            expect[i] = (trig[i] + b / sr, mx.max(), mxn[b + 2 * k])
    info = dict(sr=sr, mw=mw, status=status, sub=sub, old=old)
    i0 = int(rng.integers(0, nev)) if rng.random() < 0.5 else 0
    i1 = int(rng.integers(i0, nev)) if rng.random() < 0.5 else nev - 1
    lo = trig[i0] - (0 if rng.random() < 0.5 else 3.0)
    hi = trig[i1] + (0 if rng.random() < 0.5 else 3.0)
    if rng.random() < 0.4 and hi.date != trig[0].date:
        hi = max(UTCDateTime(hi.date), lo)
    mid = [t for t in trig if t.time.isoformat() == "00:00:00"]
    if mid and rng.random() < 0.7:
        lo, hi = min(lo, mid[0] - 5), mid[0]
    inside = [i for i in range(nev) if lo <= trig[i] and (trig[i] <= hi if hi.time.isoformat() != "00:00:00" else trig[i] < hi)]
    if not any(True for t in trig if UTCDateTime(lo.date) <= t):
        return
    obs.count("midnight_events", sum(t.time.isoformat() == "00:00:00" for t in trig))
    obs.count("midnight_ends", sum(t == hi for t in trig) * (hi.time.isoformat() == "00:00:00"))
    A = run("run", (str(lo), str(hi)), "period")
    judge(obs, A, expect, inside, rows, nev, info, "period")
    # all of them, in any order, from a user's file
    order = [int(v) for v in rng.permutation(nev)]
    B = run("other", order, "file", sub="")
    judge(obs, B, expect, range(nev), rows, nev, info, "file")
    for i in inside:
        u = rows[i]["EventID"]
        obs.check(of_event(A, u) == of_event(B, u), "depends", lambda: f"event {i} differs between runs with other events: {diff(of_event(A, u), of_event(B, u))}", **info)
        obs.count("compared")
    # one alone
    i = int(rng.integers(0, nev))
    C = run("alone", [i], "file", sub="")
    u = rows[i]["EventID"]
    obs.check(of_event(C, u) == of_event(B, u), "depends_alone", lambda: f"event {i} located alone: {diff(of_event(C, u), of_event(B, u))}", **info)
    obs.check(all(u in f for f in C), "foreign", lambda: f"{[f for f in C if u not in f][:3]}", **info)
    obs.key(tuple(status), sub, len(inside), k)
    obs.sample = info


def diff(a, b):
    return [(k, None if k not in a else hashlib.md5(a[k]).hexdigest()[:6], None if k not in b else hashlib.md5(b[k]).hexdigest()[:6])
            for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)][:4]


def judge(obs, outs, expect, which, rows, nev, info, how):
    import io
    for i in range(nev):
        u = rows[i]["EventID"]
        files = of_event(outs, u)
        ev = [f for f in files if f.endswith(".event")]
        pk = [f for f in files if f.endswith(".picks")]
        if i not in which or i not in expect:
            obs.check(not ev and not pk, "not_expected", f"{how}: event {i} ({info['status'][i]}) has results: {list(files)[:3]}", **info)
            obs.count("not_located")
            continue
        if expect[i] is None:
            continue
        if not obs.check(len(ev) == 1, "not_located", f"{how}: event {i} has {len(ev)} event files of {len(outs)} files", **info):
            continue
        ot, coa, coan = expect[i]
        e = pd.read_csv(io.BytesIO(files[ev[0]]), dtype=str)
        if not obs.check(len(e) == 1, "rows", f"{len(e)} rows", **info):
            continue
        e = e.iloc[0]
        obs.check(e["EventID"] == u, "identifier", f"{e['EventID']} for {u}", **info)
        obs.check(abs(UTCDateTime(e["DT"]) - ot) < 1e-5, "otime", f"{how}: event {i}: {e['DT']}, expected {ot}", **info)
        for col, v in (("TRIG_COA", rows[i]["TRIG_COA"]), ("DEC_COA", rows[i]["COA"]), ("DEC_COA_NORM", rows[i]["COA_NORM"]), ("COA", coa), ("COA_NORM", coan)):
            obs.check(abs(float(e[col]) - v) <= 5.1e-4 * abs(v) or (np.isnan(v) and pd.isna(e[col])), "value", f"{how}: event {i} {col} {e[col]}, expected {v}", **info)
        obs.count("located")
    known = [r["EventID"] for r in rows]
    stray = [f for f in outs if not any(u in f for u in known)]
    obs.check(not stray, "stray", str(stray[:3]), **info)


def real(case, rng, obs):
    """Real waveforms with faults: an event's results are the same whatever else is in the run."""
    d = harness.case_dir()
    sr = 50
    day = UTCDateTime(2020, 12, 31, 23, 58) if rng.random() < 0.5 else UTCDateTime(2021, 5, 5, 10)
    nev = 4
    w = synth.World(rng, d, n=4, nodes=(7, 7, 6), sr=sr, t0=day, duration=240.0, events=nev, write=False)
    st = synth.make_waveforms(rng, w.names, w.t0, 240.0, sr, w.events)
    # faults near some events: whole network out, one station out, one channel flat, gap in the padding
    faults = []
    for ev in w.events:
        f = str(rng.choice(["none", "none", "network", "station", "flat", "padding"]))
        faults.append(f)
        ot = ev["otime"]
        new = Stream()
        for tr in st:
            hit = f == "network" or (f == "station" and tr.stats.station == w.names[1]) or (f == "padding" and tr.stats.station == w.names[2])
            if hit:
                a, b = (ot - 20, ot + 20) if f != "padding" else (ot - 3.9, ot - 3.4)
                for q in (tr.slice(endtime=a), tr.slice(starttime=b)):
                    if q.stats.npts > 1:
                        new += q.copy()
            else:
                if f == "flat" and tr.stats.station == w.names[0] and tr.stats.channel == "HHZ":
                    i0, i1 = [int(round((t - tr.stats.starttime) * sr)) for t in (ot - 15, ot + 15)]
                    tr.data[max(0, i0):max(0, i1)] = 7
                new += tr
        st = new
    synth.write_archive(w.archive_root, st)
    onset = synth.make_onset(sr, str(rng.choice(["classic", "centred"])), bp=(2.0, 16.0, 2))
    from quakemigrate.signal.pickers import GaussianPicker
    mw = 0.6
    trig = [ev["otime"] + int(rng.integers(-15, 16)) / sr for ev in w.events]
    # triggers without an event: their peak is usually outside the window
    trig += [w.t0 + 25 + int(rng.integers(0, 20)) / sr]
    rows = [dict(EventID=uid_of(t), CoaTime=str(t), TRIG_COA=2.0, COA_X=1.0, COA_Y=1.0, COA_Z=1.0, COA=float(2 + i), COA_NORM=1.5) for i, t in enumerate(trig)]

    def run(name, which):
        f = d / f"{name}.csv"
        pd.DataFrame([rows[i] for i in which]).to_csv(f, index=False)
        scan = synth.make_scan(w.archive(), w.lut, onset, d, name=name, picker=GaussianPicker(onset=onset, plot_picks=False), marginal_window=mw,
                               write_cut_waveforms=True, write_coalescence=True, write_marginal_coalescence=True)
        with synth.quiet():
            scan.locate(trigger_file=str(f))
        return outputs(d / name)

    n = len(trig)
    full = run("full", range(n))
    order = [int(v) for v in rng.permutation(n)]
    cut = int(rng.integers(1, n))
    parts = [run("part1", order[:cut]), run("part2", order[cut:])]
    info = dict(faults=faults)
    for i in range(n):
        u = rows[i]["EventID"]
        b = of_event(parts[0] if i in order[:cut] else parts[1], u)
        a = of_event(full, u)
        obs.check(set(a) == set(b), "real/depends", lambda: f"event {i}: {sorted(set(a) ^ set(b))[:4]}", **info)
        for f in set(a) & set(b):
            same = a[f] == b[f]
            if not same and f.endswith(".m"):
                from obspy import read
                import io
                x, y = read(io.BytesIO(a[f])).sort(), read(io.BytesIO(b[f])).sort()
                same = len(x) == len(y) and all(p.id == q.id and p.stats.starttime == q.stats.starttime and np.array_equal(p.data, q.data) for p, q in zip(x, y))
            obs.check(same, "real/depends", f"event {i}: {f} differs", **info)
        obs.count("real_compared", len(a))
        located = any(f.endswith(".event") for f in a)
        if i < nev and faults[i] == "network":
            obs.check(not located, "real/located_without_data", f"event {i}", **info)
        if i < nev and not any(f == "network" and abs(w.events[j]["otime"] - trig[i]) < 40 for j, f in enumerate(faults)):
            obs.check(located, "real/not_located", f"event {i} ({faults[i]}) {trig[i]} was not located; files {list(a)[:3]}", **info)
            obs.count("real_located", located)
    obs.key("real", tuple(faults), cut)


def main(chk):
    chk.run(tagged, [dict(id=f"t{i}", null=i % 3 == 0) for i in range(chk.pick(150, 2500))])
    chk.run(real, [dict(id=f"r{i}") for i in range(chk.pick(24, 300))])
    chk.require(own_identifiers=50, old_tables=20, located=200, not_located=150, compared=200, real_compared=150, real_located=25)
    chk.rule = "generated sets of triggers with missing data, unavailable stations and off-window peaks; a key is a distinct (fault pattern, sub-run, period)"
