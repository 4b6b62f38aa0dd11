"""C14: triggered events reach their files and are read back exactly once."""
from fractions import Fraction
import numpy as np
import pandas as pd
from obspy import UTCDateTime
from qv import harness, synth, trigref
from checks.c12 import lut_for

COLS = ["EventID", "CoaTime", "TRIG_COA", "COA_X", "COA_Y", "COA_Z", "COA", "COA_NORM"]


def uid(t):
    return t.strftime("%Y%m%d%H%M%S") + f"{t.microsecond // 1000:03d}"


def build(rng, sr, d, days, long):
    """A stored scan around (or across) `days` midnights with isolated events, many at the day boundaries."""
    day0 = UTCDateTime(str(rng.choice(["2020-12-31", "2021-02-28", "2020-02-28", "2021-06-10", "2019-12-30"])))
    dt = Fraction(1) / Fraction(str(sr))
    margin = 200.0
    start = day0 + (0 if long and rng.random() < 0.3 else 86400 - 420)
    n = int(Fraction(str(86400 * (days - 1) + 840)) / dt) + int(rng.integers(0, 50))
    if start == day0:
        n = int(86400 * days / dt)
    x = 1.0 + 0.02 * rng.random(n)
    mids = [day0 + 86400 * (k + 1) for k in range(days)]
    scan = trigref.Scan(start, sr, x, x, np.zeros(n), np.zeros(n), np.zeros(n), 1000.0)
    spans = [(0, n)]
    peaks = []
    for m in mids:
        i = int(round(float(scan.index(m))))
        for off in rng.permutation([0, -1, 1, -2, -int(5 * sr), int(5 * sr), -int(10.5 * sr), int(11 * sr)])[:int(rng.integers(2, 6))]:
            peaks.append(i + int(off))
        if not long and days > 1 and rng.random() < 0.7:
            pass
    peaks += list(rng.integers(0, n, int(rng.integers(0, 12))))
    if not long and days > 1:      # only the surroundings of each midnight are stored
        spans = []
        for m in mids:
            i = int(round(float(scan.index(m))))
            a, b = max(0, i - int(rng.uniform(150, 400) * sr)), min(n, i + int(rng.uniform(150, 400) * sr))
            if b > a:
                spans.append((a, b))
    x = scan.val["COA"].copy()
    for p in sorted(set(int(q) for q in peaks)):
        if 0 <= p < n:
            w = int(rng.choice([1, 1, 2, int(0.5 * sr) + 1, int(2 * sr) + 1]))
            a = max(0, p - int(rng.integers(0, w + 1)))
            b = min(n, p + 1 + int(rng.integers(0, w + 1)))
            x[a:b] = np.maximum(x[a:b], 1.6 + 0.3 * rng.random(b - a))
            x[p] = 2.0 + 1.5 * rng.random()
    y = 1.0 + (x - 1.0) * 0.8
    lon = np.round(-17 + 0.5 * rng.uniform(-1, 1, n), 3)
    lat = np.round(64.5 + 0.3 * rng.uniform(-1, 1, n), 3)
    z = np.round(rng.uniform(-1, 10, n), 2)
    scan = trigref.Scan(start, sr, x, y, lon, lat, z, 1000.0)
    scan.write(d, spans)
    stored = np.zeros(n, bool)
    for a, b in spans:
        stored[a:b] = True
    return scan, stored, mids


def expected(scan, stored, dt, mw, interval, thr, norm, s, e, region):
    trig = np.where(stored, scan.val["COA_N" if norm else "COA"], 0.0)
    coa = np.where(stored, scan.val["COA"], 0.0)
    ev = trigref.events(trigref.candidates(coa, trig, np.full(len(trig), thr), dt, mw, interval), dt, mw)
    out = []
    for q in ev:
        i = q["peak"]
        t = scan.time(i)
        if t < s or t > e or (e.hour == e.minute == e.second == e.microsecond == 0 and t >= e):
            continue
        X, Y, Z = (scan.val[c][i] for c in "XYZ")
        if region is not None and not (region[0] <= X <= region[3] and region[1] <= Y <= region[4] and region[2] <= Z <= region[5]):
            continue
        out.append(dict(t=t, i=i, lo=q["lo"], hi=q["hi"], EventID=uid(t), TRIG_COA=trig[i], COA_X=X, COA_Y=Y, COA_Z=Z,
                        COA=coa[i], COA_NORM=scan.val["COA_N"][i], last=q["last"], first=q["first"]))
    return out


def history(case, rng, obs):
    from quakemigrate.io.triggered_events import read_triggered_events
    d = harness.case_dir()
    sr, days = case["sr"], case["days"]
    lut = lut_for("km")
    scan, stored, mids = build(rng, sr, d / "run", days, case["long"])
    dt = Fraction(1) / Fraction(str(sr))
    exact_ns = (10 ** 6 * dt).denominator == 1
    disk = {}          # (sub, file day) -> (rows, columns)
    runs = {}
    i_st = np.flatnonzero(stored)
    for k in range(case["runs"]):
        given = str(rng.choice(["", "", "t2", "v1.2"])) if k else ""
        sub = given.replace(".", "_")       # as the documentation says
        mw = float(rng.choice([0.3, 0.5, 1.0])) + (0 if exact_ns else 0.00037)
        interval = round(2 * mw + float(rng.choice([0.2, 1.0])), 6) + (0 if exact_ns else 0.0007)
        norm = bool(rng.random() < 0.3)
        thr = float(rng.choice([1.4, 1.5, 2.2, 9.0 if k else 1.4]))
        # period
        lo, hi = scan.time(i_st[0]), scan.time(i_st[-1])
        mode = int(rng.integers(0, 5))
        if mode == 0 or k == 0:
            s, e = lo, hi
        elif mode == 1:
            s, e = UTCDateTime(lo.date), UTCDateTime(hi.date) + 86400
        elif mode == 2:
            m = mids[int(rng.integers(0, len(mids)))]
            s, e = m - float(rng.uniform(20, 100)), m
        elif mode == 3:
            m = mids[int(rng.integers(0, len(mids)))]
            s, e = m, m + float(rng.uniform(20, 100))
        else:
            m = mids[int(rng.integers(0, len(mids)))]
            s, e = m - float(rng.uniform(10, 100)), m + float(rng.uniform(10, 100))
        # every batch must find some stored data; otherwise the package (documentedly) refuses
        day, ok = UTCDateTime(s.date), True
        while day < e:
            a, b = max(s, day) - 120, min(e, day + 86400) + 120
            ia, ib = int(scan.index(a)), int(scan.index(b))
            ok &= bool(stored[max(0, ia):max(0, ib)].any())
            day += 86400
        if not ok:
            continue
        region = None
        ev_all = expected(scan, stored, dt, mw, interval, thr, norm, s, e, None)
        if rng.random() < 0.5 and ev_all:
            c = ev_all[int(rng.integers(0, len(ev_all)))]
            w = rng.uniform(0.05, 0.5, 3) * [1, 1, 20]
            region = [c["COA_X"] - w[0], c["COA_Y"] - w[1], c["COA_Z"] - w[2], c["COA_X"] + w[0], c["COA_Y"] + w[1], c["COA_Z"] + w[2]]
            q = int(rng.integers(0, 6))       # the event sits exactly on one face
            region[q] = [c["COA_X"], c["COA_Y"], c["COA_Z"]][q % 3]
        win = bool(rng.random() < 0.4)
        tr = synth.make_trigger(lut, d, trigger_name=given, marginal_window=mw, min_event_interval=interval, normalise_coalescence=norm,
                                threshold_method="static", static_threshold=thr, write_event_time_windows=win, pad=120.0,
                                plot_trigger_summary=case.get("plot", False))
        with synth.quiet():
            tr.trigger(s if rng.random() < 0.5 else str(s), e if rng.random() < 0.5 else str(e), region=region)
        s, e = UTCDateTime(str(s)), UTCDateTime(str(e))
        runs[sub] = tr.run
        want = expected(scan, stored, dt, mw, interval, thr, norm, s, e, region)
        if not exact_ns:      # instants are known to a nanosecond only
            amb = [ev for ev in expected(scan, stored, dt, mw, interval, thr, norm, s - 1e-5, e + 1e-5, region)
                   if abs(ev["t"] - s) < 2e-6 or abs(ev["t"] - e) < 2e-6]
        else:
            amb = []
        cols = COLS + (["MinTime", "MaxTime"] if win else [])
        day = UTCDateTime(s.date)
        while day < e:
            disk[(sub, day.ns)] = ([ev for ev in want if day <= ev["t"] < day + 86400], cols)
            day += 86400
        info = dict(sr=sr, sub=sub, start=str(s), end=str(e), region=region, thr=thr, mw=mw, interval=interval, run=k, windows=win)
        # --- files on disk
        for sb in runs:
            files = {trigref.day_of(f).ns: df for f, df in trigref.read_files(d / "run", sb).items()}
            for (s2, day), (rows, cl) in disk.items():
                if s2 != sb:
                    continue
                df = files.pop(day, None)
                day = UTCDateTime(ns=day)
                if df is None:
                    # a day without any candidates may have no file, but then none of an earlier run either
                    obs.check(not rows, "lost", f"{len(rows)} events of {day.date} not written", **info)
                    continue
                obs.check(list(df.columns) == cl, "columns", f"{list(df.columns)}; requested {cl}", **info)
                ids = list(df["EventID"])
                wid = [r["EventID"] for r in rows]
                skip = {a["EventID"] for a in amb}
                if not obs.check([i for i in ids if i not in skip] == [i for i in wid if i not in skip], "events_in_file", lambda:
                                 f"file of {day.date}: {ids[:8]} (of {len(ids)}), expected {wid[:8]} (of {len(wid)}); missing "
                                 f"{sorted(set(wid) - set(ids))[:4]}, extra {sorted(set(ids) - set(wid))[:4]}", **info):
                    continue
                byid = {r["EventID"]: r for r in rows}
                for _, row in df.iterrows():
                    if row["EventID"] in skip:
                        continue
                    r = byid[row["EventID"]]
                    obs.check(abs(UTCDateTime(row["CoaTime"]) - r["t"]) < 2e-6, "time", f"{row['CoaTime']} {r['t']}", **info)
                    for c in COLS[2:]:
                        obs.check(abs(float(row[c]) - r[c]) <= 1e-12 * abs(r[c]), "value", f"{c} {row[c]} stored, {r[c]} triggered", **info)
                    if "MinTime" in cl and "MinTime" in row:
                        for c, q in (("MinTime", "lo"), ("MaxTime", "hi")):
                            obs.check(abs(UTCDateTime(row[c]).ns - (scan.t0.ns + int(r[q] * dt * 10 ** 9))) < 3000, "window", f"{c} {row[c]}", **info)
                    obs.count("events_in_files")
                if not rows:
                    obs.count("empty_days")
                obs.check(len(set(ids)) == len(ids), "unique", "duplicate event identifiers", **info)
            obs.check(not files, "stray_file", f"{[str(UTCDateTime(ns=x).date) for x in files]}", **info)
        obs.count("runs")
        near = sum(min(abs(ev["t"] - m) for m in mids) < 1.5 / sr for ev in want)
        obs.count("events_at_midnight", near)
        obs.count("region_dropped", len(ev_all) - len(want) if region else 0)
        obs.key(sr, days, mode, sub, win, region is not None, len(want), len(disk))
        obs.sample = dict(info, events=len(want))
    # --- reading back: the stored files are the truth now
    for sb, run in runs.items():
        files = {trigref.day_of(f).ns: df for f, df in trigref.read_files(d / "run", sb).items()}
        rows = [dict(row, t=UTCDateTime(row["CoaTime"])) for day in sorted(files) for _, row in files[day].iterrows()]
        have = sorted(UTCDateTime(ns=day) for day in files)
        if not have:
            continue
        for _ in range(6):
            q = int(rng.integers(0, 4))
            a = have[0] + float(rng.uniform(0, 86400 * len(have)))
            b = a + float(rng.uniform(0, 86400))
            if q == 1 and rows:      # limits exactly on an event
                a, b = (rows[int(rng.integers(0, len(rows)))]["t"] for _ in "ab")
                a, b = min(a, b), max(a, b)
            elif q == 2:
                a, b = have[0], have[int(rng.integers(0, len(have)))] + 86400
            elif q == 3:
                a, b = have[0], have[-1] + 86400 * 3
            if not any(UTCDateTime(a.date) <= x <= b for x in have):
                continue
            mid = b.hour == b.minute == b.second == b.microsecond == 0
            want = [r for r in rows if a <= r["t"] and (r["t"] < b if mid else r["t"] <= b)]
            info = dict(start=str(a), end=str(b), sub=sb, sr=sr)
            with synth.quiet():
                df = read_triggered_events(run, starttime=a, endtime=b)
            got = [str(x) for x in df["EventID"]]
            if obs.check(got == [r["EventID"] for r in want], "read_back", lambda: f"{got[:6]} (of {len(got)}) read, {[r['EventID'] for r in want][:6]} (of {len(want)}) stored", **info):
                for (_, row), r in zip(df.iterrows(), want):
                    obs.check(isinstance(row["CoaTime"], UTCDateTime) and row["CoaTime"] == r["t"], "read_time", f"{row['CoaTime']}", **info)
                    for c in COLS[2:]:
                        obs.check(float(row[c]) == float(r[c]), "read_value", f"{c}", **info)
            obs.count("reads")
            obs.count("events_read", len(got))
        # a single file given explicitly
        for f, df0 in trigref.read_files(d / "run", sb).items():
            with synth.quiet():
                df = read_triggered_events(run, trigger_file=str(d / "run" / "trigger" / sb / "events" / f))
            obs.check([str(x) for x in df["EventID"]] == list(df0["EventID"]), "read_file", f, sr=sr)
            obs.count("files_read")


def reader(case, rng, obs):
    """Files as a trigger stage may leave them, with events however close together: every period gives its own."""
    from quakemigrate.io.core import Run
    from quakemigrate.io.triggered_events import read_triggered_events
    d = harness.case_dir()
    sub = str(rng.choice(["", "sub"]))
    day0 = UTCDateTime(str(rng.choice(["2020-12-30", "2020-02-27", "2021-06-01"])))
    days = int(rng.integers(1, 4))
    t = [0]
    while len(t) < int(rng.integers(5, 60)):     # microseconds since the first midnight: bursts, lone events and ones at midnight
        step = int(rng.choice([rng.integers(1000, 10 ** 6), rng.integers(10 ** 6, 10 ** 8), rng.integers(10 ** 9, 86400 * 10 ** 6)]))
        t.append(t[-1] + step if rng.random() < 0.9 else (t[-1] // (86400 * 10 ** 6) + 1) * 86400 * 10 ** 6)
        if t[-1] >= days * 86400 * 10 ** 6:
            t.pop()
            break
    if rng.random() < 0.5:
        t = t[1:] or t
    full = f"run_{sub}" if sub else "run"
    rows, files = [], {}
    for x in t:
        when = day0 + x // 10 ** 6 + (x % 10 ** 6) / 1e6
        r = dict(zip(COLS, [uid(when), str(when), *[float(v) for v in np.round(rng.lognormal(0, 1, 6), 5)]]))
        rows.append(dict(r, t=when))
        files.setdefault(x // (86400 * 10 ** 6), []).append(r)
    p = d / "run" / "trigger" / sub / "events"
    p.mkdir(parents=True)
    for k, rr in files.items():
        day = day0 + 86400 * k
        pd.DataFrame(rr).to_csv(p / f"{full}_{day.year}_{day.julday:03d}_TriggeredEvents.csv", index=False)
    run = Run(d, "run", sub, stage="locate")
    for _ in range(8):
        lim = []
        for _ in "ab":
            x = rows[int(rng.integers(0, len(rows)))]["t"]
            q = int(rng.integers(0, 4))
            lim.append(x if q == 0 else x + int(rng.choice([-1, 1])) * float(rng.choice([1e-6, 1e-3, 0.01, 0.5])) if q == 1 else UTCDateTime(x.date) + 86400 * int(rng.integers(0, 2)) if q == 2
                       else x + float(rng.uniform(-3600, 3600)))
        a, b = min(lim), max(lim)
        if a == b or not any(UTCDateTime(a.date) <= UTCDateTime(r["t"].date) <= b for r in rows):
            continue
        mid = b.hour == b.minute == b.second == b.microsecond == 0
        want = [r for r in rows if a <= r["t"] and (r["t"] < b if mid else r["t"] <= b)]
        with synth.quiet():
            df = read_triggered_events(run, starttime=a, endtime=b)
        got = [(str(i), UTCDateTime(x)) for i, x in zip(df["EventID"], df["CoaTime"])]
        obs.check(got == [(r["EventID"], r["t"]) for r in want], "read_back", lambda: f"{len(got)} read, {len(want)} stored between {a} and {b}: {sorted(set(got) ^ set((r['EventID'], r['t']) for r in want))[:4]}", start=str(a), end=str(b))
        obs.count("close_reads")
        obs.count("close_events", len(want))
        obs.key("reader", len(want), mid, sub)


def nothing(case, rng, obs):
    """No scan, no files: reported, not an empty answer."""
    import quakemigrate.util as util
    from quakemigrate.io.triggered_events import read_triggered_events
    d = harness.case_dir()
    tr = synth.make_trigger(lut_for("km"), d)
    try:
        with synth.quiet():
            tr.trigger("2021-01-01", "2021-01-02")
        obs.violate("no_scan", "triggering without any stored scan was silently accepted")
    except util.NoScanMseedDataException:
        obs.count("refused")
    try:
        with synth.quiet():
            read_triggered_events(tr.run, starttime=UTCDateTime("2021-01-01"), endtime=UTCDateTime("2021-01-02"))
        obs.violate("no_files", "reading from a run without any triggered-event file was silently accepted")
    except util.NoTriggerFilesFound:
        obs.count("refused")


def main(chk):
    rates = [50, 20, 30, 100, 25, 60, 10, 75, 64, 128, 40]
    cases = [dict(id=f"h{i}", sr=rates[i % len(rates)], days=1, long=False, runs=4) for i in range(chk.pick(90, 1500))]
    cases += [dict(id=f"d{i}", sr=[1, 2, 0.5, 4][i % 4], days=2 + i % 2, long=True, runs=3) for i in range(chk.pick(14, 150))]
    cases += [dict(id=f"g{i}", sr=[1, 2, 0.5][i % 3], days=2 + i % 2, long=False, runs=3) for i in range(chk.pick(14, 150))]
    cases += [dict(id=f"plot{i}", sr=[20, 50][i % 2], days=1, long=False, runs=3, plot=True) for i in range(chk.pick(4, 24))]
    chk.run(history, cases)
    chk.run(reader, [dict(id=f"rd{i}") for i in range(chk.pick(200, 3000))])
    chk.run(nothing, [dict(id="n")])
    chk.require(events_in_files=1500, events_at_midnight=100, region_dropped=100, empty_days=20, reads=300, events_read=300, files_read=100, refused=2, close_reads=800, close_events=3000)
    chk.rule = ("histories of trigger runs (periods, regions, thresholds, sub-runs, optional columns) over scans across midnights, then reads; "
                "a key is a distinct (rate, days, period kind, sub-run, columns, region, events, files)")
