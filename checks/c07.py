"""C07: archive reads return exactly the recorded samples of the requested window."""
import numpy as np
import pandas as pd
from obspy import Stream, Trace, UTCDateTime
from qv import harness, synth

RATES = [20.0, 25.0, 40.0, 50.0, 100.0]


def build(rng, d, fmt):
    """An archive around midnight and its sample-exact content."""
    day0 = UTCDateTime(2020, int(rng.integers(1, 13)), int(rng.integers(1, 28)))
    if rng.random() < 0.15:
        day0 = UTCDateTime(2019, 12, 31)
    elif rng.random() < 0.1:
        day0 = UTCDateTime(2020, 2, 28)
    names = ["ST1", "ST10", "AST1", "QQ"][: int(rng.integers(2, 5))]
    around = float(rng.choice([86400, 86400, 43200]))
    half = 150.0
    truth, conflict = {}, {}
    frags = []
    for s in names:
        sr = float(rng.choice(RATES))
        base = day0 + around - half
        n = int(2 * half * sr)
        for ch in [["HHZ", "HHN", "HHE"], ["HHZ"], ["EHZ", "HHZ"], ["HHZ", "HH1", "HH2"]][int(rng.integers(4))]:
            vals = rng.integers(-2 ** 26, 2 ** 26, n).astype(np.int32) if rng.random() < 0.2 else np.cumsum(
                rng.integers(-50, 51, n)).astype(np.int32)
            have = np.ones(n, dtype=bool)
            for _ in range(int(rng.integers(0, 3))):
                a = int(rng.integers(0, n))
                have[a:a + int(rng.choice([1, 2, int(sr), int(20 * sr), int(100 * sr)]))] = False
            key = (s, ch, "XX" if rng.random() < 0.8 else "YY")
            truth[key] = dict(sr=sr, base=base, vals=vals, have=have)
            conflict[key] = np.zeros(n, dtype=bool)
            # fragments: contiguous stretches, randomly cut, some repeated or overlapping
            edges = np.flatnonzero(np.diff(np.concatenate([[0], have.astype(int), [0]])))
            for a, b in zip(edges[::2], edges[1::2]):
                cuts = [a, *sorted(int(x) for x in rng.integers(a, b + 1, int(rng.integers(0, 5)))), b]
                for c, e in zip(cuts[:-1], cuts[1:]):
                    if e <= c:
                        continue
                    lo, hi = c, e
                    if rng.random() < 0.25:            # identical overlap with the neighbour
                        lo = max(a, c - int(rng.integers(1, 3 * sr)))
                    frags.append((key, lo, hi, vals[lo:hi]))
                    if rng.random() < 0.15:            # duplicated record
                        frags.append((key, lo, hi, vals[lo:hi]))
                    if rng.random() < 0.04 and hi - lo > 4:     # contradicting record
                        x = vals[lo:hi].copy()
                        x[len(x) // 2] ^= 5
                        frags.append((key, lo, hi, x))
                        conflict[key][lo + len(x) // 2] = True
    rng.shuffle(frags)
    byfile = {}
    root = d / "archive"
    for key, lo, hi, x in frags:
        t = truth[key]
        tr = Trace(np.array(x), header=dict(network=key[2], station=key[0], channel=key[1], sampling_rate=t["sr"],
                                            starttime=t["base"] + lo / t["sr"]))
        synth.write_archive(root, Stream([tr]), fmt)
    if rng.random() < 0.5:       # things that are not waveform data
        for p in list(root.rglob("*"))[:40]:
            if p.is_file() and rng.random() < 0.3:
                junk = p.with_name(p.name.replace(p.suffix, "") + "_notes.txt") if fmt.startswith("YEAR") else None
                if junk is not None and not junk.exists():
                    junk.write_bytes(b"not a waveform\n" * int(rng.integers(0, 4)))
    return names, truth, conflict, root, day0, around, half


def expected(t, conflict, lo_ns, hi_ns):
    """Index ranges that must be / may be returned for a window."""
    i = np.arange(len(t["vals"]))
    step = 1e9 / t["sr"]
    ns = t["base"].ns + np.round(i * step).astype(np.int64)
    must = t["have"] & (ns >= lo_ns - 1000) & (ns <= hi_ns + 1000)
    may = t["have"] & (ns >= lo_ns - 0.5001 * step) & (ns <= hi_ns + 0.5001 * step)
    near = conflict & (ns >= lo_ns - 0.5001 * step) & (ns <= hi_ns + 0.5001 * step)
    sure = conflict & (ns >= lo_ns) & (ns <= hi_ns)
    return must, may, near.any(), sure.any()


def judge_conflict(obs, trs, key, t, where, what, info):
    """Contradicting samples are either left out or left visible as an overlap; never chosen from."""
    seen = np.zeros(len(where), dtype=int)
    for tr in trs:
        k0 = int(round((tr.stats.starttime.ns - t["base"].ns) / 1e9 * t["sr"]))
        seen[max(0, k0):max(0, k0 + tr.stats.npts)] += 1
    obs.count("contradictions_judged", where.sum())
    obs.check((seen[where] != 1).all(), f"{what}/conflict", f"{key}: one of two contradicting samples was chosen", **info)


def judge(obs, stream, key, t, conflict, lo_ns, hi_ns, what, info, clash=False):
    must, may, maybe_conflict, conflict_in = expected(t, conflict, lo_ns, hi_ns)
    trs = [tr for tr in stream if (tr.stats.station, tr.stats.channel, tr.stats.network) == key]
    if maybe_conflict:
        obs.count("conflicting_windows")
        judge_conflict(obs, trs, key, t, conflict & must, what, info)
        return
    got = np.full(len(t["vals"]), -1, dtype=np.int64)
    val = np.zeros(len(t["vals"]), dtype=np.int64)
    seen = np.zeros(len(t["vals"]), dtype=int)
    for tr in trs:
        if tr.stats.sampling_rate != t["sr"]:
            obs.violate(f"{what}/rate", f"{key} {tr}", **info)
            return
        k = (tr.stats.starttime.ns - t["base"].ns) / 1e9 * t["sr"]
        k0 = int(round(k))
        if abs(k - k0) > 1e-3:
            obs.violate(f"{what}/timing", f"{key} sample time off by {(k - k0)} samples: {tr}", **info)
            return
        if k0 < 0 or k0 + tr.stats.npts > len(got):
            obs.violate(f"{what}/outside", f"{key} {tr} reaches outside the archive", **info)
            return
        obs.check(not isinstance(tr.data, np.ma.MaskedArray), f"{what}/masked", f"{key}")
        seen[k0:k0 + tr.stats.npts] += 1
        val[k0:k0 + tr.stats.npts] = tr.data
    have = seen > 0
    obs.count("samples_expected", must.sum())
    obs.count("samples_returned", have.sum())
    obs.check(not (must & ~have).any(), f"{what}/lost", lambda: f"{key}: {(must & ~have).sum()} archived samples of the window missing, first index {np.flatnonzero(must & ~have)[0]}", **info)
    obs.check(not (have & ~may).any(), f"{what}/invented", lambda: f"{key}: {(have & ~may).sum()} samples outside window or archive", **info)
    # a contradiction just outside the window leaves the pieces of that channel unmerged
    obs.check(clash or (seen <= 1).all(), f"{what}/duplicate", f"{key}: overlapping traces returned", **info)
    obs.check(np.array_equal(val[have & may], t["vals"][have & may]), f"{what}/value", f"{key}: values differ from the archive", **info)


def read(case, rng, obs):
    import quakemigrate.util as util
    d = harness.case_dir()
    fmt = case["fmt"]
    names, truth, conflict, root, day0, around, half = build(rng, d, fmt)
    mid = day0 + around
    listed = [str(x) for x in rng.permutation(names)][: int(rng.integers(1, len(names) + 1))]
    if rng.random() < 0.3:
        listed.append("NOPE")
    allst = bool(rng.random() < 0.4)
    arch = synth.make_archive(root, pd.DataFrame({"Name": listed}), fmt, read_all_stations=allst)
    tot_before = sorted(str(p) for p in root.rglob("*"))
    for k in range(case["windows"]):
        g = float(rng.choice([20.0, 100.0]))
        kind = str(rng.choice(["any", "any", "across", "at_mid", "to_mid", "short", "before", "off"]))
        if kind == "across":
            a, b = mid - int(rng.integers(1, 40 * g)) / g, mid + int(rng.integers(0, 40 * g)) / g
        elif kind == "at_mid":
            a = mid
            b = mid + int(rng.integers(1, 60 * g)) / g
        elif kind == "to_mid":
            a = mid - int(rng.integers(1, 60 * g)) / g
            b = mid - (1 / g if rng.random() < 0.5 else 0)
        elif kind == "short":
            a = mid + int(rng.integers(-100, 100))
            b = a + 1 / g
        elif kind == "before":
            a = mid - half - 40
            b = a + 20 + int(rng.integers(0, 40))
        else:
            a = mid + int(rng.integers(-half * g, half * g)) / g
            b = a + int(rng.integers(1, 120 * g)) / g
            if kind == "off":
                a += float(rng.random() / g)
        pre, post = (0.0, 0.0) if rng.random() < 0.5 else (float(rng.integers(0, 60)), float(rng.integers(0, 60)))
        info = dict(fmt=fmt, window=(str(a), str(b)), pads=(pre, post), listed=listed, all=allst)
        obs.count("windows")
        anything = any(expected(truth[key], conflict[key], a.ns, b.ns)[0].any() for key in truth if key[0] in listed)
        clash = any(expected(truth[key], conflict[key], a.ns - pre * 1e9, b.ns + post * 1e9)[2] for key in truth)
        try:
            w = arch.read_waveform_data(a, b, pre_pad=pre, post_pad=post)
        except (util.ArchiveEmptyException, util.DataGapException) as e:
            obs.count("empty_windows")
            obs.check(not anything or clash, "read/lost_all", f"{type(e).__name__} although the archive has data", **info)
            continue
        for key, t in truth.items():
            if key[0] in listed:
                judge(obs, w.waveforms, key, t, conflict[key], a.ns, b.ns, "waveforms", info,
                      expected(t, conflict[key], int(a.ns - pre * 1e9), int(b.ns + post * 1e9))[2])
                judge(obs, w.raw_waveforms, key, t, conflict[key], int(a.ns - pre * 1e9), int(b.ns + post * 1e9), "raw", info)
            elif allst:
                judge(obs, w.raw_waveforms, key, t, conflict[key], int(a.ns - pre * 1e9), int(b.ns + post * 1e9), "raw_all", info)
                obs.count("unlisted_stations_read")
        others = sorted({tr.stats.station for tr in w.waveforms} - set(listed))
        obs.check(not others, "waveforms/other_station", f"unrequested stations returned: {others}", **info)
        if not allst:
            others = sorted({tr.stats.station for tr in w.raw_waveforms} - set(listed))
            obs.check(not others, "raw/other_station", f"unrequested stations returned: {others}", **info)
        obs.check(w.starttime == a and w.endtime == b, "read/window", f"{w.starttime} {w.endtime}", **info)
        obs.check(w.waveforms is not w.raw_waveforms and not (
            {id(tr.data) for tr in w.waveforms} & {id(tr.data) for tr in w.raw_waveforms}), "read/shared",
            "raw and working waveforms share their sample arrays", **info)
        obs.key(fmt, kind, pre > 0, allst, len(w.waveforms))
    obs.check(tot_before == sorted(str(p) for p in root.rglob("*")), "archive/changed", "files in the archive changed")
    obs.sample = dict(fmt=fmt, stations=names, listed=listed, channels=len(truth))


def days(case, rng, obs):
    """Windows longer than a day: every day file they touch is read."""
    d = harness.case_dir()
    fmt, sr = case["fmt"], float(rng.choice([0.5, 1.0]))
    day0 = UTCDateTime(2021, *((int(rng.choice([2, 12])), 28) if case["edge"] else (5, int(rng.integers(1, 26)))))
    base = day0 + float(rng.integers(0, 40000))
    n = int(rng.uniform(2.5, 4.5) * 86400 * sr)
    truth = {}
    for s in ["ST1", "QQ"][:int(rng.integers(1, 3))]:
        have = np.ones(n, dtype=bool)
        if rng.random() < 0.5:
            a = int(rng.integers(0, n)); have[a:a + int(rng.uniform(0.1, 1.3) * 86400 * sr)] = False
        vals = np.cumsum(rng.integers(-50, 51, n)).astype(np.int32)
        truth[(s, "HHZ", "XX")] = dict(sr=sr, base=base, vals=vals, have=have)
        edges = np.flatnonzero(np.diff(np.concatenate([[0], have.astype(int), [0]])))
        for a, b in zip(edges[::2], edges[1::2]):
            synth.write_archive(d / "archive", Stream([Trace(vals[a:b].copy(), header=dict(
                network="XX", station=s, channel="HHZ", sampling_rate=sr, starttime=base + a / sr))]), fmt)
    names = sorted({k[0] for k in truth})
    none = np.zeros(n, dtype=bool)
    for _ in range(case["windows"]):
        arch = synth.make_archive(d / "archive", pd.DataFrame({"Name": names}), fmt, read_all_stations=bool(rng.random() < 0.3))
        a = base + int(rng.uniform(-0.3, 1.5) * 86400 * sr) / sr
        b = a + int(rng.uniform(0.9, 2.9) * 86400 * sr) / sr
        if rng.random() < 0.2:
            b = UTCDateTime(b.date)
        pre, post = (0.0, 0.0) if rng.random() < 0.5 else (float(rng.integers(0, 7200)), float(rng.integers(0, 7200)))
        info = dict(fmt=fmt, window=(str(a), str(b)), pads=(pre, post), sr=sr)
        w = arch.read_waveform_data(a, b, pre_pad=pre, post_pad=post)
        for key, t in truth.items():
            judge(obs, w.waveforms, key, t, none, a.ns, b.ns, "waveforms", info)
            judge(obs, w.raw_waveforms, key, t, none, int(a.ns - pre * 1e9), int(b.ns + post * 1e9), "raw", info)
        obs.count("windows_over_days")
        obs.key("days", fmt, int((b - a) // 86400), pre > 0)


def empty(case, rng, obs):
    import quakemigrate.util as util
    from quakemigrate.io import Archive
    d = harness.case_dir()
    (d / "a").mkdir()
    for fmt in synth.ARCHIVE_FORMATS:
        arch = Archive(archive_path=str(d / "a"), stations=pd.DataFrame({"Name": ["A"]}), archive_format=fmt)
        try:
            arch.read_waveform_data(UTCDateTime(2020, 1, 1), UTCDateTime(2020, 1, 1, 1))
            obs.violate("empty/accepted", fmt)
        except util.ArchiveEmptyException:
            obs.count("refusals")
    try:
        Archive(archive_path=str(d / "a"), stations=pd.DataFrame({"Name": ["A"]}), archive_format="NONSENSE")
        obs.violate("format/accepted", "unknown archive format accepted")
    except util.ArchivePathStructureError:
        obs.count("refusals")
    try:
        arch = Archive(archive_path=str(d / "a"), stations=pd.DataFrame({"Name": ["AA"]}))
        arch.read_waveform_data(UTCDateTime(2020, 1, 1), UTCDateTime(2020, 1, 1, 1))
        obs.violate("format/unset", "read without a format")
    except util.ArchiveFormatException:
        obs.count("refusals")
    # a user-defined path pattern
    st = synth.make_waveforms(rng, ["AA"], UTCDateTime(2020, 1, 2, 5), 20, 50)
    p = d / "a" / "custom" / "AA-2020-01-02.mseed"
    p.parent.mkdir()
    st.write(str(p), format="MSEED")
    arch.format = "custom/{station}-{year}-{month:02d}-{day:02d}.mseed"
    w = arch.read_waveform_data(UTCDateTime(2020, 1, 2, 5), UTCDateTime(2020, 1, 2, 5, 0, 10))
    obs.check(len(w.waveforms) == 3 and all(tr.stats.npts == 501 for tr in w.waveforms), "format/custom", str(w.waveforms))
    obs.count("refusals")


def main(chk):
    n = chk.pick(112, 1750)
    chk.run(read, [dict(id=f"a{i}", fmt=synth.ARCHIVE_FORMATS[i % 7], windows=10) for i in range(n)])
    chk.run(days, [dict(id=f"d{i}", fmt=synth.ARCHIVE_FORMATS[i % 7], windows=6, edge=i % 3 == 0) for i in range(chk.pick(14, 140))])
    chk.run(empty, [dict(id="e")])
    chk.require(windows=800, samples_expected=500000, samples_returned=500000, empty_windows=20,
                unlisted_stations_read=100, contradictions_judged=20, refusals=9, windows_over_days=60)
    chk.rule = ("archives of 2-4 stations around midnight/noon in all seven layouts, fragmented, with gaps, duplicates, "
                "overlaps and contradictions; a key is a distinct (layout, window kind, pads, all-stations, traces returned)")
