"""C08: every onset function is stacked with the traveltimes of its own station and phase."""
import inspect
import numpy as np
import pandas as pd
from obspy import UTCDateTime
from qv import harness, pipe, refs, repo, synth


def hook_migrate(log):
    """Record the arguments of every migration call made by the scan."""
    import quakemigrate.core.lib as lib
    orig = lib.migrate
    sig = inspect.signature(orig)

    def wrapped(*a, **k):
        b = sig.bind(*a, **k).arguments
        log.append({n: (np.array(v) if isinstance(v, np.ndarray) else v) for n, v in b.items()})
        return orig(*a, **k)
    repo.patch_everywhere(orig, wrapped)
    return lambda: repo.patch_everywhere(wrapped, orig)


def build(case, rng):
    """A network whose table, archive list and data are in unrelated orders."""
    d = harness.case_dir()
    n = int(rng.integers(3, 8))
    style = case.get("names", "plain")
    names = {"plain": synth.station_names(n), "numeric": synth.station_names(n, "numeric"),
             "prefix": [f"A{'B' * i}" for i in range(n)], "mixed": [f"s{i}x" + "0" * (i % 2) for i in range(n)]}[style]
    phases = case["phases"]
    nodes = tuple(int(v) for v in rng.integers(5, 8, 3))
    spec = synth.grid_spec(nodes, rng.choice([0.6, 1.0, 2.3], 3))
    st = synth.stations_df(rng, spec, n, names=names)
    st = st.iloc[rng.permutation(n)].reset_index(drop=True)
    lutph = [["P", "S"], ["S", "P"]][int(rng.integers(2))] if case.get("lut_all", True) else phases
    lut = synth.make_lut(spec, st.copy(), phases=lutph)
    if case.get("rename"):
        # traveltimes that share nothing between stations: any mispairing is visible
        for s in names:
            for p in lutph:
                lut.traveltimes[s][p] = rng.uniform(0.05, 3.0, nodes)
    tt = {s: {p: np.array(lut.traveltimes[s][p], dtype=float) for p in lutph} for s in names}
    if not case.get("rename"):
        ref = synth.ref_traveltimes(lut, stations=st)
        for s in names:
            for p in lutph:
                assert np.allclose(ref[s][p], tt[s][p], rtol=1e-5), "harness: table is not the straight-ray table"
    sub = list(rng.permutation(names))
    if case.get("subset"):
        sub = sub[:max(2, n - int(rng.integers(1, 3)))]
    return d, names, sub, phases, lut, tt


def expected(onsets, tt, sr, pre, post, keys):
    stack = np.stack([onsets[k] for k in keys])
    t = np.stack([np.rint(tt[s][p] * sr).astype(int) for s, p in keys], axis=-1)
    f, l = int(round(pre * sr)), int(round(post * sr))
    return refs.ref_migrate(stack, t, f, l, len(keys))


def make_data(d, rng, names, t0, duration, sr):
    st = synth.make_waveforms(rng, list(names), t0, duration, sr)
    synth.write_archive(d / "arch", st)
    return st


def tag_detect(case, rng, obs):
    d, names, sub, phases, lut, tt = build(case, rng)
    sr = int(case["sr"])
    t0 = UTCDateTime(2022, 6, 1, 3)
    dur, step = 240.0, 10.0
    make_data(d, rng, sub[:2], t0, dur, sr)

    def avail(start, keys):
        r = np.random.default_rng(abs(hash((start.ns, case["id"]))) % 2 ** 32)
        mode = r.integers(4)
        if mode == 0:
            av = {k: 1 for k in keys}
        elif mode == 1:
            av = {k: int(r.random() < 0.6) for k in keys}
        elif mode == 2:
            only = str(r.choice(phases))
            av = {k: int(k[1] == only) for k in keys}
        else:
            av = {k: 0 for k in keys}
            av[keys[int(r.integers(len(keys)))]] = 1
        if not sum(av.values()):
            av[keys[0]] = 1
        if r.random() < 0.5:
            order = [list(av)[i] for i in r.permutation(len(av))]
            av = {k: av[k] for k in order}
        return av
    onset = pipe.TagOnset(rng, sub, t0, int(dur * sr) + 10, sr, phases, pre=float(rng.choice([0.5, 1.0, 2.3])), availability_fn=avail)
    arch = synth.make_archive(d / "arch", pd.DataFrame({"Name": sub}))
    log = []
    undo = hook_migrate(log)
    scan = synth.make_scan(arch, lut, onset, d, timestep=step, threads=int(rng.integers(1, 5)))
    s, n = t0 + 60, int(rng.integers(3, 6))
    with synth.quiet():
        scan.detect(s, s + n * step)
    undo()
    got, dup = pipe.joined(d / "run", sr)
    avf = pipe.read_availability_files(d / "run")
    obs.check(len(onset.calls) == n, "calls", f"{len(onset.calls)} windows computed, {n} expected")
    for i, c in enumerate(onset.calls):
        keys = [k for k, v in c["av"].items() if v]
        pre = (s + i * step) - c["start"]
        f = int(round(pre * sr))
        ns = int(round(step * sr))
        post = (c["n"] - f - ns) / sr
        want = expected({k: onset.window(k, c["start"], c["n"]) for k in keys}, tt, sr, pre, post, keys)
        mx, mxn, arg = refs.ref_peak(want)
        i0 = int(round((s + i * step).ns / 1e9 * sr))
        for ch, w in (("COA", mx), ("COA_N", mxn)):
            g = np.array([got[ch].get(i0 + j, np.nan) for j in range(ns)])
            obs.close(f"detect/{ch}", g, np.round(np.minimum(w, 21474.0) * 1e5) / 1e5, rtol=2e-6, atol=1.1e-5,
                      msg=f"step {i} used {keys}")
        obs.count("windows")
        obs.count("windows_incomplete", len(keys) < len(c["av"]))
        obs.count("onsets_paired", len(keys))
        # the availability report names the onset functions that were used
        if i < len(avf):
            row = avf.iloc[i]
            obs.check({k: str(v) for k, v in row.items()} == {f"{a}_{b}": str(v) for (a, b), v in c["av"].items()},
                      "availability_row", lambda: f"{dict(row)} vs {c['av']}")
        # what the kernel was given
        if i < len(log) and len(onset.calls) == len(log):
            L = log[i]
            if "onsets" in L and "traveltimes" in L and L["onsets"].shape[0] == L["traveltimes"].shape[-1]:
                for r in range(L["onsets"].shape[0]):
                    own = [k for k in keys if np.array_equal(onset.window(k, c["start"], c["n"]), L["onsets"][r])]
                    if len(own) == 1:
                        k = own[0]
                        t = np.rint(tt[k[0]][k[1]] * sr)
                        obs.check(np.array_equal(L["traveltimes"][..., r], t), "pairing",
                                  f"onset of {k} stacked with other traveltimes")
                        obs.count("rows_matched")
                if "available" in L:
                    obs.check(int(L["available"]) == len(keys), "divisor", f"{L['available']} used, {len(keys)} available")
        obs.key("detect", len(names), len(sub), tuple(phases), tuple(sorted(c["av"].values())), list(c["av"]) == sorted(c["av"]))
    obs.sample = dict(stations=sub, table=list(lut.station_data["Name"]), used=keys)


def tag_locate(case, rng, obs):
    d, names, sub, phases, lut, tt = build(case, rng)
    sr = int(case["sr"])
    t0 = UTCDateTime(2022, 6, 1, 3)
    dur = 300.0
    make_data(d, rng, sub[:2], t0, dur, sr)
    mw = float(rng.choice([0.5, 1.0, 2.0]))
    evs, amp = [], {}
    for k in range(3):
        i = int(rng.integers(60 * sr + k * 60 * sr, 100 * sr + k * 60 * sr))
        ijk = tuple(int(rng.integers(2, m - 2)) for m in lut.node_count)
        evs.append(i)
        for s in sub:
            for p in phases:
                j = i + int(np.rint(tt[s][p][ijk] * sr))
                amp.setdefault((s, p), {})
                for q, v in ((-1, 15), (0, 40), (1, 15)):
                    amp[(s, p)][j + q] = v
    drop = {k: set() for k in range(3)}

    def avail(start, keys):
        r = np.random.default_rng(abs(hash((start.ns, case["id"]))) % 2 ** 32)
        av = {k: 1 for k in keys}
        for k in keys:
            if r.random() < 0.3:
                av[k] = 0
        if sum(av.values()) < 2:
            av = {k: 1 for k in keys}
        if r.random() < 0.5:
            av = {k: av[k] for k in [keys[i] for i in r.permutation(len(keys))]}
        return av
    onset = pipe.TagOnset(rng, sub, t0, int(dur * sr) + 10, sr, phases, pre=1.0, availability_fn=avail)
    for k, pts in amp.items():
        for i, v in pts.items():
            onset.table[k][i] += v
    arch = synth.make_archive(d / "arch", pd.DataFrame({"Name": sub}))
    scan = synth.make_scan(arch, lut, onset, d, marginal_window=mw, picker=pipe.NullPicker(plot_picks=False),
                           write_coalescence=True, write_marginal_coalescence=True, threads=int(rng.integers(1, 5)))
    rows = [dict(EventID=str(1000 + i), CoaTime=str(t0 + e / sr), TRIG_COA=2.0, COA_X=0, COA_Y=0, COA_Z=0, COA=2.0, COA_NORM=1.5)
            for i, e in enumerate(evs)]
    f = pipe.write_triggers(d / "run", rows, t0)
    with synth.quiet():
        scan.locate(trigger_file=str(f))
    obs.check(len(onset.calls) == len(evs), "calls", f"{len(onset.calls)} windows for {len(evs)} events")
    for i, c in enumerate(onset.calls):
        keys = [k for k, v in c["av"].items() if v]
        m = d / "run/locate/coalescence_maps" / f"{1000 + i}.npy"
        if not obs.check(m.exists(), "map_missing", str(m)):
            continue
        got = np.load(m)
        ns = int(round(4 * mw * sr)) + 1
        pre = (t0 + evs[i] / sr - 2 * mw) - c["start"]
        post = (c["n"] - int(round(pre * sr)) - ns) / sr
        want = expected({k: onset.window(k, c["start"], c["n"]) for k in keys}, tt, sr, pre, post, keys)
        obs.close("locate/map", got, want, rtol=2e-6, atol=1e-9, msg=f"event {i} used {keys}")
        obs.count("maps")
        obs.count("maps_incomplete", len(keys) < len(c["av"]))
        obs.key("locate", len(sub), tuple(phases), tuple(sorted(c["av"].values())))


def real(case, rng, obs):
    """The package's own onset, stations and channels missing from the data."""
    d, names, sub, phases, lut, tt = build(case, rng)
    sr = int(case["sr"])
    t0 = UTCDateTime(2022, 6, 1, 3)
    dur = 180.0
    st = synth.make_waveforms(rng, list(rng.permutation(sub)), t0, dur, sr)
    keep = [tr for tr in st if rng.random() < 0.75]
    for tr in keep:
        if rng.random() < 0.15:
            tr.data[len(tr) // 2:] = tr.data[len(tr) // 2]
    if not any(tr.stats.channel.endswith("Z") for tr in keep) or len(keep) < 2:
        keep = list(st)
    synth.write_archive(d / "arch", keep)
    onset = pipe.RecordingOnset(position=str(rng.choice(["classic", "centred"])), sampling_rate=sr)
    onset.phases = list(phases)
    onset.bandpass_filters = {"P": [2, 0.4 * sr, 2], "S": [1.5, 0.35 * sr, 2]}
    onset.sta_lta_windows = {"P": [0.2, 1.0], "S": [0.3, 1.2]}
    onset.channel_maps = {"P": "*Z", "S": "*[N,E]"}
    onset.record = []
    onset.all_channels = bool(rng.random() < 0.5)
    arch = synth.make_archive(d / "arch", pd.DataFrame({"Name": sub}))
    step = 15.0
    scan = synth.make_scan(arch, lut, onset, d, timestep=step)
    s, n = t0 + 60, 4
    with synth.quiet():
        scan.detect(s, s + n * step)
    got, dup = pipe.joined(d / "run", sr)
    pre_pad = scan.pre_pad
    for c in onset.record:
        i = int(round((c["start"] + pre_pad - s) / step))
        named = {k: v for k, v in c["onsets"].items()}
        keys = sorted(named)
        used = sorted(tuple(k.rsplit("_", 1)) for k, v in c["av"].items() if v)
        obs.check(used == keys, "availability_vs_onsets", f"{used} vs {keys}")
        ns = int(round(step * sr))
        f = int(round(pre_pad * sr))
        m = len(next(iter(named.values())))
        want = expected(named, tt, sr, pre_pad, (m - f - ns) / sr, keys)
        mx, mxn, _ = refs.ref_peak(want)
        i0 = int(round((s + i * step).ns / 1e9 * sr))
        for ch, w in (("COA", mx), ("COA_N", mxn)):
            g = np.array([got[ch].get(i0 + j, np.nan) for j in range(ns)])
            obs.close(f"real/{ch}", g, np.round(w * 1e5) / 1e5, rtol=2e-6, atol=1.1e-5, msg=f"step {i} used {keys}")
        obs.count("real_windows")
        obs.count("real_windows_incomplete", len(keys) < len(c["av"]))
        obs.key("real", len(sub), tuple(phases), tuple(sorted(c["av"].values())), onset.all_channels)


def refusal(case, rng, obs):
    """A phase that the table does not hold is refused, not replaced."""
    import quakemigrate.util as util
    d, names, sub, phases, lut, tt = build(dict(case, phases=["P"], lut_all=False), rng)
    t0 = UTCDateTime(2022, 6, 1, 3)
    make_data(d, rng, names[:2], t0, 120.0, 20)
    onset = pipe.TagOnset(rng, names, t0, 3000, 20, ["P", "S"])
    arch = synth.make_archive(d / "arch", pd.DataFrame({"Name": names}))
    scan = synth.make_scan(arch, lut, onset, d, timestep=10)
    try:
        with synth.quiet():
            scan.detect(t0 + 40, t0 + 60)
        obs.violate("phase_not_refused", "a phase missing from the table was migrated")
    except util.LUTPhasesException:
        obs.count("phase_refusals")


def main(chk):
    phs = [["P", "S"], ["S", "P"], ["P"], ["S"]]
    nm = ["plain", "numeric", "prefix", "mixed"]
    cfg = lambda k, i: dict(id=f"{k}{i}", phases=phs[i % 4] if i % 3 else phs[i % 2], sr=[20, 25, 50][i % 3],
                            names=nm[(i // 2) % 4], subset=i % 2 == 1, rename=i % 3 != 0)
    chk.run(tag_detect, [cfg("t", i) for i in range(chk.pick(48, 600))])
    chk.run(tag_locate, [cfg("l", i) for i in range(chk.pick(32, 400))])
    chk.run(real, [cfg("r", i) for i in range(chk.pick(32, 400))])
    chk.run(refusal, [dict(id="ref", phases=["P"])])
    chk.require(windows=100, windows_incomplete=50, onsets_paired=400, maps=60, maps_incomplete=30, real_windows=60,
                real_windows_incomplete=15, phase_refusals=1)
    chk.rule = ("scans whose onset functions carry a station/phase signature, with availability chosen per window and "
                "station orders unrelated between archive, table and data; a key is a distinct availability pattern and configuration")
