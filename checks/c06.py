"""C06: availability is declared exactly by the configured rules."""
import itertools
import numpy as np
import pandas as pd
from obspy import Stream, Trace, UTCDateTime
from qv import harness, onsetref, synth
from checks.c05 import make_traces, FAULTS, CHANS


def rules(case, rng, obs):
    from quakemigrate.io.data import WaveformData
    for rep in range(case["reps"]):
        sr = float(rng.choice([20, 25, 40, 50, 64, 100, 125, 200]))
        t0 = UTCDateTime(2021, 3, 4, int(rng.integers(24))) + int(rng.integers(0, 5000)) / sr
        # window lengths with every fractional-second residue, complete data included
        n = int(rng.integers(60, 5000))
        end = t0 + (n - 1) / sr
        traces, log = make_traces(rng, ["ST1"], sr, t0, n, ["ok"] * 12 + FAULTS + ["rate2"])
        st = Stream([traces[i] for i in rng.permutation(len(traces))])
        if rng.random() < 0.1:
            st = Stream()
        before = [(t.id, t.stats.starttime.ns, t.data.copy()) for t in st]
        data = WaveformData(t0, end, stations=["ST1"])
        span = (end.ns - t0.ns) / 1e9
        for allc, gaps, full, chk, exact in itertools.product([False, True], repeat=5):
            nch = int(rng.integers(1, 4))
            kw = dict(all_channels=allc, n_channels=nch, allow_gaps=gaps, full_timespan=full, check_sampling_rate=chk,
                      sampling_rate=sr if chk else None, check_start_end_times=exact)
            want, per = onsetref.availability(list(st), all_channels=allc, n_channels=nch, allow_gaps=gaps,
                                              full_timespan=full, sr=sr, span=span, check_sr=chk,
                                              exact=(t0, end) if exact else None)
            got, gper = data.check_availability(st, **kw)
            obs.count("rule_evaluations")
            obs.count("available", want)
            obs.count("unavailable", not want)
            obs.check(dict(gper) == per, "channels", lambda: f"got {dict(gper)} expected {per}; faults {log}; rules {kw} sr={sr} n={n}")
            obs.check(got == want, "station", lambda: f"got {got} expected {want}; {per}; faults {log}; rules {kw} sr={sr} n={n}")
            obs.key(tuple(sorted({f for _, _, f in log})), allc, gaps, full, chk, exact, want)
        obs.check(len(before) == len(st) and all(a[0] == b.id and a[1] == b.stats.starttime.ns and np.array_equal(a[2], b.data)
                                                 for a, b in zip(before, st)), "input_modified", str(log))
    obs.sample = dict(faults=log, samples=n, sr=sr)


def defaults(case, rng, obs):
    """Defaults of the rules and the refusal of incomplete rule sets."""
    from quakemigrate.io.data import WaveformData
    from quakemigrate.signal.onsets import STALTAOnset
    t0 = UTCDateTime(2021, 1, 1)
    tr = Trace(rng.normal(size=501), header=dict(station="A", channel="HHZ", sampling_rate=50, starttime=t0))
    d = WaveformData(t0, t0 + 10)
    obs.check(d.check_availability(Stream([tr]))[0] == 1, "defaults/complete", "")
    half = tr.copy().trim(t0 + 2)
    obs.check(d.check_availability(Stream([half]))[0] == 0, "defaults/partial", "partial data available by default")
    for kw in (dict(all_channels=True), dict(check_sampling_rate=True)):
        try:
            d.check_availability(Stream([tr]), **kw)
            obs.violate("defaults/typeerror", f"{kw} without its companion argument was accepted")
        except TypeError:
            obs.count("refusals")
    o = STALTAOnset(sampling_rate=50)
    obs.check(o.all_channels is False and o.allow_gaps is False and o.full_timespan is True, "defaults/onset",
              f"{o.all_channels} {o.allow_gaps} {o.full_timespan}")
    obs.count("defaults")


def archive(case, rng, obs):
    """Availability of every window in detect runs over an archive with faults, per station and phase."""
    from quakemigrate.io import Archive
    import quakemigrate.util as util
    d = harness.case_dir()
    sr = int(rng.choice([25, 50, 100]))
    day = UTCDateTime(2021, 5, 6)
    n = 240 * sr
    names = ["AAA", "BBB", "CCC"]
    t0 = day + 3600
    st, truth = Stream(), {}
    for s, ch in itertools.product(names, ["HHZ", "HHN", "HHE"]):
        x = np.round(rng.normal(0, 1000, n)).astype(np.int32)
        f = str(rng.choice(["ok", "ok", "gap", "flat", "missing", "flatpart", "overlap_same", "overlap_diff", "rate", "coarse"]))
        a = int(rng.integers(n // 5, 4 * n // 5))
        b = a + int(rng.integers(2, n // 8))
        hdr = dict(network="XX", station=s, channel=ch, sampling_rate=sr, starttime=t0)
        bad = None
        if f == "coarse":            # few bits: the ends of many windows are alike, though there is a signal
            x[:] = 500 * (x > 1200)
        if f == "missing":
            bad = (-1, 10 ** 9)
        elif f == "flat":
            x[:] = 321
            bad = (-1, 10 ** 9)
            st += Trace(x, hdr)
        elif f == "flatpart":
            x[a:] = 77
            bad = (a, 10 ** 9)       # only windows entirely inside are flat
            st += Trace(x, hdr)
        elif f == "gap":
            st += Trace(x[:a], hdr)
            st += Trace(x[b:], {**hdr, "starttime": t0 + b / sr})
            bad = (a, b)
        elif f in ("overlap_same", "overlap_diff"):
            y = x.copy()
            if f == "overlap_diff":
                y[a:b] += 1
                bad = (a, b)
            st += Trace(x[:b], hdr)
            st += Trace(y[a:], {**hdr, "starttime": t0 + a / sr})
        elif f == "rate":
            st += Trace(x, {**hdr, "sampling_rate": sr * 0.8})
            bad = (-1, 10 ** 9)
        else:
            st += Trace(x, hdr)
        truth[(s, ch)] = (f, bad)
    root = d / "arch"
    for i, tr in enumerate(st):
        p = root / "2021" / "126"
        p.mkdir(parents=True, exist_ok=True)
        tr.write(str(p / f"{tr.stats.station}_{tr.stats.channel}_{i}.m"), format="MSEED")
    arch = Archive(archive_path=str(root), stations=pd.DataFrame({"Name": names}), archive_format="YEAR/JD/STATION")
    for allc in (False, True):
        onset = synth.make_onset(sr, "classic", bp=(1.0, 0.4 * sr, 2), all_channels=allc)
        for k in range(6):
            i0 = int(rng.integers(0, n - 30 * sr))
            i1 = i0 + int(rng.integers(8 * sr, 30 * sr))
            try:
                w = arch.read_waveform_data(t0 + i0 / sr, t0 + i1 / sr)
                _, od = onset.calculate_onsets(w)
                got = dict(od.availability)
            except (util.ArchiveEmptyException, util.DataGapException, util.DataAvailabilityException):
                got = {f"{s}_{p}": 0 for p in "PS" for s in names}
            want = {}
            skip = set()
            for p, comps in (("P", ["HHZ"]), ("S", ["HHN", "HHE"])):
                for s in names:
                    oks, present = [], 0
                    for ch in comps:
                        f, bad = truth[(s, ch)]
                        if f == "missing":
                            continue
                        ok = True
                        if f in ("flat", "rate"):
                            ok = False
                        elif f == "flatpart":
                            ok = i0 < bad[0]
                        elif f == "gap":
                            ok = i1 < bad[0] or i0 >= bad[1]
                            if not ok and i0 >= bad[0] and i1 < bad[1]:
                                continue              # nothing of the channel in this window
                            if not ok and (i0 >= bad[0] or i1 < bad[1]):
                                pass                  # one piece, too short
                        elif f == "overlap_diff":
                            # conflicting samples inside the window spoil the channel
                            lo, hi = max(i0, bad[0]), min(i1, bad[1] - 1)
                            if lo <= hi:
                                skip.add(f"{s}_{p}") if hi - lo < 3 else None
                                continue              # channel dropped on reading
                        present += 1
                        oks.append(ok)
                    want[f"{s}_{p}"] = int(all(oks) and present == len(comps)) if allc else int(any(oks))
            for key in want:
                if key in skip:
                    continue
                obs.count("window_phase_decisions")
                obs.count("window_available", want[key])
                obs.check(got.get(key) == want[key], "archive/availability",
                          lambda: f"{key}: got {got.get(key)} expected {want[key]} window {i0}..{i1} all_channels={allc} "
                          f"truth { {k: v for k, v in truth.items() if k[0] == key[:3]} }")
            obs.key(tuple(sorted(want.items())), allc)
    obs.sample = dict(truth={f"{k[0]}.{k[1]}": v[0] for k, v in truth.items()})


def main(chk):
    chk.run(rules, [dict(id=f"r{i}", reps=8) for i in range(chk.pick(120, 2500))])
    chk.run(defaults, [dict(id="d")])
    chk.run(archive, [dict(id=f"a{i}") for i in range(chk.pick(48, 800))])
    chk.require(rule_evaluations=5000, available=800, unavailable=2000, window_phase_decisions=2000,
                window_available=300, refusals=2, defaults=1)
    chk.rule = ("random streams with faults under all 32 rule combinations, and windows of faulty archives; a key is a "
                "distinct (faults, rules, decision)")
