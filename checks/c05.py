"""C05: onset functions come from the right channels through the configured chain."""
import numpy as np
from obspy import Stream, Trace, UTCDateTime
from qv import onsetref, synth

MAPS = [{"P": "*Z", "S": "*[N,E,1,2]"}, {"P": "HHZ", "S": "HH[NE]"}, {"P": "*[Z,N]", "S": "*E"},
        {"P": "*", "S": "*[N,E,1,2]"}, {"P": "EHZ", "S": "*[1,2]"}]
CHANS = [["HHZ", "HHN", "HHE"], ["HHZ", "HH1", "HH2"], ["EHZ"], ["HHZ", "HHN"], ["BHZ", "HHZ", "HHN", "HHE"],
         ["HHN", "HHE"]]


def random_cfg(rng, sr):
    phases = [["P", "S"], ["P", "S"], ["S", "P"], ["P"], ["S"]][int(rng.integers(5))]
    maps = MAPS[int(rng.choice([0, 0, 0, 1, 2, 3, 4]))]

    def filt():
        lo = float(rng.choice([0.5, 1.0, 2.0, 3.5]))
        return [lo, float(lo + rng.uniform(1.5, 0.45 * sr - lo)), int(rng.choice([2, 3, 4]))]

    def win():
        s = float(rng.choice([0.05, 0.1, 0.2, 0.33, 0.5]))
        return [s, float(s * rng.choice([2, 5, 7.5]))]
    cfg = dict(phases=phases, channel_maps=dict(maps), channel_counts={"P": int(rng.integers(1, 3)), "S": int(rng.integers(1, 3))},
               bandpass_filters={"P": filt(), "S": filt()}, sta_lta_windows={"P": win(), "S": win()},
               position=str(rng.choice(["classic", "centred"])),
               signal_transform=str(rng.choice(["energy", "abs", "env", "env_squared"])),
               min_onset_value=float(rng.choice([0.01, 0.4, 1.0, 1.5])), all_channels=bool(rng.integers(2)),
               allow_gaps=bool(rng.random() < 0.35), full_timespan=bool(rng.random() < 0.65),
               use_python_backend=bool(rng.random() < 0.25), post_pad=0.0)
    return cfg


def make_object(cfg, sr, ttmax, how):
    from quakemigrate.signal.onsets import STALTAOnset
    keys = [k for k in cfg if k != "post_pad"]
    if how == "kwargs":
        import copy
        onset = STALTAOnset(sampling_rate=sr, **{k: copy.deepcopy(cfg[k]) for k in keys})
    else:
        onset = STALTAOnset(sampling_rate=sr)
        for k in keys:
            setattr(onset, k, cfg[k])
    onset.post_pad = ttmax
    cfg["post_pad"] = float(np.ceil(ttmax + 2 * max(w[1] for w in cfg["sta_lta_windows"].values())))
    return onset


FAULTS = ["ok"] * 7 + ["missing", "flat", "gap", "overlap", "late", "early", "rate", "multiple", "zeros", "spliced", "flatpiece", "coarse"]


def make_traces(rng, names, sr, t0, n, faults, t_chans=None):
    """Traces with one fault each; the truth is in the data themselves."""
    out, log = [], []
    for s in names:
        chans = t_chans or CHANS[int(rng.choice([0, 0, 0, 1, 2, 3, 4, 5]))]
        for ch in chans:
            f = str(rng.choice(faults))
            log.append((s, ch, f))
            scale = 10.0 ** rng.uniform(-1, 5)

            def tr(i0, i1, rate=sr, data=None):
                m = i1 - i0
                x = rng.normal(0, scale, m) if data is None else data
                k = i0 + int(rng.integers(0, max(1, m)))
                if data is None and m > 20:
                    x[k - i0:] += 5 * scale * np.sin(np.arange(m - (k - i0)) * 0.7) * np.exp(-np.arange(m - (k - i0)) / (0.4 * rate))
                    x += scale * rng.uniform(-50, 50) + scale * np.linspace(0, rng.uniform(-5, 5), m)
                return Trace(x, header=dict(network="XX", station=s, channel=ch, sampling_rate=rate,
                                            starttime=t0 + i0 / rate))
            cut = int(rng.integers(n // 4, 3 * n // 4))
            if f == "missing":
                continue
            elif f == "flat":
                out.append(tr(0, n, data=np.full(n, round(float(rng.uniform(-1e5, 1e5)), 1))))
            elif f == "zeros":
                out.append(tr(0, n, data=np.zeros(n)))
            elif f == "coarse":       # the first and last samples are alike, those between are not
                x = np.round(rng.normal(0, 1, n)) * scale
                x[-1] = x[0]
                out.append(tr(0, n, data=x))
            elif f == "gap":
                out += [tr(0, cut), tr(cut + int(rng.integers(1, n // 6)), n)]
            elif f == "flatpiece":
                out += [tr(0, cut), tr(cut + 5, n, data=np.full(n - cut - 5, 7.0))]
            elif f == "spliced":      # contiguous, but in two pieces
                out += [tr(0, cut), tr(cut, n)]
            elif f == "overlap":
                out += [tr(0, cut + int(rng.integers(1, n // 6))), tr(cut, n)]
            elif f == "late":
                out.append(tr(int(rng.choice([1, 2, n // 5])), n))
            elif f == "early":
                out.append(tr(0, n - int(rng.choice([1, 2, n // 5]))))
            elif f == "rate":
                r = sr * 0.8
                out.append(tr(0, int(n * 0.8), rate=r))
            elif f == "rate2":        # a piece at the right rate, then one at another
                m = cut + int(rng.integers(2, 5))
                out += [tr(0, cut), tr(m, m + (n - m) * 4 // 5, rate=sr * 0.8)]
                out[-1].stats.starttime = t0 + m / sr
            elif f == "multiple":
                k = int(rng.choice([2, 4, 5]))
                out.append(tr(0, (n - 1) * k + 1, rate=sr * k))
            else:
                out.append(tr(0, n))
    return out, log


def onsets(case, rng, obs):
    from quakemigrate.io.data import WaveformData
    import quakemigrate.util as util
    import pandas as pd
    for rep in range(case["reps"]):
        sr = int(rng.choice([20, 25, 40, 50, 100]))
        cfg = random_cfg(rng, sr)
        onset = make_object(cfg, sr, float(rng.uniform(0.5, 9)), str(rng.choice(["kwargs", "attributes"])))
        names = ["ST1", "ST10", "ST2", "AB"][: int(rng.integers(1, 5))]
        listed = [str(x) for x in rng.permutation(names)]
        if rng.random() < 0.2:
            listed.insert(0, "GONE")
        if len(listed) > 1 and rng.random() < 0.3:
            listed = listed[:-1]               # a station with data that is not asked for
        timespan = None if rng.random() < 0.4 else float(rng.choice([4.0, 10.0, 4.36, 7.3]))
        t0 = UTCDateTime(2021, 3, int(rng.integers(1, 28)), int(rng.integers(24))) + int(rng.integers(0, 50 * sr)) / sr
        if timespan:
            pre, post = onset.pad(timespan)
            n = int(round((timespan + pre + post) * sr)) + 1
        else:
            n = int(rng.integers(12 * sr, 20 * sr))
        end = t0 + (n - 1) / sr
        traces, flog = make_traces(rng, names, sr, t0, n, ["ok"] * 4 if case["clean"] else FAULTS)
        perm = rng.permutation(len(traces))
        st = Stream([traces[i].copy() for i in perm])
        data = WaveformData(t0, end, stations=pd.Series(listed) if rng.random() < 0.7 else listed)
        data.waveforms = st
        data.raw_waveforms = st.copy()
        before = [(t.id, t.stats.starttime.ns, t.stats.sampling_rate, t.data.copy()) for t in st]
        avail, want, used, per = onsetref.ref_onsets(traces, listed, cfg, t0, end, sr, timespan)
        obs.count("windows")
        info = dict(cfg={k: v for k, v in cfg.items()}, sr=sr, timespan=timespan, faults=flog)
        try:
            got, od = onset.calculate_onsets(data, timespan) if timespan else onset.calculate_onsets(data)
        except util.DataAvailabilityException:
            obs.count("no_data_windows")
            obs.check(not any(avail.values()), "availability/refused", "data-availability error although data are usable", **info)
            continue
        obs.check(any(avail.values()), "availability/accepted", "onsets made although nothing is usable", **info)
        if dict(od.availability) != avail:
            bad = {k: (od.availability.get(k), avail.get(k)) for k in set(avail) | set(od.availability)
                   if od.availability.get(k) != avail.get(k)}
            obs.violate("availability/value", f"(got, expected): {bad}", per_channel={str(k): v for k, v in per.items()}, **info)
            continue
        obs.check(list(od.availability) == list(avail), "availability/order", f"{list(od.availability)} vs {list(avail)}")
        keys = [(k.rpartition("_")[0], k.rpartition("_")[2]) for k, v in avail.items() if v]
        obs.check(len(got) == len(keys), "stack/rows", f"{len(got)} rows for {keys}", **info)
        for row, (sta, ph) in zip(got, keys):
            obs.count("onset_functions")
            obs.count("channels_combined", len(used[(sta, ph)]))
            obs.check(np.isfinite(row).all(), "onset/finite", lambda: f"{sta}_{ph}: {(~np.isfinite(row)).sum()} values not finite", **info)
            gapfill = cfg["allow_gaps"] or not cfg["full_timespan"]
            w = want[(sta, ph)]
            # ratios against a filled gap are ill-conditioned: judge them by sign and order only
            well = np.isfinite(w) & (w < 1e9)
            if cfg["use_python_backend"] and gapfill:
                well &= w < 50      # cumulative sums lose small windows next to large ones
                tol = dict(rtol=0.05, atol=0.05)
                obs.count("python_gapfill_skipped")
            else:
                tol = dict(rtol=2e-5, atol=1e-6)
            if not (cfg["use_python_backend"] and gapfill):
                obs.close("onset/value", np.where(well, row, 0) if row.shape == w.shape else row, np.where(well, w, 0),
                          msg=f"{sta}_{ph}", **tol, **info)
            obs.check(np.array_equal(od.onsets[sta][ph], row), "onset/dict", f"{sta}_{ph} dict differs from stack", **info)
            obs.check((row >= cfg["min_onset_value"] - 1e-12).all(), "onset/minimum", f"{sta}_{ph}", **info)
        obs.check(sum(len(v) for v in od.onsets.values()) == len(keys), "onset/dict_keys", f"{[(k, list(v)) for k, v in od.onsets.items()]} vs {keys}")
        # reported waveforms are exactly those used, per phase in order
        exp = {}
        for (sta, ph), chans in used.items():
            for cid, x in chans.items():
                exp.setdefault(cid, []).append(x)
        gotw = {}
        for tr in od.filtered_waveforms:
            gotw.setdefault(tr.id, []).append(tr)
        obs.check(sorted((k, len(v)) for k, v in gotw.items()) == sorted((k, len(v)) for k, v in exp.items()),
                  "filtered/set", f"{ {k: len(v) for k, v in gotw.items()} } vs { {k: len(v) for k, v in exp.items()} }", **info)
        for cid in exp:
            for tr in gotw.get(cid, []):
                obs.count("filtered_traces")
                ok = any(tr.data.shape == x.shape and np.allclose(tr.data, x, rtol=1e-6, atol=1e-9 * (np.abs(x).max() + 1e-300)) for x in exp[cid])
                obs.check(ok, "filtered/value", f"{cid} is not the processed data the onset was made from", **info)
                obs.check(abs(tr.stats.starttime - t0) < 1e-4 and tr.stats.sampling_rate == sr, "filtered/time", str(tr), **info)
        obs.check(od.sampling_rate == sr and od.starttime == t0 and od.endtime == end, "onset_data/meta", "")
        after = [(t.id, t.stats.starttime.ns, t.stats.sampling_rate, t.data) for t in st]
        obs.check(len(before) == len(after) and all(a[:3] == b[:3] and np.array_equal(a[3], b[3]) for a, b in zip(before, after)),
                  "input_modified", "the waveforms passed in were changed", **info)
        obs.key(cfg["position"], cfg["signal_transform"], tuple(cfg["phases"]), str(cfg["channel_maps"]), sr,
                timespan is None, cfg["allow_gaps"], cfg["full_timespan"], len(keys))
    obs.sample = dict(stations=listed, availability=avail, phases=cfg["phases"], sr=sr)


def main(chk):
    n = chk.pick(160, 3000)
    chk.run(onsets, [dict(id=f"o{i}", reps=6, clean=i % 3 == 0) for i in range(n)])
    chk.require(windows=500, onset_functions=600, filtered_traces=600, channels_combined=800, no_data_windows=5)
    chk.rule = ("windows of 1-4 stations x channel sets x faults under random onset configurations; a key is a distinct "
                "combination of window position, transform, phases, channel map, rate, gap rules and number of onsets")
