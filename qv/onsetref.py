"""Reference onset chain and availability rules, built on obspy/scipy/numpy only."""
import fnmatch
import numpy as np
from obspy import Stream, Trace
from scipy.signal import hilbert
from .refs import ref_sta_lta


def nsamp(seconds, sr):
    return int(round(seconds * sr))


def decimated(tr, sr, start=None):
    tr = tr.copy()
    if tr.stats.sampling_rate == sr:
        return tr
    if tr.stats.sampling_rate % sr:
        return tr
    tr.detrend("linear")
    tr.detrend("demean")
    tr.taper(type="cosine", max_percentage=0.05)
    tr.filter("lowpass", freq=float(sr) / 2.000001, corners=2, zerophase=True)
    f = int(tr.stats.sampling_rate / sr)
    if start is not None:
        first = round((tr.stats.starttime.ns - start.ns) / 1e9 * tr.stats.sampling_rate)
        k = -(first // -f) * f - first
        tr.data = tr.data[k:]
        tr.stats.starttime += k / tr.stats.sampling_rate
    tr.decimate(factor=f, strict_length=False, no_filter=True)
    return tr


def processed(traces, sr, filt, start, end):
    """Processed copies of the traces inside the window."""
    out = []
    for tr in traces:
        flat = len(np.unique(tr.data)) == 1
        t = decimated(tr, sr, start)
        t.trim(start - 1e-5, end + 1e-5, nearest_sample=False)
        if not t.stats.npts:
            continue
        t.detrend("linear")
        t.detrend("constant")
        t.taper(type="cosine", max_percentage=0.05)
        t.filter("bandpass", freqmin=filt[0], freqmax=filt[1], corners=filt[2], zerophase=True)
        t.data = np.asarray(t.data, dtype=float)
        if flat:
            t.data[:] = 0.0
        out.append(t)
    return out


def channel_ok(traces, *, allow_gaps, full_timespan, sr, span, check_sr=True, exact=None):
    """One channel against the rules (traces of one id, any order)."""
    if any(t.data.max() == t.data.min() for t in traces):
        return 0
    ts = sorted(traces, key=lambda t: t.stats.starttime.ns)
    gap = False
    for a, b in zip(ts[:-1], ts[1:]):
        d = (b.stats.starttime.ns - a.stats.endtime.ns) / 1e9
        if d < a.stats.delta * 0.5:
            return 0
        if d > a.stats.delta * 1.5:
            gap = True
    if gap and not allow_gaps:
        return 0
    if check_sr and any(t.stats.sampling_rate != sr for t in ts):
        return 0
    if full_timespan:
        if len(ts) > 1 or ts[0].stats.npts < round(span * ts[0].stats.sampling_rate, 3) + 1:
            return 0
    if exact is not None:
        if len(ts) > 1 or ts[0].stats.starttime != exact[0] or ts[0].stats.endtime != exact[1]:
            return 0
    return 1


def availability(traces, *, all_channels, n_channels, **rules):
    ids = sorted({t.id for t in traces})
    per = {i: channel_ok([t for t in traces if t.id == i], **rules) for i in ids}
    if not per:
        return 0, per
    if all_channels:
        return int(all(per.values()) and len(per) == n_channels), per
    return int(any(per.values())), per


TRANSFORM = {"energy": lambda x: x ** 2, "abs": np.abs, "env": lambda x: np.abs(hilbert(x)),
             "env_squared": lambda x: np.abs(hilbert(x)) ** 2}


def ref_onsets(traces, stations, cfg, start, end, sr, timespan=None):
    """Everything the onset stage should report for this window.

    cfg: dict(phases, channel_maps, channel_counts, bandpass_filters, sta_lta_windows, position,
    signal_transform, min_onset_value, all_channels, allow_gaps, full_timespan)."""
    span = (end.ns - start.ns) / 1e9
    avail, per_channel, onsets, used = {}, {}, {}, {}
    n = int(round(span * sr)) + 1
    for ph in cfg["phases"]:
        stw = nsamp(cfg["sta_lta_windows"][ph][0], sr) + 1
        ltw = nsamp(cfg["sta_lta_windows"][ph][1], sr) + 1
        for sta in stations:
            sel = [t for t in traces if t.stats.station == sta
                   and fnmatch.fnmatch(t.stats.channel.upper(), cfg["channel_maps"][ph].upper())]
            proc = processed(sel, sr, cfg["bandpass_filters"][ph], start, end)
            a, per = availability(proc, all_channels=cfg["all_channels"], n_channels=cfg["channel_counts"][ph],
                                  allow_gaps=cfg["allow_gaps"], full_timespan=cfg["full_timespan"], sr=sr, span=span)
            avail[f"{sta}_{ph}"] = a
            per_channel[(sta, ph)] = per
            if not a:
                continue
            rows, keep = [], {}
            for cid in per:
                if not per[cid]:
                    continue
                pieces = [t for t in proc if t.id == cid]
                if cfg["allow_gaps"] or not cfg["full_timespan"]:
                    x = np.zeros(n)
                    for t in pieces:
                        t.taper(type="cosine", max_percentage=0.05)
                        i0 = int(round((t.stats.starttime - start) * sr))
                        x[i0:i0 + t.stats.npts] = t.data
                else:
                    x = pieces[0].data
                keep[cid] = x
                o, _ = ref_sta_lta(TRANSFORM[cfg["signal_transform"]](x), stw, ltw,
                                   "centred" if cfg["position"] == "centred" else "overlapping")
                if timespan:
                    pre = max(w[1] for w in cfg["sta_lta_windows"].values()) + \
                        3 * max(w[0] for w in cfg["sta_lta_windows"].values())
                    tp = timespan + pre + cfg["post_pad"]
                    padded = np.ceil(round((pre + np.ceil(tp * 0.06)) * sr, 6)) / sr
                    k = nsamp(padded - pre, sr)
                    o[:k + ltw - 1] = 1.0
                    o[-(stw + k):] = 1.0
                rows.append(o)
            with np.errstate(all="ignore"):
                o = np.sqrt(np.mean(np.square(rows), axis=0))
            onsets[(sta, ph)] = np.maximum(o, cfg["min_onset_value"])
            used[(sta, ph)] = keep
    return avail, onsets, used, per_channel
