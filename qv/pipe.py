"""Pieces plugged into the scan through its public extension points (custom onset and picker
classes), and readers of what the scan writes."""
import pathlib
import numpy as np
import pandas as pd
from obspy import Stream, Trace, UTCDateTime, read
from quakemigrate.signal.onsets import Onset, STALTAOnset
from quakemigrate.signal.onsets.base import OnsetData
from quakemigrate.signal.pickers import PhasePicker


class TagOnset(Onset):
    """Onset functions that are a known function of station, phase and absolute sample, with
    availability decided per call by `availability_fn(starttime, stations, phases)`."""

    def __init__(self, rng, names, t_ref, n, sr, phases, pre=1.0, post=None, availability_fn=None, amp=None):
        super().__init__(sampling_rate=sr)
        self.phases = list(phases)
        self.channel_maps = {p: "*" for p in phases}
        self.t_ref, self._pre = UTCDateTime(t_ref), pre
        self._post = post or 0.0
        self.table = {(s, p): rng.lognormal(0.2, 0.8, n) for s in names for p in phases}
        if amp:
            for k, (i, v) in amp.items():
                self.table[k][i] += v
        self.availability_fn = availability_fn
        self.calls = []
        self.rng = rng
        self.fixed_post = post

    def window(self, key, start, n):
        i = int(round((start - self.t_ref) * self.sampling_rate))
        if i < 0 or i + n > len(self.table[key]):
            raise AssertionError("harness: window outside the signature table")
        return self.table[key][i:i + n]

    def calculate_onsets(self, data, timespan=None):
        n = int(round((data.endtime - data.starttime) * self.sampling_rate)) + 1
        stations = list(data.stations)
        keys = [(s, p) for p in self.phases for s in stations]
        av = self.availability_fn(data.starttime, keys) if self.availability_fn else {k: 1 for k in keys}
        onsets, d = [], {}
        for k in av:
            if av[k]:
                w = self.window(k, data.starttime, n).copy()
                d.setdefault(k[0], {})[k[1]] = w
                onsets.append(w)
        if not onsets:
            import quakemigrate.util as util
            raise util.DataAvailabilityException
        self.calls.append(dict(start=data.starttime, n=n, av=dict(av), stations=stations))
        availability = {f"{s}_{p}": v for (s, p), v in av.items()}
        return np.stack(onsets), OnsetData(d, self.phases, self.channel_maps, Stream(), availability,
                                           data.starttime, data.endtime, self.sampling_rate)

    def gaussian_halfwidth(self, phase):
        return 0.1

    @property
    def pre_pad(self):
        return self._pre

    @pre_pad.setter
    def pre_pad(self, v):
        self._pre = v

    @property
    def post_pad(self):
        return self._post

    @post_pad.setter
    def post_pad(self, v):
        if self.fixed_post is None:
            self._post = np.ceil(v)


class RecordingOnset(STALTAOnset):
    """The package's own onset, remembering what each call returned by name."""

    record = None

    def calculate_onsets(self, data, *a, **k):
        onsets, od = super().calculate_onsets(data, *a, **k)
        if self.record is not None:
            self.record.append(dict(start=data.starttime, end=data.endtime,
                                    onsets={(s, p): np.array(v) for s, d in od.onsets.items() for p, v in d.items()},
                                    av=dict(od.availability), sr=od.sampling_rate))
        return onsets, od


class NullPicker(PhasePicker):
    """Makes no picks (writes an empty pick file so that later steps have one)."""

    def pick_phases(self, event, lut, run):
        df = pd.DataFrame(columns=["Station", "Phase", "ModelledTime", "PickTime", "PickError", "SNR"])
        event.add_picks(df)
        return event, df


def read_coa(run_dir):
    """Every stored coalescence trace of a run, without the package's reader: dict of
    channel -> list of (start ns, values in physical units)."""
    out = {}
    for f in sorted(pathlib.Path(run_dir).glob("detect/scanmseed/*.scanmseed")):
        for tr in read(str(f)):
            out.setdefault(tr.stats.station, []).append((tr.stats.starttime.ns, np.asarray(tr.data), tr.stats.sampling_rate, f.name))
    return out


def joined(run_dir, sr, obs=None, factor={"COA": 1e5, "COA_N": 1e5, "X": 1e6, "Y": 1e6, "Z": 1e3}, ucf=1.0):
    """Assemble stored series: dict channel -> {sample index (from epoch): value}; duplicates reported."""
    res, dup = {}, 0
    for ch, parts in read_coa(run_dir).items():
        f = factor[ch] * (ucf if ch == "Z" else 1.0)
        for ns, x, _, _ in parts:
            i0 = int(round(ns / 1e9 * sr))
            d = res.setdefault(ch, {})
            for j, v in enumerate(x / f):
                if i0 + j in d:
                    dup += 1
                d[i0 + j] = v
    return res, dup


def read_availability_files(run_dir):
    out = []
    for f in sorted(pathlib.Path(run_dir).glob("detect/availability/*.csv")):
        out.append(pd.read_csv(f, index_col=0, dtype=str))
    return pd.concat(out) if out else pd.DataFrame()


def write_triggers(run_dir, rows, day, subname=""):
    """Write a triggered-events file the way a user might: UTC times and coalescence values."""
    p = pathlib.Path(run_dir) / "trigger" / subname / "events"
    p.mkdir(parents=True, exist_ok=True)
    name = pathlib.Path(run_dir).name
    f = p / f"{name}_{day.year}_{day.julday:03d}_TriggeredEvents.csv"
    df = pd.DataFrame(rows)
    df.to_csv(f, index=False)
    return f


FACTOR = {"COA": 1e5, "COA_N": 1e5, "X": 1e6, "Y": 1e6, "Z": 1e3}


def collect(run_dir, start, sr, ucf=1.0):
    """Stored series relative to a start time, read without the package's reader.

    Returns dict channel -> {sample number: value}, number of samples stored twice, largest
    distance of a sample from its instant (s), set of files."""
    res, dup, mis, files = {c: {} for c in FACTOR}, 0, 0.0, set()
    start = UTCDateTime(start)
    for f in sorted(pathlib.Path(run_dir).glob("detect/scanmseed/*.scanmseed")):
        files.add(f.name)
        for tr in read(str(f)):
            d = res.setdefault(tr.stats.station, {})
            k = (tr.stats.starttime.ns - start.ns) / 1e9 * sr
            i0 = int(round(k))
            mis = max(mis, abs(k - i0) / sr, abs(tr.stats.npts * (1 / tr.stats.sampling_rate - 1 / sr)))
            vals = np.asarray(tr.data) / (FACTOR[tr.stats.station] * (ucf if tr.stats.station == "Z" else 1.0))
            for j, v in enumerate(vals):
                dup += (i0 + j) in d
                d[i0 + j] = v
    return res, dup, mis, files
