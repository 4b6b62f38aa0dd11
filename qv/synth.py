"""Synthetic networks, traveltime tables, waveforms and archives, and a small driver for
the three stages of the code under test."""
import contextlib, io, os, pathlib, string
import numpy as np
import pandas as pd
from obspy import Stream, Trace, UTCDateTime
from pyproj import Proj


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def projections(lon0=-17.0, lat0=64.5, units="km", kind="lcc"):
    cproj = Proj(proj="longlat", ellps="WGS84", datum="WGS84", no_defs=True)
    common = dict(units=units, datum="WGS84", ellps="WGS84", no_defs=True)
    if kind == "lcc":
        s = 1 if lat0 >= 0 else -1
        gproj = Proj(proj="lcc", lon_0=lon0, lat_0=lat0, lat_1=lat0 - 0.1 * s, lat_2=lat0 + 0.1 * s, **common)
    elif kind == "tmerc":
        gproj = Proj(proj="tmerc", lon_0=lon0, lat_0=lat0, k=1, **common)
    else:
        raise ValueError(kind)
    return gproj, cproj


def grid_spec(nodes=(10, 10, 8), spacing=(1.0, 1.0, 1.0), zmin=-1.0, units="km",
              lon0=-17.0, lat0=64.5, kind="lcc", offset=(0.0, 0.0)):
    """Grid description with the lower-left corner at exact grid-projection coordinates."""
    gproj, cproj = projections(lon0, lat0, units, kind)
    n, d = np.array(nodes), np.array(spacing, dtype=float)
    ll = np.array([-(n[0] - 1) * d[0] / 2 + offset[0], -(n[1] - 1) * d[1] / 2 + offset[1], zmin])
    # a hair inside, so that ceil() of the node count is not at the mercy of rounding
    ur = ll + (n - 1) * d - 1e-3 * d
    llc = [*gproj(*(ll[:2] * unit_m(units)), inverse=True), ll[2]] if False else to_coord(gproj, cproj, ll)
    urc = to_coord(gproj, cproj, ur)
    return dict(ll_corner=list(llc), ur_corner=list(urc), node_spacing=list(d),
                grid_proj=gproj, coord_proj=cproj)


def unit_m(units):
    return 1000.0 if units == "km" else 1.0


def to_coord(gproj, cproj, xyz):
    from pyproj import Transformer
    return np.array(Transformer.from_proj(gproj, cproj).transform(*xyz))


def to_grid(gproj, cproj, lonlatz):
    from pyproj import Transformer
    return np.array(Transformer.from_proj(cproj, gproj).transform(*lonlatz))


def station_names(n, style="plain"):
    if style == "plain":
        return [f"ST{string.ascii_uppercase[i // 26]}{string.ascii_uppercase[i % 26]}" for i in range(n)]
    if style == "numeric":
        return [f"{101 + i}" for i in range(n)]
    raise ValueError(style)


def stations_df(rng, spec, n=6, units="km", names=None, elev=(-0.2, 0.6)):
    """Stations scattered over the grid, elevation column already depth-positive as the
    package's own reader returns it."""
    gproj, cproj = spec["grid_proj"], spec["coord_proj"]
    ll = to_grid(gproj, cproj, spec["ll_corner"])
    ur = to_grid(gproj, cproj, spec["ur_corner"])
    f = 1.0 if units == "km" else 1000.0
    rows = []
    for i in range(n):
        ang = 2 * np.pi * (i + 0.35 * rng.random()) / n
        r = 0.25 + 0.2 * rng.random()
        u = 0.5 + r * np.array([np.cos(ang), np.sin(ang)])
        xy = ll[:2] + u * (ur[:2] - ll[:2])
        z = -f * rng.uniform(*elev)
        lon, lat, _ = to_coord(gproj, cproj, [xy[0], xy[1], z])
        rows.append([lat, lon, z, None])
    df = pd.DataFrame(rows, columns=["Latitude", "Longitude", "Elevation", "Name"])
    df["Name"] = names or station_names(n)
    return df


def make_lut(spec, stations, vp=5.0, vs=3.0, phases=("P", "S"), **kw):
    from quakemigrate.lut import compute_traveltimes
    with quiet():
        return compute_traveltimes(spec, stations, method="homogeneous", phases=list(phases),
                                   vp=vp, vs=vs, **kw)


def ref_traveltimes(lut, vp=5.0, vs=3.0, stations=None):
    """Straight-ray traveltimes computed without the package's own table code."""
    st = lut.station_data if stations is None else stations
    nc, d, ll = lut.node_count, lut.node_spacing, lut.ll_corner
    X, Y, Z = np.meshgrid(*[ll[i] + d[i] * np.arange(nc[i]) for i in range(3)], indexing="ij")
    out = {}
    for _, r in st.iterrows():
        x, y, z = to_grid(lut.grid_proj, lut.coord_proj, [r.Longitude, r.Latitude, r.Elevation])
        dist = np.sqrt((X - x) ** 2 + (Y - y) ** 2 + (Z - z) ** 2)
        out[r.Name] = {"P": dist / vp, "S": dist / vs}
    return out


def wavelet(t, f0, width=None):
    """Zero-mean causal burst starting at t = 0."""
    w = width or 1.5 / f0
    return np.where((t >= 0), np.sin(2 * np.pi * f0 * t) * (t / w) * np.exp(1 - t / w), 0.0)


def make_waveforms(rng, names, t0, duration, sr, events=(), noise=1.0, amp=40.0, f0=5.0,
                   channels="ZNE", network="XX", tts=None, vpvs_amp=1.3, integer=True,
                   p_on="Z", s_on="NE", location="", cross=(0.15, 0.1)):
    """Continuous noise plus P and S bursts.

    events: list of dict(otime, P={name: tt}, S={name: tt}, amp optional)."""
    npts = int(round(duration * sr)) + 1
    t = np.arange(npts) / sr
    st = Stream()
    for name in names:
        for ch in channels:
            x = rng.normal(0, noise, npts)
            for ev in events:
                a = ev.get("amp", amp)
                rel = ev["otime"] - t0
                if "P" in ev and name in ev["P"]:
                    x += (a if ch in p_on else cross[0] * a) * wavelet(t - rel - ev["P"][name], f0)
                if "S" in ev and name in ev["S"]:
                    x += (vpvs_amp * a if ch in s_on else cross[1] * a) * wavelet(t - rel - ev["S"][name], f0)
            x = np.round(x * 1000).astype(np.int32) if integer else x
            st += Trace(x, header=dict(network=network, station=name, location=location,
                                       channel=f"HH{ch}", sampling_rate=sr, starttime=t0))
    return st


def write_archive(root, st, fmt="YEAR/JD/STATION", per_channel=True):
    """Write a stream as day files in one of the archive layouts."""
    root = pathlib.Path(root)
    out = []
    for tr in st:
        day = UTCDateTime(tr.stats.starttime.date)
        while day <= tr.stats.endtime:
            piece = tr.slice(day, day + 86400 - 1e-6, nearest_sample=False)
            if piece is not None and piece.stats.npts:
                out.append((day, piece))
            day += 86400
    for day, tr in out:
        s = tr.stats
        y, j = day.year, day.julday
        ch = s.channel
        if fmt == "YEAR/JD/STATION":
            p = root / f"{y}" / f"{j:03d}" / f"{s.station}_{ch}.m"
        elif fmt == "YEAR/JD/*_STATION_*":
            p = root / f"{y}" / f"{j:03d}" / f"{s.network}_{s.station}_{ch}.m"
        elif fmt == "SeisComp3":
            p = root / f"{y}" / s.network / s.station / f"{ch}.D" / f"{s.network}.{s.station}.{s.location}.{ch}.D.{y}.{j:03d}"
        elif fmt == "STATION.YEAR.JULIANDAY":
            p = root / f"{s.network}.{s.station}.{ch}.{y}.{j:03d}"
        elif fmt == "/STATION/STATION.YearMonthDay":
            p = root / s.station / f"{s.station}.{y}{day.month:02d}{day.day:02d}"
        elif fmt == "YEAR_JD/STATION*":
            p = root / f"{y}_{j:03d}" / f"{s.station}.{ch}"
        elif fmt == "YEAR_JD/STATION_*":
            p = root / f"{y}_{j:03d}" / f"{s.station}_{ch}"
        else:
            raise ValueError(fmt)
        p.parent.mkdir(parents=True, exist_ok=True)
        if p.exists():
            from obspy import read
            old = read(str(p), format="MSEED")
            (old + Stream([tr])).write(str(p), format="MSEED")
        else:
            tr.write(str(p), format="MSEED")
    return root


ARCHIVE_FORMATS = ["YEAR/JD/STATION", "YEAR/JD/*_STATION_*", "SeisComp3", "STATION.YEAR.JULIANDAY",
                   "/STATION/STATION.YearMonthDay", "YEAR_JD/STATION*", "YEAR_JD/STATION_*"]


def make_archive(root, stations, fmt="YEAR/JD/STATION", **kw):
    from quakemigrate.io import Archive
    return Archive(archive_path=str(root), stations=stations, archive_format=fmt, **kw)


def make_onset(sr, position="centred", P=(0.2, 1.0), S=(0.2, 1.0), bp=(2.0, None, 2), phases=("P", "S"),
               **kw):
    from quakemigrate.signal.onsets import STALTAOnset
    hi = bp[1] or min(12.0, 0.4 * sr)
    onset = STALTAOnset(position=position, sampling_rate=sr)
    onset.phases = list(phases)
    onset.bandpass_filters = {"P": [bp[0], hi, bp[2]], "S": [bp[0], hi, bp[2]]}
    onset.sta_lta_windows = {"P": list(P), "S": list(S)}
    onset.channel_maps = kw.pop("channel_maps", {"P": "*Z", "S": "*[N,E,1,2]"})
    for k, v in kw.items():
        setattr(onset, k, v)
    return onset


def make_scan(archive, lut, onset, run_path, name="run", **kw):
    from quakemigrate.signal import QuakeScan
    kw.setdefault("plot_event_summary", False)
    kw.setdefault("threads", 2)
    with quiet():
        return QuakeScan(archive, lut, onset=onset, run_path=str(run_path), run_name=name, **kw)


def make_trigger(lut, run_path, name="run", **kw):
    from quakemigrate.signal import Trigger
    kw.setdefault("plot_trigger_summary", False)
    with quiet():
        return Trigger(lut, run_path=str(run_path), run_name=name, **kw)


class World:
    """A small network with a traveltime table, an archive and some events."""

    def __init__(self, rng, root, n=6, nodes=(9, 9, 7), spacing=(1.0, 1.0, 1.0), units="km", sr=50,
                 t0="2020-01-01T00:00:00", duration=120.0, events=1, noise=1.0, amp=40.0,
                 vp=5.0, vs=3.0, margin=30.0, fmt="YEAR/JD/STATION", write=True, ev_times=None,
                 interior=2, kind="lcc", lat0=64.5, lon0=-17.0, names=None, archive_kw=None, f0=5.0):
        self.rng, self.root, self.sr, self.vp, self.vs, self.fmt = rng, pathlib.Path(root), sr, vp, vs, fmt
        f = 1.0 if units == "km" else 1000.0
        self.units = units
        vp, vs = vp * f, vs * f
        self.vp, self.vs = vp, vs
        self.spec = grid_spec(nodes, np.array(spacing) * f, zmin=-1.0 * f, units=units, kind=kind,
                              lat0=lat0, lon0=lon0)
        self.stations = stations_df(rng, self.spec, n, units, names)
        self.lut = make_lut(self.spec, self.stations.copy(), vp, vs)
        self.ref_tt = ref_traveltimes(self.lut, vp, vs, self.stations)
        self.t0 = UTCDateTime(t0)
        self.duration = duration
        self.names = list(self.stations["Name"])
        self.events = []
        nc = np.array(nodes)
        for k in range(events):
            ijk = np.array([rng.integers(interior, m - interior) for m in nc])
            if ev_times is not None:
                ot = self.t0 + float(ev_times[k])
            else:
                ot = self.t0 + margin + (duration - 2 * margin) * (k + 0.2 + 0.6 * rng.random()) / events
            ot = UTCDateTime(ns=int(round(ot.ns / 1e9 * sr)) * int(round(1e9 / sr))) if 1e9 % sr == 0 else ot
            ev = dict(otime=ot, ijk=ijk, amp=amp)
            for ph in "PS":
                ev[ph] = {s: float(self.ref_tt[s][ph][tuple(ijk)]) for s in self.names}
            self.events.append(ev)
        self.stream = None
        self.archive_root = self.root / "archive"
        self.archive_kw = archive_kw or {}
        if write:
            self.stream = make_waveforms(rng, self.names, self.t0, duration, sr, self.events,
                                         noise=noise, f0=f0)
            write_archive(self.archive_root, self.stream, fmt)

    def archive(self, stations=None, **kw):
        return make_archive(self.archive_root, self.stations if stations is None else stations,
                            self.fmt, **{**self.archive_kw, **kw})

    def coord(self, ijk):
        return self.lut.index2coord([list(ijk)])[0]
