"""C21: traveltime tables hold the traveltime from each node to the named station."""
import copy, os, pickle, stat, sys
import numpy as np
import pandas as pd
from pyproj import Transformer
from qv import harness, synth

STUB_V2G = """#!{py}
import sys
open("{log}", "a").write("Vel2Grid\\n")
print("done")
"""

# Stands in for NonLinLoc's eikonal solver: reads the control file the package wrote and writes a
# 2-D grid of analytic first-arrival times for the (single-gradient) model it describes.
STUB_G2T = """#!{py}
import math, struct
c = open("control.in").read().splitlines()
grid = [l.split() for l in c if l.startswith("VGGRID")][0]
ny, nz, z0, d = int(grid[2]), int(grid[3]), float(grid[6]), float(grid[7])
assert float(grid[8]) == d and float(grid[9]) == d
layers = [[float(v) for v in l.split()[1:]] for l in c if l.startswith("LAYER")]
src = [l.split() for l in c if l.startswith("GTSRCE")][0]
name, zs = src[1], float(src[5])
files = [l.split() for l in c if l.startswith("GTFILES")][0]
phase = files[3]
assert [l.split()[1] for l in c if l.startswith("VGTYPE")] == [phase]
iv, ig = (1, 2) if phase == "P" else (3, 4)
dep, v, g = layers[0][0], layers[0][iv], layers[0][ig]
if {block}:
    g = 0.0
vs = v + g * (zs - dep)
if not z0 <= zs <= z0 + (nz - 1) * d:
    print("ERROR: the source lies outside the 2-D grid")
    raise SystemExit
t = []
for i in range(ny):
    for k in range(nz):
        z = z0 + k * d
        r2 = (i * d) ** 2 + (z - zs) ** 2
        if g == 0:
            t.append(math.sqrt(r2) / v)
        else:
            t.append(math.acosh(1 + g * g * r2 / (2 * vs * (v + g * (z - dep)))) / abs(g))
out = files[2] + "." + phase + "." + name + ".time"
open(out + ".hdr", "w").write("1 %d %d  0.0 0.0 %r  %r %r %r TIME2D FLOAT\\n%s 0.0 0.0 %f\\nTRANSFORM  NONE\\n" % (ny, nz, z0, d, d, d, name, zs))
open(out + ".buf", "wb").write(struct.pack("f" * len(t), *t))
open("{log}", "a").write("Grid2Time " + name + " " + phase + "\\n" + "".join("MODEL %s %r %r %r\\n" % (phase, l[0], l[iv], l[ig]) for l in layers))
print("done")
"""


def geometry(rng, nodes, units, n, f, deep=True):
    spacing = np.round(10 ** rng.uniform(-0.4, 0.3, 3), 2) * f if rng.random() < 0.6 else np.repeat(np.round(10 ** rng.uniform(-0.4, 0.3), 2), 3) * f
    spec = synth.grid_spec(tuple(int(v) for v in nodes), spacing, zmin=-1.0 * f, units=units, kind=str(rng.choice(["lcc", "tmerc"])),
                           lat0=float(rng.choice([64.5, -38.0, 40.0])), lon0=float(rng.choice([-17.0, 175.0])))
    st = synth.stations_df(rng, spec, n, units=units)
    st = st.sample(frac=1, random_state=int(rng.integers(0, 10 ** 6)))      # any row order, any index
    if rng.random() < 0.5:
        st = st.reset_index(drop=True)
    return spec, st, spacing


def node_xyz(spec, nc, spacing):
    ll = np.array(Transformer.from_proj(spec["coord_proj"], spec["grid_proj"]).transform(*spec["ll_corner"]))
    return np.stack(np.meshgrid(*[ll[i] + spacing[i] * np.arange(nc[i]) for i in range(3)], indexing="ij")), ll


def station_xyz(spec, row):
    return np.array(Transformer.from_proj(spec["coord_proj"], spec["grid_proj"]).transform(row.Longitude, row.Latitude, row.Elevation))


def serving(obs, rng, lut, names, phases, info):
    """What the table answers to the stages that use it."""
    nc = np.array(lut.node_count)
    every = [np.asarray(lut.traveltimes[s][p]) for s in names for p in phases]
    mt = max(t.max() for t in every)
    obs.close("max_traveltime", lut.max_traveltime, mt, rtol=1e-12, msg="largest traveltime", **info)
    sr = float(rng.choice([20, 50, 100, 250]))
    got = lut.serve_traveltimes(sr)
    order = [(s, p) for p in phases for s in lut.station_data["Name"]]
    obs.close("served_all", got, np.stack([np.rint(lut.traveltimes[s][p] * sr) for s, p in order], -1), atol=0, msg="all tables in samples", **info)
    keys = [order[i] for i in rng.permutation(len(order))]
    av = {f"{s}_{p}": int(rng.random() < 0.7) for s, p in keys}
    if not sum(av.values()):
        av[next(iter(av))] = 1
    got = lut.serve_traveltimes(sr, av)
    obs.close("served", got, np.stack([np.rint(lut.traveltimes[s][p] * sr) for s, p in keys if av[f"{s}_{p}"]], -1), atol=0, msg="available tables in samples, in the order asked for", **info)
    # interpolation at arbitrary positions
    for _ in range(4):
        ijk = rng.uniform(0, nc - 1) if rng.random() < 0.7 else rng.integers(0, nc).astype(float)
        lo = np.minimum(np.floor(ijk).astype(int), np.maximum(nc - 2, 0))
        w = ijk - lo
        ph = str(rng.choice(phases))
        sel = [None, str(rng.choice(names)), list(rng.permutation(names)[:max(1, len(names) // 2)])][int(rng.integers(0, 3))]
        if (nc < 2).any():
            continue
        who = list(lut.station_data["Name"]) if sel is None else [sel] if isinstance(sel, str) else sel
        want = []
        for s in who:
            t = np.asarray(lut.traveltimes[s][ph])
            want.append(sum(t[lo[0] + a, lo[1] + b, lo[2] + c] * (w[0] if a else 1 - w[0]) * (w[1] if b else 1 - w[1]) * (w[2] if c else 1 - w[2])
                            for a in (0, 1) for b in (0, 1) for c in (0, 1)))
        arg = ijk if rng.random() < 0.5 else [ijk]
        got = lut.traveltime_to(ph, arg, sel) if sel is not None else lut.traveltime_to(ph, arg)
        obs.close("interpolated", np.asarray(got).reshape(-1), want, rtol=1e-9, atol=1e-12, msg=f"traveltime to {ijk.tolist()} for {who}", **info)
        obs.count("interpolations")


def storage(obs, rng, lut, names, phases, info, saved=None):
    from quakemigrate.io import read_lut
    from quakemigrate.lut.lut import LUT
    f = saved or harness.case_dir() / "deep" / "er" / "t.LUT"
    if saved is None:
        lut.save(str(f) if rng.random() < 0.5 else f)
    for how in ("read_lut", "LUT"):
        with synth.quiet():
            back = read_lut(lut_file=str(f)) if how == "read_lut" else LUT(lut_file=str(f))
        obs.check(list(back.traveltimes) == list(lut.traveltimes) and all(list(back.traveltimes[s]) == list(lut.traveltimes[s]) for s in names), "stored_keys", how, **info)
        for s in names:
            for p in phases:
                a, b = np.asarray(back.traveltimes[s][p]), np.asarray(lut.traveltimes[s][p])
                obs.check(a.shape == b.shape and a.dtype == b.dtype and (a == b).all(), "stored_values", f"{how}: {s} {p}", **info)
        obs.check(bool(back == lut) and (back.node_count == lut.node_count).all() and list(back.phases) == list(lut.phases) and back.fraction_tt == lut.fraction_tt,
                  "stored_grid", how, **info)
        obs.check(len(back.station_data) == len(lut.station_data) and back.station_data.equals(lut.station_data), "stored_stations",
                  lambda: f"{how}: {len(back.station_data)} stations of {len(lut.station_data)}", **info)
        if isinstance(lut.velocity_model, pd.DataFrame):
            obs.check(lut.velocity_model.equals(back.velocity_model), "stored_model", how, **info)
        else:
            obs.check(lut.velocity_model == back.velocity_model, "stored_model", how, **info)
        i = int(rng.integers(0, np.prod(lut.node_count)))
        obs.close("stored_positions", back.index2coord(i, unravel=True), lut.index2coord(i, unravel=True), rtol=1e-12, msg=how, **info)
        obs.count("stored")


def homogeneous(case, rng, obs):
    d = harness.case_dir()
    os.chdir(d)
    from quakemigrate.lut import compute_traveltimes
    units = str(rng.choice(["km", "m"]))
    f = 1.0 if units == "km" else 1000.0
    n = int(rng.integers(1, 7))
    nodes = rng.integers(2, 12, 3)
    spec, st, spacing = geometry(rng, nodes, units, n, f)
    if rng.random() < 0.3:        # far away or deep stations
        st.loc[st.index[0], "Longitude"] += 3.0
        st.loc[st.index[-1], "Elevation"] = 40.0 * f
    phases = [["P", "S"], ["S", "P"], ["P"], ["S"]][int(rng.integers(0, 4))]
    v = {p: float(np.round(rng.uniform(1, 8), 2)) * f for p in phases}
    before = st.copy()
    save = d / "x" / "t.LUT" if rng.random() < 0.5 else None
    with synth.quiet():
        lut = compute_traveltimes(spec, st, "homogeneous", phases=phases, save_file=str(save) if save else None, fraction_tt=0.2,
                                  **{f"v{p.lower()}": v[p] for p in v})
    info = dict(nodes=nodes.tolist(), units=units, phases=phases, stations=n)
    obs.check(st.equals(before), "input_changed", "station table", **info)
    X, ll = node_xyz(spec, np.array(lut.node_count), spacing)
    names = list(before["Name"])
    obs.check(sorted(lut.traveltimes) == sorted(names), "stations", f"{sorted(lut.traveltimes)} for {sorted(names)}", **info)
    for _, row in before.iterrows():
        xyz = station_xyz(spec, row)
        dist = np.sqrt(((X - xyz[:, None, None, None]) ** 2).sum(0))
        for p in phases:
            obs.close("homogeneous", lut.traveltimes[row.Name][p], dist / v[p], rtol=1e-6, atol=1e-6, msg=f"{row.Name} {p}: distance over velocity", **info)
            obs.count("tables")
    serving(obs, rng, lut, names, phases, info)
    storage(obs, rng, lut, names, phases, info, save)
    # equal tables share corners, spacing and projections
    from quakemigrate.lut.lut import LUT
    half = [v / 2 if i == int(rng.integers(0, 3)) else v for i, v in enumerate(spec["node_spacing"])]
    if half == list(spec["node_spacing"]):
        half[2] /= 2
    north = list(spec["ur_corner"])
    north[2] += spec["node_spacing"][2]
    other = synth.grid_spec(tuple(int(v) for v in nodes), spacing, zmin=-1.0 * f, units=units, kind="lcc", lat0=52.0, lon0=20.0)
    with synth.quiet():
        obs.check(bool(LUT(**spec) == lut), "equal", "a table on the same grid compares unequal", **info)
        for what, q in (("spacing", dict(spec, node_spacing=half)), ("size", dict(spec, ur_corner=north)), ("projection", other)):
            obs.check(not bool(LUT(**q) == lut) and not bool(lut == LUT(**q)), "equal", f"a table with another {what} compares equal", **info)
            obs.count("unequal")
        obs.check(not (lut == "table"), "equal", "a table equals a string")
    obs.key("hom", tuple(nodes.tolist()), units, tuple(phases), n)
    # unusable requests
    for kw, err in [(dict(method="homogeneous", phases=["P"]), TypeError), (dict(method="nonsense"), ValueError), (dict(method="3dfmm"), NotImplementedError),
                    (dict(method="1dfmm"), TypeError), (dict(method="1dnlloc"), TypeError)]:
        try:
            with synth.quiet():
                compute_traveltimes(spec, st, **kw)
            obs.violate("accepted", f"{kw} accepted")
        except err:
            obs.count("refused")
    obs.sample = info


def straight(X, src, depths, vels, m=200):
    """Time along the straight line in the linearly interpolated model: an upper bound of the first arrival."""
    s = np.linspace(0, 1, m)
    z = src[2] + s[:, None] * (X[2].reshape(1, -1) - src[2])
    slow = 1 / np.interp(z, depths, vels)
    dist = np.sqrt(sum((X[a].reshape(-1) - src[a]) ** 2 for a in range(3)))
    return (np.trapezoid(slow, s, axis=0) * dist).reshape(X[0].shape), dist.reshape(X[0].shape)


def fmm(case, rng, obs):
    os.chdir(harness.case_dir())
    from quakemigrate.lut import compute_traveltimes
    units = str(rng.choice(["km", "m"]))
    f = 1.0 if units == "km" else 1000.0
    n = int(rng.integers(1, 5))
    nodes = rng.integers(8, 20, 3)
    spec, st, spacing = geometry(rng, nodes, units, n, f)
    kind = case["kind"]
    if kind == "gradient":
        g = {p: float(np.round(rng.uniform(0.02, 0.3), 3)) for p in "PS"}
        v0 = {"P": 4.0, "S": 2.3}
        vm = pd.DataFrame({"Depth": [-10.0 * f, 300.0 * f], "Vp": [f * (v0["P"] + 0), f * (v0["P"] + 310 * g["P"])], "Vs": [f * v0["S"], f * (v0["S"] + 310 * g["S"])]})
    elif kind == "constant":
        vm = pd.DataFrame({"Depth": [0.0], "Vp": [5.2 * f], "Vs": [3.0 * f]})
    else:
        dd = np.sort(np.round(rng.uniform(-1, 15, int(rng.integers(3, 7))), 2))
        dd = dd[np.concatenate([[True], np.diff(dd) > 0.3])]
        vm = pd.DataFrame({"Depth": dd * f, "Vp": np.round(rng.uniform(3, 8, len(dd)), 2) * f})
        vm["Vs"] = np.round(vm["Vp"] / rng.uniform(1.6, 1.9), 2)
    if rng.random() < 0.3:
        vm = vm[[c for c in vm.columns[::-1]]]
    keep = vm.copy()
    phases = [["P", "S"], ["S", "P"], ["S"]][int(rng.integers(0, 3))]
    with synth.quiet():
        lut = compute_traveltimes(spec, st, "1dfmm", phases=phases, vmod=vm)
    info = dict(nodes=nodes.tolist(), units=units, kind=kind, model=keep.values.tolist())
    obs.check(keep.equals(vm), "input_changed", "velocity model", **info)
    X, ll = node_xyz(spec, np.array(lut.node_count), spacing)
    names = list(st["Name"])
    for _, row in st.iterrows():
        xyz = station_xyz(spec, row)
        src = ll + np.rint((xyz - ll) / spacing) * spacing
        ijk = tuple(np.rint((src - ll) / spacing).astype(int))
        for p in phases:
            dep, vel = keep["Depth"].values, keep[f"V{p.lower()}"].values
            t = np.asarray(lut.traveltimes[row.Name][p])
            vsrc = np.interp(src[2], dep, vel)
            vz = np.interp(X[2], dep, vel)
            h = spacing.max() / min(vsrc, vz.min() if kind == "layers" else vsrc)
            obs.check(t.shape == tuple(lut.node_count) and not np.ma.isMaskedArray(t) | np.isnan(t).any(), "fmm_shape", f"{t.shape}", **info)
            up, dist = straight(X, src, dep, vel)
            if kind == "layers":
                # Fermat: not slower than straight there, not faster than the fastest velocity all the way
                hi, lo = (t - up) / h, (t - dist / vel.max()) / h
            else:
                if kind == "gradient":
                    gg = (vel[1] - vel[0]) / (dep[1] - dep[0])
                    ref = np.arccosh(1 + gg * gg * dist ** 2 / (2 * vsrc * vz)) / gg
                else:
                    ref = dist / vsrc
                hi = lo = (t - ref) / h
                obs.close("fmm_mean", np.mean(t - ref) / h, -0.25, atol=0.45, msg="mean error in node traveltimes", **info)
            obs.track(f"fmm late by, in node traveltimes ({kind})", hi.max())
            obs.track(f"fmm early by, in node traveltimes ({kind})", -lo.min())
            obs.check(hi.max() < 0.45 + 0.02 * (up.max() / h) * (kind == "layers"), "fmm_late", lambda: f"{row.Name} {p}: up to {hi.max():.2f} node traveltimes later than the first arrival", **info)
            obs.check(lo.min() > -0.9, "fmm_early", lambda: f"{row.Name} {p}: up to {-lo.min():.2f} node traveltimes earlier than possible", **info)
            obs.check(t[ijk] == t.min(), "fmm_source", f"{row.Name} {p}: the smallest traveltime is not at the node nearest to the station", **info)
            # eikonal: neighbouring nodes differ by no more than their distance over the slowest velocity between them
            for ax in range(3):
                sl = np.abs(np.diff(t, axis=ax)) / (spacing[ax] / np.minimum(*[np.take(vz, range(k, vz.shape[ax] - 1 + k), axis=ax) for k in (0, 1)]))
                obs.check(sl.max() < 1.6, "fmm_gradient", lambda: f"{row.Name} {p} axis {ax}: slope {sl.max():.2f} x slowness", **info)
            obs.count("fmm_tables")
    serving(obs, rng, lut, names, phases, info)
    storage(obs, rng, lut, names, phases, info)
    obs.key("fmm", tuple(nodes.tolist()), units, kind, tuple(phases), n)
    # stations outside the grid are refused
    st2 = st.copy()
    st2.loc[st2.index[0], "Longitude"] += 5
    try:
        with synth.quiet():
            compute_traveltimes(spec, st2, "1dfmm", phases=phases, vmod=vm)
        obs.violate("outside_accepted", "a station outside the grid was accepted by the fast-marching method")
    except ValueError:
        obs.count("refused")
    import quakemigrate.util as util
    try:
        with synth.quiet():
            compute_traveltimes(spec, st, "1dfmm", phases=phases, vmod=vm.drop(columns=[f"V{phases[0].lower()}"]))
        obs.violate("model_accepted", "a velocity model without the phase's velocity was accepted")
    except util.InvalidVelocityModelHeader:
        obs.count("refused")
    obs.sample = info


def nlloc(case, rng, obs):
    """The 2-D tables of the external solver swept around each station."""
    d = harness.case_dir()
    (d / "bin").mkdir()
    (d / "work").mkdir()
    os.chdir(d / "work")
    from quakemigrate.lut import compute_traveltimes
    block = bool(rng.random() < 0.3)
    for nm, src in (("Vel2Grid", STUB_V2G), ("Grid2Time", STUB_G2T)):
        p = d / "bin" / nm
        p.write_text(src.replace("{py}", sys.executable).replace("{log}", str(d / "log")).replace("{block}", str(block)))
        p.chmod(0o755)
    units = str(rng.choice(["km", "m"]))
    f = 1.0 if units == "km" else 1000.0
    n = int(rng.integers(1, 4))
    nodes = rng.integers(3, 9, 3)
    spec, st, spacing = geometry(rng, nodes, units, n, f)
    if rng.random() < 0.4:      # stations above, below or beside the grid
        st.loc[st.index[0], "Elevation"] = float(rng.choice([-2.345, 17.0])) * f
        st.loc[st.index[-1], "Longitude"] += 0.2
    if rng.random() < 0.4:
        st["Elevation"] = np.round(st["Elevation"] / f, 1) * f
    g = {"P": 0.0 if rng.random() < 0.3 else float(np.round(rng.uniform(0.02, 0.2), 3))}
    g["S"] = float(np.round(g["P"] / 1.8, 3))
    v0 = {"P": 4.1, "S": 2.4}
    H = 300.0
    hh = np.concatenate([[0.0], np.sort(rng.choice(np.arange(1, 600), int(rng.integers(0, 3)), replace=False)) * 0.5, [H]])
    if rng.random() < 0.3:      # a layer thinner than a kilometre
        hh = np.insert(hh, 1, 0.25)
    vm = pd.DataFrame({"Depth": (hh - 10) * f, "Vp": f * (v0["P"] + hh * g["P"]), "Vs": f * (v0["S"] + hh * g["S"])})
    dx = float(rng.choice([0.1, 0.25, 0.5]))
    phases = [["P", "S"], ["S", "P"], ["P"]][int(rng.integers(0, 3))]
    kw = {} if dx == 0.1 else dict(nlloc_dx=dx)
    if block:
        kw["block_model"] = True
    keep = bool(rng.random() < 0.3)
    if keep:
        kw["retain_nll_grids"] = True
    older = bool(not keep and rng.random() < 0.4)
    if older:                   # tables kept from an earlier run stay where they are
        (d / "work" / "time").mkdir()
        (d / "work" / "time" / "older.P.AAAA.time.buf").write_bytes(b"1234")
    with synth.quiet():
        lut = compute_traveltimes(spec, st, "1dnlloc" if rng.random() < 0.8 else "1dsweep", phases=phases, vmod=vm, nlloc_path=str(d / "bin"), **kw)
    info = dict(nodes=nodes.tolist(), units=units, dx=dx, block=block, g=g, spacing=spacing.tolist())
    X, ll = node_xyz(spec, np.array(lut.node_count), spacing)
    X = X / f
    for _, row in st.iterrows():
        xyz = station_xyz(spec, row) / f
        r2 = ((X - xyz[:, None, None, None]) ** 2).sum(0)
        for p in phases:
            gg = 0.0 if block else g[p]
            vs, vz = v0[p] + gg * (xyz[2] + 10), v0[p] + gg * (X[2] + 10)
            ref = np.arccosh(1 + gg * gg * r2 / (2 * vs * vz)) / gg if gg else np.sqrt(r2) / v0[p]
            t = np.asarray(lut.traveltimes[row.Name][p])
            if not obs.check(t.shape == tuple(lut.node_count), "nlloc_shape", f"{t.shape}", **info):
                continue
            r = np.sqrt(r2)
            tol = 2e-5 + 1e-6 * ref + np.where(r < 2 * dx, 0.5 * dx / min(vs, vz.min()), 0.3 * dx ** 2 / np.maximum(r, dx) / min(vs, vz.min()))
            e = np.abs(t - ref) / tol
            obs.track("nlloc sweep error relative to the interpolation bound", e.max())
            w = np.unravel_index(np.argmax(e), e.shape)
            obs.check(e.max() < 1, "nlloc", lambda: f"{row.Name} {p}: traveltime {t[w]:.5f} at distance {r[w]:.3f} km, first arrival {ref[w]:.5f}, interpolation error at most {tol[w]:.2g}", **info)
            obs.count("nlloc_tables")
    log = (d / "log").read_text().splitlines()
    for p in phases:        # the model handed to the solver, in km: piecewise linear, or constant blocks
        got = {l for l in log if l.startswith(f"MODEL {p}")}
        rows = sorted([float(v) for v in l.split()[2:]] for l in got)
        want = [[h - 10, v0[p] + h * g[p], 0.0 if block or i == len(hh) - 1 else g[p]] for i, h in enumerate(hh)]
        obs.close("nlloc_model", rows, want, atol=2e-6, msg=f"{p} velocity model of the solver's control file", **info)
    obs.check(log.count("Vel2Grid") == len(phases) * n, "nlloc_calls", str(log), **info)
    left = sorted(p.name for p in (d / "work").rglob("*") if p.is_file())
    if older:
        obs.check("older.P.AAAA.time.buf" in left, "nlloc_tidy", "the tables of an earlier run were deleted", **info)
        left = [v for v in left if not v.startswith("older")]
        obs.count("nlloc_older")
    obs.check(bool(left) == keep, "nlloc_tidy", f"files left although retain_nll_grids={keep}: {left[:5]}", **info)
    serving(obs, rng, lut, list(st["Name"]), phases, info)
    obs.key("nlloc", tuple(nodes.tolist()), units, dx, block, tuple(phases))
    obs.sample = info


def write_nll(path, phase, name, arr, origin, spacing, trans):
    import struct
    base = path / f"layer.{phase}.{name}.time"
    n = arr.shape
    (path / f"layer.{phase}.{name}.time.hdr").write_text(
        f"{n[0]} {n[1]} {n[2]}  {origin[0]!r} {origin[1]!r} {origin[2]!r}  {spacing[0]!r} {spacing[1]!r} {spacing[2]!r} TIME FLOAT\n"
        f"{name} 0.0 0.0 0.0\n{trans}\n")
    (path / f"layer.{phase}.{name}.time.buf").write_bytes(arr.astype("<f4").tobytes())


# names used in the headers, semi-major axis and reciprocal flattening (0: sphere)
ELLIPSOIDS = [("WGS-84", 6378137.0, 298.257223563), ("WGS-84", 6378137.0, 298.257223563), ("GRS-80", 6378137.0, 298.257222101), ("WGS-72", 6378135.0, 298.26),
              ("Australian", 6378160.0, 298.25), ("Krasovsky", 6378245.0, 298.3), ("International", 6378388.0, 297.0), ("Hayford-1909", 6378388.0, 297.0),
              ("Clarke-1880", 6378249.145, 293.4663), ("Clarke-1866", 6378206.4, 294.9786982), ("Airy", 6377563.396, 299.3249646), ("Bessel", 6377397.155, 299.1528128),
              ("Hayford-1830", 6377276.345, 300.8017), ("Sphere", 6370997.0, 0)]


def read_tables(case, rng, obs):
    """Ready-made 3-D NonLinLoc tables."""
    from quakemigrate.lut import read_nlloc
    d = harness.case_dir()
    os.chdir(d)
    kind = case["kind"]
    lat0, lon0 = float(rng.choice([64.5, -38.0])), float(rng.choice([-17.0, 175.0]))
    p1, p2 = lat0 - 0.5, lat0 + 0.5
    ell, a, rf = ELLIPSOIDS[int(rng.integers(0, len(ELLIPSOIDS)))]
    rot = case.get("rot", 0.0)
    trans = {"LAMBERT": f"TRANSFORM  LAMBERT RefEllipsoid {ell}  LatOrig {lat0}  LongOrig {lon0}  FirstStdParal {p1}  SecondStdParal {p2}  RotCW {rot}",
             "TRANS_MERC": f"TRANSFORM  TRANS_MERC RefEllipsoid {ell}  LatOrig {lat0}  LongOrig {lon0}  RotCW {rot}",
             "SIMPLE": f"TRANSFORM  SIMPLE LatOrig {lat0}  LongOrig {lon0}  RotCW {rot}",
             "NONE": "TRANSFORM  NONE"}[kind]
    n = int(rng.integers(1, 4))
    names = list(rng.permutation(synth.station_names(n)))
    nodes = tuple(int(v) for v in rng.integers(2, 9, 3))
    sp = [float(v) for v in np.round(rng.uniform(0.3, 2, 3), 2)]
    org = [float(v) for v in np.round(rng.uniform(-20, 5, 3), 2)]
    phases = [["P", "S"], ["S"]][int(rng.integers(0, 2))]
    tab = {}
    for s in names:
        for p in phases:
            tab[s, p] = rng.uniform(0, 20, nodes).astype(np.float32)
            write_nll(d, p, s, tab[s, p], org, sp, trans)
    st = pd.DataFrame(dict(Latitude=lat0 + rng.uniform(-.1, .1, n), Longitude=lon0 + rng.uniform(-.1, .1, n), Elevation=np.zeros(n), Name=names))
    info = dict(kind=kind, nodes=nodes, origin=org, spacing=sp, ellipsoid=ell, rot=rot)
    if kind == "NONE" or rot:
        try:
            with synth.quiet():
                read_nlloc(str(d), st, phases=phases)
            obs.violate("accepted", "a table without projection was accepted" if not rot else "a table on a rotated grid was read as one that is not rotated", **info)
        except NotImplementedError:
            obs.count("refused")
        return
    with synth.quiet():
        lut = read_nlloc(str(d), st, phases=phases)
    obs.check(tuple(lut.node_count) == nodes, "nll_nodes", f"{lut.node_count}", **info)
    for k, v in tab.items():
        obs.close("nll_table", lut.traveltimes[k[0]][k[1]], v, atol=0, msg=str(k), **info)
        obs.count("nll_tables")
    ijk = np.column_stack([rng.integers(0, m, 5) for m in nodes])
    obs.close("nll_nodes_xyz", lut.index2grid(ijk), np.array(org) + ijk * np.array(sp), atol=2e-5, msg="node positions (km)", **info)
    from pyproj import Geod, Proj
    g = np.array(org) + ijk * np.array(sp)
    got = np.asarray(lut.index2coord(ijk))
    if kind == "SIMPLE":
        # by distance and direction from the origin, which all versions of this projection share near it
        az, _, dist = Geod(ellps="WGS84").inv(np.full(len(g), lon0), np.full(len(g), lat0), got[:, 0], got[:, 1])
        east, north = dist / 1e3 * np.sin(np.radians(az)), dist / 1e3 * np.cos(np.radians(az))
        err = np.hypot(east - g[:, 0], north - g[:, 1])
        obs.check((err <= 0.015 * np.hypot(g[:, 0], g[:, 1]) + 0.02).all(), "nll_geographic", lambda: f"SIMPLE: nodes {g.tolist()} km from the origin are placed {np.column_stack([east, north]).tolist()} km from it", **info)
    else:
        P = Proj(proj="lcc", lat_0=lat0, lon_0=lon0, lat_1=p1, lat_2=p2, a=a, rf=rf, units="km") if kind == "LAMBERT" and rf else \
            Proj(proj="lcc", lat_0=lat0, lon_0=lon0, lat_1=p1, lat_2=p2, R=a, units="km") if kind == "LAMBERT" else \
            Proj(proj="tmerc", lat_0=lat0, lon_0=lon0, a=a, rf=rf, units="km") if rf else \
            Proj(proj="tmerc", lat_0=lat0, lon_0=lon0, R=a, units="km")
        lon, lat = P(g[:, 0], g[:, 1], inverse=True)
        obs.close("nll_geographic", got[:, :2], np.column_stack([lon, lat]), atol=3e-6, msg=f"geographic node positions, {kind} on {ell}", **info)
    obs.count(f"nll_{kind}")
    obs.close("nll_depth", got[:, 2], g[:, 2], atol=2e-5, msg="depths", **info)
    serving(obs, rng, lut, names, phases, info)
    obs.key("nll", kind, nodes, n, tuple(phases))


def combined(case, rng, obs):
    """Tables put together from two station lists on the same grid."""
    os.chdir(harness.case_dir())
    from quakemigrate.lut import compute_traveltimes
    nodes = rng.integers(3, 8, 3)
    spec, st, spacing = geometry(rng, nodes, "km", 6, 1.0)
    st = st.reset_index(drop=True)
    a, b = st.iloc[:4].copy(), st.iloc[3:].copy()
    b.loc[b.index[0], "Latitude"] += 0.05       # the shared station has another position there: the first table keeps its own
    if rng.random() < 0.5:                      # the added stations are farther away than any of the first table's
        b.loc[b.index[1:], "Longitude"] += 2
    with synth.quiet():
        la = compute_traveltimes(spec, a, "homogeneous", vp=5.0, vs=3.0)
        lb = compute_traveltimes(spec, b, "homogeneous", vp=5.0, vs=3.0)
        ta, tb = copy.deepcopy(la.traveltimes), copy.deepcopy(lb.traveltimes)
        out = la + lb
    names = list(st["Name"])
    if not obs.check(out is not None and sorted(out.traveltimes) == sorted(names), "combined_stations", f"{sorted(out.traveltimes) if out is not None else None}"):
        return
    for s in names:
        for p in "PS":
            want = ta[s][p] if s in ta else tb[s][p]
            obs.check(np.array_equal(out.traveltimes[s][p], want), "combined_table", f"{s} {p}: not the table of the {'first' if s in ta else 'second'} object")
            obs.check(s not in tb or np.array_equal(lb.traveltimes[s][p], tb[s][p]), "combined_other_changed", s)
    mt = max(np.max(v) for t in out.traveltimes.values() for v in t.values())
    obs.close("combined_max", out.max_traveltime, mt, rtol=1e-12, msg="largest traveltime of the combined tables")
    obs.count("combined")
    # different grids do not combine
    spec2 = synth.grid_spec(tuple(int(v) for v in nodes), spacing * 1.5)
    with synth.quiet():
        lc = compute_traveltimes(spec2, b, "homogeneous", vp=5.0, vs=3.0)
        r = lb + lc
    obs.check(r is None and sorted(lb.traveltimes) == sorted(b["Name"]) and not lb == lc, "combined_grids", "tables on different grids were combined")


def earlier_format(case, rng, obs):
    """A table stored by an earlier version serves, and is converted to, the same traveltimes."""
    from quakemigrate.io import read_lut
    from quakemigrate.lut import compute_traveltimes, update_lut
    from quakemigrate.lut.lut import LUT
    d = harness.case_dir()
    units = str(rng.choice(["km", "m"]))
    f = 1.0 if units == "km" else 1000.0
    nodes = rng.integers(2, 9, 3)
    spec, st, _ = geometry(rng, nodes, units, int(rng.integers(1, 6)), f)
    with synth.quiet():
        new = compute_traveltimes(spec, st, "homogeneous", vp=5.0 * f, vs=3.0 * f)
    names = list(st["Name"])
    q = dict(new.__dict__)
    obs.count("earlier_tried")
    if not {"traveltimes", "phases", "fraction_tt", "_node_count", "_node_spacing"} <= set(q):
        obs.count("layout_unknown")
        return
    q["maps"] = {s: {f"TIME_{p}": np.array(t) for p, t in v.items()} for s, v in q.pop("traveltimes").items()}
    for k in ("phases", "fraction_tt"):
        q.pop(k)
    q["_cell_count"], q["_cell_size"] = q.pop("_node_count"), q.pop("_node_spacing")
    with open(d / "old.LUT", "wb") as g:
        pickle.dump(q, g)
    info = dict(nodes=nodes.tolist(), units=units, stations=len(names))
    with synth.quiet():
        old = read_lut(lut_file=str(d / "old.LUT")) if rng.random() < 0.5 else LUT(lut_file=str(d / "old.LUT"))
        sr = float(rng.choice([20, 50, 100]))
        av = {f"{s}_{p}": int(rng.random() < 0.7) for s in rng.permutation(names) for p in "PS"}
        av[next(iter(av))] = 1
        obs.check((np.asarray(old.node_count) == new.node_count).all() and bool(old == new), "earlier_grid", f"{old.node_count}", **info)
        obs.close("earlier_served", old.serve_traveltimes(sr), new.serve_traveltimes(sr), atol=0, msg="all tables", **info)
        obs.close("earlier_served", old.serve_traveltimes(sr, av), new.serve_traveltimes(sr, av), atol=0, msg="available tables", **info)
        obs.close("earlier_max", old.max_traveltime, new.max_traveltime, rtol=1e-12, msg="largest traveltime", **info)
        for p in "PS":
            ijk = rng.uniform(0, nodes - 1)
            s = str(rng.choice(names))
            obs.close("earlier_interpolated", np.ravel(old.traveltime_to(p, ijk, s)), np.ravel(new.traveltime_to(p, ijk, s)), rtol=1e-12, msg=f"{s} {p}", **info)
        update_lut(str(d / "old.LUT"), str(d / "sub" / "new.LUT"))
    keep = read_lut(lut_file=str(d / "sub" / "new.LUT"))
    obs.check(bool(keep == new), "updated_grid", "", **info)
    for s in names:
        for p in "PS":
            obs.check(np.array_equal(keep.traveltimes[s][p], new.traveltimes[s][p]), "updated_table", f"{s} {p}", **info)
    obs.check(keep.fraction_tt == 0.1, "updated_fraction", f"{keep.fraction_tt} of the traveltime (0.1 by default)", **info)
    obs.check(list(keep.phases) == ["P", "S"] and keep.station_data.equals(new.station_data), "updated_stations", "", **info)
    serving(obs, rng, keep, names, ["P", "S"], info)
    storage(obs, rng, keep, names, ["P", "S"], info)
    obs.count("earlier_tables")
    # what a map of grid and network has to show
    lo, hi = np.asarray(new.max_extent, dtype=float)
    g0, g1 = np.asarray(new.get_grid_extent(cells=True), dtype=float)
    xyz = st[["Longitude", "Latitude", "Elevation"]].values.astype(float)
    obs.check((lo < np.minimum(g0, xyz.min(0))).all() and (hi > np.maximum(g1, xyz.max(0))).all(), "extent", lambda: f"{lo} to {hi} does not hold the grid, {g0} to {g1}, and the stations {xyz.tolist()}", **info)
    obs.check(np.array_equal(np.asarray(new.station_extent, dtype=float), [xyz.min(0), xyz.max(0)]), "extent", "of the stations", **info)
    obs.close("stations_xyz", new.stations_xyz, np.array([station_xyz(spec, r) for _, r in st.iterrows()]), rtol=1e-9, atol=1e-6 * f, msg="stations on the grid", **info)


def main(chk):
    chk.run(homogeneous, [dict(id=f"h{i}") for i in range(chk.pick(80, 1500))])
    chk.run(fmm, [dict(id=f"f{i}", kind=["gradient", "layers", "constant", "gradient", "layers"][i % 5]) for i in range(chk.pick(40, 500))])
    chk.run(nlloc, [dict(id=f"n{i}") for i in range(chk.pick(48, 500))])
    chk.run(read_tables, [dict(id=f"r{i}", kind=["LAMBERT", "TRANS_MERC", "SIMPLE", "LAMBERT", "TRANS_MERC", "NONE"][i % 6]) for i in range(chk.pick(60, 400))]
            + [dict(id=f"rr{i}", kind=["LAMBERT", "TRANS_MERC", "SIMPLE"][i % 3], rot=[30.0, -12.5][i % 2]) for i in range(chk.pick(6, 30))])
    chk.run(combined, [dict(id=f"a{i}") for i in range(chk.pick(12, 200))])
    chk.run(earlier_format, [dict(id=f"e{i}") for i in range(chk.pick(30, 300))])
    chk.require(earlier_tried=25, tables=300, fmm_tables=80, nlloc_tables=100, nlloc_older=5, nll_tables=20, interpolations=400, stored=200, combined=8, refused=200)
    chk.rule = "generated grids, station tables, velocity models and solvers; a key is a distinct (method, node counts, units, model, phases)"
