"""C20: grid coordinates round-trip and decimation keeps every node in place."""
import copy
import numpy as np
from pyproj import Proj, Transformer
from qv import harness, synth


def random_grid(rng):
    units = str(rng.choice(["km", "m"]))
    f = 1.0 if units == "km" else 1000.0
    lat0 = float(rng.choice([64.5, -38.2, 2.0, 45.0, -0.5]))
    lon0 = float(rng.choice([-17.0, 175.9, 0.0, 120.3, -70.0]))
    kind = str(rng.choice(["lcc", "tmerc"]))
    if abs(lat0) < 5:
        kind = "tmerc"
    nodes = rng.integers(1, 14, 3)
    if rng.random() < 0.05:
        nodes[int(rng.integers(0, 3))] = int(rng.integers(40, 90))
    spacing = np.round(10 ** rng.uniform(-1.2, 0.9, 3), 3) * f if rng.random() < 0.7 else np.repeat(np.round(10 ** rng.uniform(-1, 0.7), 2), 3) * f
    spec = synth.grid_spec(tuple(int(v) for v in nodes), spacing, zmin=float(np.round(rng.uniform(-3, 5), 2)) * f, units=units, lon0=lon0, lat0=lat0,
                           kind=kind, offset=tuple(rng.uniform(-30, 30, 2) * f))
    if rng.random() < 0.5 and len(set(spacing)) == 1:
        spec["node_spacing"] = float(spacing[0])
    return spec, nodes, np.array(spacing, dtype=float), units, f


def coords(case, rng, obs):
    from quakemigrate.lut.lut import LUT
    for _ in range(case["k"]):
        spec, nodes, spacing, units, f = random_grid(rng)
        info = dict(ll=spec["ll_corner"], ur=spec["ur_corner"], spacing=spacing.tolist(), units=units)
        g = LUT(**spec)
        to_c = Transformer.from_proj(spec["grid_proj"], spec["coord_proj"]).transform
        to_g = Transformer.from_proj(spec["coord_proj"], spec["grid_proj"]).transform
        ll, ur = (np.array(to_g(*spec[k])) for k in ("ll_corner", "ur_corner"))
        nc = np.array(g.node_count)
        tol = 1e-6 * f
        obs.check(nc.shape == (3,) and (nc == nodes).all(), "node_count", f"{nc} nodes, {nodes} fit the requested region", **info)
        reach = ll + (nc - 1) * spacing - ur
        obs.check((reach > -tol).all() and (reach < spacing + tol).all(), "extent", f"last node is {reach} beyond the requested corner", **info)
        m = int(rng.integers(1, 9))
        ijk = np.column_stack([rng.integers(0, n, m) for n in nc])
        want_xyz = ll + ijk * spacing
        want_ll = np.column_stack(to_c(*want_xyz.T))
        arg = ijk if rng.random() < 0.5 else ijk.tolist()
        obs.close("index2grid", g.index2grid(arg), want_xyz, atol=tol, msg="grid position of nodes", **info)
        obs.close("index2coord", np.asarray(g.index2coord(arg))[:, :2], want_ll[:, :2], atol=1e-9, msg="geographic position of nodes", **info)
        obs.close("index2coord_z", np.asarray(g.index2coord(arg))[:, 2], want_xyz[:, 2], atol=tol, msg="depth of nodes", **info)
        one = ijk[0]
        obs.close("single", np.asarray(g.index2coord(one if rng.random() < .5 else list(one))).reshape(-1)[:2], want_ll[0, :2], atol=1e-9, msg="single node", **info)
        back = np.asarray(g.index2coord(g.index2coord(ijk), inverse=True))
        obs.check(back.shape == ijk.shape and (back == ijk).all(), "index_round_trip", lambda: f"{ijk.tolist()} -> {back.tolist()}", **info)
        backg = np.asarray(g.index2grid(g.index2grid(ijk), inverse=True))
        obs.check(backg.shape == ijk.shape and (backg == ijk).all(), "grid_round_trip", lambda: f"{ijk.tolist()} -> {backg.tolist()}", **info)
        # positions off the nodes belong to the nearest node
        off = rng.uniform(-0.45, 0.45, (m, 3))
        p = np.column_stack(to_c(*(want_xyz + off * spacing).T))
        near = np.asarray(g.index2coord(p, inverse=True))
        obs.check((near == ijk).all(), "nearest", lambda: f"{ijk.tolist()} + {off.tolist()} -> {near.tolist()}", **info)
        # flattened indices run over z fastest
        flat = np.ravel_multi_index(ijk.T, nc)
        obs.close("unravel", g.index2grid(flat, unravel=True), want_xyz, atol=tol, msg="flattened indices", **info)
        obs.close("unravel_coord", np.asarray(g.index2coord(flat, unravel=True))[:, :2], want_ll[:, :2], atol=1e-9, msg="flattened indices", **info)
        obs.close("unravel_one", np.asarray(g.index2coord(flat[0], unravel=True)).reshape(-1)[:2], want_ll[0, :2], atol=1e-9, msg="flattened index", **info)
        # free points
        q = ll + rng.uniform(-1, 2, (m, 3)) * (nc * spacing)
        gq = g.coord2grid(g.coord2grid(q, inverse=True))
        obs.close("coord_round_trip", gq, q, atol=2e-5 * f, msg="grid -> geographic -> grid", **info)
        obs.close("coord2grid", g.coord2grid(np.column_stack(to_c(*q.T))), q, atol=2e-5 * f, msg="geographic -> grid", **info)
        xyz = g.grid_xyz
        if np.prod(nc) < 60000:
            X = np.stack(np.meshgrid(*[ll[i] + spacing[i] * np.arange(nc[i]) for i in range(3)], indexing="ij"))
            obs.close("grid_xyz", np.stack(xyz), X, atol=tol, msg="node positions", **info)
        cor = np.asarray(g.grid_corners)
        wc = np.array([ll + np.array([i, j, k]) * (nc - 1) * spacing for i in (0, 1) for j in (0, 1) for k in (0, 1)])
        obs.close("corners", cor, wc, atol=tol, msg="grid corners", **info)
        for cells in (False, True):
            h = spacing / 2 if cells else 0
            w = np.column_stack(to_c(*np.array([ll - h, ll + (nc - 1) * spacing + h]).T))
            obs.close("extent", g.get_grid_extent(cells=cells), w, atol=1e-6 * f, msg=f"extent cells={cells}", **info)
        obs.close("extent_unchanged", g.grid_corners, wc, atol=tol, msg="corners after extents", **info)
        obs.check(g.unit_name == units and abs(g.unit_conversion_factor - (1000 if units == "km" else 1)) < 1e-9, "units", f"{g.unit_name} {g.unit_conversion_factor}", **info)
        obs.count("grids")
        obs.key("grid", tuple(int(v) for v in nc), units, spec["grid_proj"].crs.name if False else str(round(float(ll[0]), 3)))
    obs.sample = info


def labelled(rng, spec, nodes, n=3, phases=("P", "S")):
    from quakemigrate.lut.lut import LUT
    g = LUT(**spec)
    names = synth.station_names(n)
    units = "km" if g.unit_conversion_factor > 1 else "m"
    g.station_data = synth.stations_df(rng, spec, n, units=units, names=names)
    g.phases = list(phases)
    lab = np.arange(int(np.prod(nodes)), dtype=float).reshape(tuple(nodes))
    for i, s in enumerate(names):
        for j, p in enumerate(phases):
            g.traveltimes.setdefault(s, {})[p] = lab + 1e6 * (2 * i + j + 1)     # unique value of every node of every table
    return g, names, lab


def check_decimated(obs, dec, orig_pos, df, names, phases, info, inplace):
    """Every node of the decimated grid is the original node whose values it holds."""
    nc = np.array(dec.node_count)
    for i, s in enumerate(names):
        for j, p in enumerate(phases):
            t = np.asarray(dec.traveltimes[s][p])
            if not obs.check(t.shape == tuple(nc), "table_shape", f"table {t.shape}, grid {nc}", **info):
                return
            lab = t - 1e6 * (2 * i + j + 1)
            n_orig = int(np.prod(orig_pos.shape[:3]))
            if not obs.check(((lab >= 0) & (lab < n_orig)).all(), "table_mixed", f"{s} {p}: entries of another table", **info):
                return
            o = np.stack(np.unravel_index(lab.astype(int), orig_pos.shape[:3]), -1)
            d = np.stack(np.meshgrid(*[np.arange(k) for k in nc], indexing="ij"), -1)
            gp = np.asarray(dec.index2grid(d.reshape(-1, 3)))
            want = orig_pos[o[..., 0], o[..., 1], o[..., 2]].reshape(-1, 3)
            obs.close("node_moved", gp, want, rtol=1e-9, atol=1e-6, msg="position of decimated nodes against that of the nodes their traveltimes came from", **info)
            # a subset with the requested factor
            for ax in range(3):
                k = o.reshape(-1, 3)[:, ax].reshape(tuple(nc))
                st = np.diff(k, axis=ax)
                obs.check((st == df[ax]).all(), "not_every", f"axis {ax}: steps {np.unique(st)}, factor {df[ax]}", **info)
    # as many nodes as fit
    full = np.array(orig_pos.shape[:3])
    obs.check((nc == 1 + (full - 1) // df).all(), "count", f"{nc} nodes left of {full} by {df}", **info)
    obs.count("decimations")


def decimation(case, rng, obs):
    for _ in range(case["k"]):
        spec, nodes, spacing, units, f = random_grid(rng)
        if np.prod(nodes) > 20000:
            continue
        phases = ["P", "S"]
        g, names, lab = labelled(rng, spec, nodes, phases=phases)
        df = rng.integers(1, 6, 3)
        pos = np.stack(g.grid_xyz, -1)
        before = copy.deepcopy(g.__dict__)
        info = dict(nodes=nodes.tolist(), df=df.tolist(), units=units)
        arg = df if rng.random() < 0.5 else df.tolist()

        def same(now, what):
            for k in ("_node_count", "_node_spacing", "ll_corner", "ur_corner"):
                if k in before:
                    obs.check(np.array_equal(before[k], now.__dict__[k]), "original_changed", f"{what}: {k}", **info)
            for s in names:
                for p in phases:
                    obs.check(np.array_equal(before["traveltimes"][s][p], now.traveltimes[s][p]), "original_changed", f"{what}: table {s} {p}", **info)
        dec = g.decimate(arg)
        same(g, "decimate()")
        check_decimated(obs, dec, pos, df, names, phases, info, False)
        obs.close("spacing", dec.node_spacing, spacing * df, rtol=1e-12, msg="spacing", **info)
        obs.check(list(dec.station_data["Name"]) == names and dec.phases == phases, "lost", "stations or phases lost", **info)
        obs.close("stations", dec.stations_xyz, g.stations_xyz, atol=1e-9, msg="station positions", **info)
        # changing the copy leaves the original alone
        dec.traveltimes[names[0]]["P"][...] = -1
        dec.station_data.loc[:, "Elevation"] = -99
        same(g, "changing the copy")
        obs.check((g.station_data["Elevation"] != -99).all(), "original_changed", "station data shared", **info)
        # decimating twice
        df2 = rng.integers(1, 4, 3)
        d1 = g.decimate(df)
        p1 = np.stack(d1.grid_xyz, -1)
        d2 = d1.decimate(df2)
        l2 = np.asarray(d2.traveltimes[names[0]]["P"]) - 1e6
        o = np.stack(np.unravel_index(l2.astype(int).reshape(-1), tuple(nodes)), -1)
        gp = np.asarray(d2.index2grid(np.stack(np.meshgrid(*[np.arange(k) for k in d2.node_count], indexing="ij"), -1).reshape(-1, 3)))
        obs.close("node_moved_twice", gp, pos[o[:, 0], o[:, 1], o[:, 2]], rtol=1e-9, atol=1e-6, msg="after two decimations", **info)
        # in place
        h = copy.deepcopy(g)
        r = h.decimate(arg, inplace=True)
        obs.check(r is None, "inplace_return", repr(type(r)), **info)
        check_decimated(obs, h, pos, df, names, phases, info, True)
        rem = (nodes - 1) % df
        obs.count("offset_grids", (rem >= 2).any())
        obs.key("dec", tuple(nodes.tolist()), tuple(df.tolist()))
    obs.sample = info


def main(chk):
    chk.run(coords, [dict(id=f"c{i}", k=24) for i in range(chk.pick(60, 1000))])
    chk.run(decimation, [dict(id=f"d{i}", k=16) for i in range(chk.pick(60, 1000))])
    chk.require(grids=500, decimations=600, offset_grids=100)
    chk.rule = "generated grids (projection, hemisphere, units, spacing, counts) and decimation factors; a key is a distinct grid or (node counts, factors)"
