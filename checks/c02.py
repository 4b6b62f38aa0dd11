"""C02: grid search returns the true maximum, its node, and the normalised peak."""
import numpy as np
from qv import harness, repo, synth
from qv.refs import ref_peak


def judge(obs, m, mx, mn, idx, where):
    wmx, wmn, wix = ref_peak(m)
    obs.count("searches")
    obs.count("samples_searched", m.shape[-1])
    obs.check(np.array_equal(np.asarray(mx), wmx), f"{where}/max", lambda: f"max differs: {mx[:3]} vs {wmx[:3]}", shape=m.shape)
    obs.close(f"{where}/norm", mn, wmn, rtol=1e-9, msg="normalised max", shape=m.shape)
    idx = np.asarray(idx)
    ok = idx.shape == wix.shape and ((idx >= 0) & (idx < m.reshape(-1, m.shape[-1]).shape[0])).all()
    obs.check(ok, f"{where}/index_range", f"indices {idx[:5]}")
    if ok:
        vals = m.reshape(-1, m.shape[-1])[idx, np.arange(m.shape[-1])]
        obs.check(np.array_equal(vals, wmx), f"{where}/index", "reported node does not attain the maximum", shape=m.shape)
        obs.check(np.array_equal(idx, wix), f"{where}/first_tie", "not the first node attaining the maximum", shape=m.shape)


def direct(case, rng, obs):
    from quakemigrate.core import find_max_coa
    nd = tuple(int(rng.integers(1, 12)) for _ in range(3))
    ns = int(rng.choice([1, 2, 5, 33, 200]))
    kind = str(rng.choice(["random", "ties", "constant", "edge", "huge", "small"]))
    m = rng.lognormal(0, 1, nd + (ns,))
    f = m.reshape(-1, ns)
    if kind == "ties":
        f[...] = rng.integers(1, 4, f.shape)
    elif kind == "constant":
        f[...] = 1.0
    elif kind == "edge":
        f[...] = 1.0 + 1e-3 * rng.random(f.shape)
        which = rng.integers(0, 2, ns)
        f[np.where(which == 0, 0, len(f) - 1), np.arange(ns)] = 5.0
    elif kind == "huge":
        f *= 1e9
    elif kind == "small":
        f *= 1e-4
    m0 = m.copy()
    base = None
    for th in (1, 2, 5, int(rng.integers(2, 17))):
        out = find_max_coa(m, th)
        judge(obs, m0, *out, "search")
        if base is not None:
            obs.check(all(np.array_equal(a, b) for a, b in zip(base, out)), "search/threads", f"threads={th} differs")
        base = out
    obs.check(np.array_equal(m, m0), "search/input_modified", "coalescence map was changed")
    if kind != "constant" and len(f) > 1:
        obs.key(kind, nd, ns)
    obs.sample = dict(kind=kind, grid=nd, samples=ns, max0=float(base[0][0]), node0=int(base[2][0]))


def pipeline(case, rng, obs):
    """Searches and reported positions in real detect runs."""
    import quakemigrate.core.lib as lib
    from quakemigrate.io import read_scanmseed
    orig = lib.find_max_coa
    seen = []

    def spy(*a, **k):
        m = np.array(repo.in_order(orig, a, k)[0], copy=True)
        out = orig(*a, **k)
        judge(obs, m, *out, "pipeline")
        seen.append((m.shape, ref_peak(m)))
        return out
    if not repo.patch_everywhere(orig, spy):
        raise RuntimeError("find_max_coa not referenced")
    units = str(rng.choice(["km", "m"]))
    w = synth.World(rng, harness.case_dir(), n=5, sr=20, nodes=tuple(int(v) for v in rng.integers(5, 9, 3)),
                    spacing=tuple(rng.choice([0.8, 1.0, 1.3], 3)), duration=80, events=1, units=units,
                    lat0=float(rng.choice([64.5, -38.0])), lon0=float(rng.choice([-17.0, 175.0])))
    scan = synth.make_scan(w.archive(), w.lut, synth.make_onset(w.sr), harness.case_dir() / "runs", timestep=20.0,
                           threads=int(rng.integers(1, 6)))
    scan.detect(str(w.t0 + 20), str(w.t0 + 60))
    if len(seen) != 2:
        obs.violate("pipeline/steps", f"{len(seen)} searches for 2 time steps")
        return
    data, _ = read_scanmseed(scan.run, w.t0 + 20, w.t0 + 60 - 1 / w.sr, 0.0, w.lut.unit_conversion_factor)
    mx = np.concatenate([s[1][0] for s in seen])
    ix = np.concatenate([s[1][2] for s in seen])
    nc = w.lut.node_count
    ll, d = w.lut.ll_corner, w.lut.node_spacing
    ijk = np.array(np.unravel_index(ix, tuple(nc))).T
    pos = np.array([synth.to_coord(w.lut.grid_proj, w.lut.coord_proj, ll + k * d) for k in ijk])
    f = 1.0 if units == "km" else 1000.0
    obs.close("pipeline/position_xy", data[["X", "Y"]].values, pos[:, :2], atol=1.1e-6, msg="reported positions")
    obs.close("pipeline/position_z", data["Z"].values, pos[:, 2], atol=1e-3 * (1 if units == "m" else 1e-3) * 1.01, msg="reported depth")
    obs.close("pipeline/coa", data["COA"].values, np.minimum(mx, 21474.0), atol=1.01e-5, msg="reported coalescence")
    obs.count("positions", len(ix))
    obs.key("pipe", tuple(nc), units, len(set(ix.tolist())))
    obs.sample = dict(nodes=nc.tolist(), units=units, distinct_nodes=len(set(ix.tolist())))
    repo.patch_everywhere(spy, orig)


def wide(case, rng, obs):
    """Maps with more than 2^31 elements, on untouched zero pages so that they cost no memory."""
    from quakemigrate.core import find_max_coa
    n, ns = 2 ** 20 + 3, 2 ** 11 + 5
    m = np.zeros((n, 1, 1, ns))
    cols = [0, 1, ns // 2, ns - 1]
    rows = {n // 3: 2.0, n - 1: 3.0}
    for r, v in rows.items():
        for c in cols:
            m[r, 0, 0, c] = v + c * 1e-7
    mx, mn, ix = find_max_coa(m, 8)
    for c in cols:
        want = 3.0 + c * 1e-7
        tot = sum(v + c * 1e-7 for v in rows.values())
        obs.check(mx[c] == want and ix[c] == n - 1, "wide/max", f"column {c}: {mx[c]} at {ix[c]}")
        obs.close("wide/norm", [mn[c]], [want * n / tot], rtol=1e-9, msg=f"column {c}")
        obs.count("wide_columns")
    obs.key("wide", n, ns)
    obs.sample = dict(nodes=n, samples=ns)


def main(chk):
    chk.rule = ("direct: random maps incl. ties, constants, maxima on the first/last node, extreme magnitudes; four thread "
                "counts each; non-trivial = more than one node and not constant. pipeline: searches and positions of real "
                "detect runs in km and m tables. Oracle: numpy max/mean/argmax; pyproj positions of the node.")
    chk.assumptions = ["numpy and pyproj"]
    chk.run(direct, [{} for _ in range(chk.pick(400, 6000))], case_timeout=60)
    chk.run(pipeline, [{} for _ in range(chk.pick(8, 60))], case_timeout=120)
    chk.run(wide, [{}], case_timeout=300)
    chk.require(wide_columns=4, searches=1000, positions=1000)
