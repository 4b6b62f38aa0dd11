"""Runs the native kernels through the package's own Python entry points, in a process
with a sanitizer runtime preloaded. argv: lib mode seed first count logfile"""
import ctypes, faulthandler, json, os, sys
import numpy as np


def log(f, **k):
    os.write(f, (json.dumps(k) + "\n").encode())


def stalta(core, rng, counts, f, i):
    nsta = int(rng.choice([1, 2, 3, 11, int(rng.integers(1, 50))]))
    nlta = nsta + int(rng.choice([0, 1, 2, 20, int(rng.integers(0, 200))]))
    ns = [0, 1, 2, nsta, nlta - 1, nlta, nlta + 1, nlta + nsta - 1, nlta + nsta, nlta + nsta + 1,
          int(rng.integers(0, 2 * (nlta + nsta))), nlta + int(rng.integers(0, 4000))]
    n = max(0, int(rng.choice(ns)))
    log(f, case=i, kind="stalta", nsta=nsta, nlta=nlta, n=n)
    x = np.abs(rng.normal(size=n)) if rng.random() < 0.8 else np.zeros(n)
    if n and rng.random() < 0.3:
        x[n // 2:] *= 1e-20
    for fn in (core.overlapping_sta_lta, core.centred_sta_lta, core.recursive_sta_lta):
        out = fn(x, nsta, nlta)
        assert len(out) == n
        counts["sta_lta_calls"] += 1
        counts["short_signals"] += n < nlta + nsta


def grid(core, rng, counts, f, i, threads=None):
    from qv.refs import ref_migrate, ref_peak
    nd = tuple(int(rng.integers(1, 9)) for _ in range(3))
    n_on = int(rng.integers(1, 9))
    first = int(rng.choice([0, 0, 1, 30]))
    maxtt = int(rng.choice([0, 1, 40]))
    last = maxtt + int(rng.choice([0, 0, 3]))
    ns = int(rng.choice([1, 2, 3, 16, 100]))
    th = threads or int(rng.choice([1, 2, 3, 4, 8, 16]))
    log(f, case=i, kind="grid", nodes=nd, onsets=n_on, first=first, last=last, samples=ns, threads=th,
        maxtt=maxtt)
    on = rng.lognormal(0, 1, (n_on, first + ns + last))
    tt = rng.integers(0, maxtt + 1, nd + (n_on,)).astype(np.int32)
    tt.flat[0] = tt.flat[-1] = maxtt
    m = core.migrate(on, tt, first, last, n_on, th)
    want = ref_migrate(on, tt, first, last, n_on)
    if not np.allclose(m, want, rtol=1e-9):
        log(f, case=i, kind="bad_value", what="migrate output element wrong or not written")
    mx, mn, ix = core.find_max_coa(m, th)
    wx, wn, wi = ref_peak(m)
    if not (np.array_equal(mx, wx) and np.allclose(mn, wn) and np.array_equal(ix, wi)):
        log(f, case=i, kind="bad_value", what="find_max_coa output element wrong or not written")
    counts["grid_calls"] += 2
    counts["edge_reads"] += 1
    counts["threads_used"] += th
    counts["more_threads_than_nodes"] += th > int(np.prod(nd))


def pipeline(rng, counts, f, i):
    """Arrays of a real detect and locate run, with the pad bounds monitored."""
    import pathlib, tempfile
    from qv import repo, synth
    import quakemigrate.core.lib as lib
    from quakemigrate.signal import Trigger  # noqa
    real = counts.setdefault("_real", lib.migrate)
    sr = int(rng.choice([20, 40, 50, 100]))
    pos = str(rng.choice(["centred", "classic"]))
    step = float(rng.choice([5.0, 12.5, 30.0]))
    log(f, case=i, kind="pipeline", sr=sr, position=pos, timestep=step)

    def hook(*a, **k):
        onsets, tt, first, last = repo.in_order(real, a, k)[:4]
        bad = []
        if tt.max() > last or last < 0 or first < 0:
            bad.append(f"traveltime {tt.max()} beyond post-pad {last}")
        if onsets.shape[1] - first - last < 1:
            bad.append(f"no samples to scan: {onsets.shape} {first} {last}")
        if tt.shape[-1] != onsets.shape[0]:
            bad.append(f"{tt.shape[-1]} tables for {onsets.shape[0]} onsets")
        if bad:
            log(f, case=i, kind="bad_value", what="; ".join(bad))
        counts["pipeline_migrations"] += 1
        return real(*a, **k)
    prev = counts.get("_hook", real)
    repo.patch_everywhere(prev, hook)
    counts["_hook"] = hook
    with tempfile.TemporaryDirectory(dir=os.environ["QV_SCRATCH"]) as d:
        d = pathlib.Path(d)
        w = synth.World(rng, d, n=4, nodes=(6, 6, 5), duration=100.0, sr=sr)
        onset = synth.make_onset(sr, pos)
        scan = synth.make_scan(w.archive(), w.lut, onset, d / "out", timestep=step, threads=int(rng.integers(1, 5)))
        with synth.quiet():
            scan.detect(str(w.t0 + 30), str(w.t0 + 65))


def main():
    lib, mode, seed, first, count, path = sys.argv[1:7]
    seed, first, count = int(seed), int(first), int(count)
    f = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    import collections, logging
    from qv import repo
    repo.load(lib)
    logging.disable(logging.INFO)
    import quakemigrate.core as core
    counts = collections.Counter()
    shim = None
    if mode == "tsan":
        shim = ctypes.CDLL(lib)
        shim.qv_seed(seed * 1000 + first + 1)
    log(f, start=mode)
    for i in range(first, first + count):
        rng = np.random.default_rng([seed, 3, i])
        if mode == "asan" and i % 200 == 199:
            pipeline(rng, counts, f, i)
        elif mode == "asan" and i % 2:
            stalta(core, rng, counts, f, i)
        elif mode == "tsan" and i % 5 == 4:
            stalta(core, rng, counts, f, i)
        else:
            grid(core, rng, counts, f, i)
    if shim is not None:
        counts["parallel_regions"] = ctypes.c_long.in_dll(shim, "qv_regions").value
        counts["threads_started"] = ctypes.c_long.in_dll(shim, "qv_threads").value
    log(f, done=count, counts={k: int(v) for k, v in counts.items() if not k.startswith("_")})
    os._exit(0)


main()
