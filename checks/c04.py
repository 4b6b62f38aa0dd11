"""C04: STA/LTA primitives equal their definition."""
import numpy as np
from qv import synth
from qv.refs import ref_sta_lta, ref_recursive

KINDS = ["noise", "const", "zeros", "spike", "gap", "sparse", "ramp", "burst", "denormal", "leadzero"]


def make(rng, kind, n):
    x = rng.normal(0, 10.0 ** rng.uniform(-3, 6), n) ** 2
    if n == 0:
        return x
    if kind == "const":
        x[:] = rng.uniform(1e-3, 1e3)
    elif kind == "zeros":
        x[:] = 0.0
    elif kind == "spike":
        x[rng.integers(n)] *= 10.0 ** rng.uniform(3, 12)
    elif kind in ("gap", "denormal"):
        a, b = sorted(rng.integers(0, n + 1, 2))
        x[a:b] = 0.0 if kind == "gap" else np.finfo(float).tiny
    elif kind == "sparse":
        x[rng.random(n) < 0.9] = 0.0
    elif kind == "ramp":
        x *= 10.0 ** (-np.arange(n) / max(n, 1) * 12)
    elif kind == "burst":
        x[n // 2:] *= 1e8
        x[3 * n // 4:] /= 1e8
    elif kind == "leadzero":
        x[: rng.integers(0, n + 1)] = 0.0
    return x


def primitives(case, rng, obs):
    import quakemigrate.core as core
    from quakemigrate.signal.onsets import stalta
    for rep in range(case["reps"]):
        kind = KINDS[int(rng.integers(len(KINDS)))]
        nsta = int(rng.choice([1, 2, 3, 6, 11, 26, int(rng.integers(1, 60))]))
        nlta = nsta + int(rng.choice([1, 2, 5, 20, 40, int(rng.integers(1, 400))]))
        n = int(rng.choice([0, 1, nsta, nlta - 1, nlta, nlta + 1, nlta + nsta - 1, nlta + nsta,
                            nlta + nsta + 1, 2 * nlta, int(rng.integers(nlta, nlta + 3000)),
                            int(rng.integers(nlta, nlta + 3000)), 2500]))
        x = make(rng, kind, n)
        if rng.random() < 0.15:
            xin = np.repeat(x, 2)[::2]          # not contiguous
        elif rng.random() < 0.1:
            x = np.round(np.minimum(x, 1e9))
            xin = x.astype(np.int64)
        else:
            xin = x
        keep = np.array(xin)
        where = dict(kind=kind, nsta=nsta, nlta=nlta, n=n)
        tot = float(np.sum(x)) if n else 0.0
        for pos, cfn, pfn in (("overlapping", core.overlapping_sta_lta, stalta.overlapping_sta_lta_py),
                              ("centred", core.centred_sta_lta, stalta.centred_sta_lta_py)):
            want, fits = ref_sta_lta(x, nsta, nlta, pos)
            with obs.no_raise(f"{pos}/raise", str(where)):
                got = np.asarray(cfn(xin, nsta, nlta))
            obs.count("onsets")
            obs.count("window_values", fits.sum())
            obs.count("null_values", (~fits).sum())
            obs.count("zero_lta_values", int(((want == 1.0) & fits).sum()))
            # the ratio itself may exceed the largest float after a stretch of denormals
            fin = np.isfinite(want)
            obs.check(np.isfinite(got[fin]).all() and (got >= -1e-6).all(), f"{pos}/finite",
                      lambda: f"{(~np.isfinite(got)).sum()} non-finite, min {np.nanmin(got)}", **where)
            obs.check(got.shape == want.shape and (got[~fits] == 1.0).all(), f"{pos}/null",
                      "value other than 1 where a window does not fit", **where)
            obs.close(f"{pos}/value", got, want, rtol=1e-5, atol=1e-7, msg=f"{where}")
            with np.errstate(all="ignore"):
                e = np.abs(got - want) / np.maximum(want, 1e-7)
            obs.track("rel_error_C", e.max() if n else 0)
            # the Python variant uses cumulative sums: its rounding scales with the total
            if n:
                with obs.no_raise(f"{pos}_py/raise", str(where)):
                    gp = np.asarray(pfn(np.array(x), nsta, nlta))
                delta = 16 * np.finfo(float).eps * tot
                w = np.lib.stride_tricks.sliding_window_view
                lta = np.zeros(n)
                lta[nlta - 1:] = w(x, nlta).sum(axis=1) if n >= nlta else []
                ok = ~fits | (lta > 1e5 * delta)
                obs.count("python_values", ok.sum())
                obs.close(f"{pos}_py/value", gp[ok], want[ok], rtol=1e-3, atol=1e-4, msg=f"{where}")
                if kind == "zeros":
                    obs.check((gp == 1.0).all(), f"{pos}_py/zero", "zero signal must give 1", **where)
        if n > nlta:
            got = np.asarray(core.recursive_sta_lta(xin, nsta, nlta))
            want = ref_recursive(x, nsta, nlta)
            obs.close("recursive/value", got, want, rtol=1e-9, atol=1e-12, msg=f"{where}")
            obs.count("recursive_values", n - nlta)
        obs.check(np.array_equal(keep, xin), "input_modified", str(where))
        if n >= nlta + nsta and kind not in ("zeros", "const"):
            obs.key(kind, nsta, nlta, n)
    obs.sample = where


def pipeline(case, rng, obs):
    """Every call the onset stage makes in a real detect/locate run."""
    from qv import harness, repo
    from quakemigrate.signal.onsets import stalta
    d = harness.case_dir()
    pos = case["position"]
    for name, refpos in (("overlapping_sta_lta", "overlapping"), ("centred_sta_lta", "centred")):
        import quakemigrate.core.lib as lib
        real = getattr(lib, name)

        def hook(*args, real=real, refpos=refpos, **kw):
            x, a, b = repo.in_order(real, args, kw)[:3]
            got = real(*args, **kw)
            want, fits = ref_sta_lta(x, a, b, refpos)
            obs.count("pipeline_onsets")
            obs.count("window_values", fits.sum())
            obs.check(b > a >= 1, "pipeline/windows", f"nsta={a} nlta={b}")
            obs.close(f"pipeline/{refpos}", got, want, rtol=1e-5, atol=1e-7, msg="in detect/locate")
            return got
        repo.patch_everywhere(real, hook)
    w = synth.World(rng, d, n=5, duration=90.0)
    onset = synth.make_onset(50, pos, all_channels=bool(rng.integers(2)))
    arch = w.archive()
    scan = synth.make_scan(arch, w.lut, onset, d / "out", timestep=20.0)
    with synth.quiet():
        scan.detect(str(w.t0 + 25), str(w.t0 + 65))
        synth.make_trigger(w.lut, d / "out", marginal_window=0.5, min_event_interval=2.0,
                           normalise_coalescence=False, threshold_method="static",
                           static_threshold=1.5).trigger(str(w.t0 + 25), str(w.t0 + 65))
    obs.key("pipeline", pos)


def main(chk):
    n = chk.pick(400, 6000)
    chk.run(primitives, [dict(id=f"p{i}", reps=12) for i in range(n)])
    chk.run(pipeline, [dict(id=f"r{i}", position=["centred", "classic"][i % 2]) for i in range(chk.pick(4, 40))])
    chk.require(onsets=2000, window_values=500000, null_values=10000, zero_lta_values=200,
                pipeline_onsets=20, recursive_values=100000)
    chk.rule = ("signals of ten kinds (noise, constant, zero, spikes, gaps, denormals, dynamic-range drops) with "
                "lengths around every window boundary; non-trivial = not constant and long enough for both windows")
