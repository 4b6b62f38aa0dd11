"""C01: the migration stack is the geometric mean of time-shifted onsets."""
import numpy as np
from qv import harness, repo, synth
from qv.refs import ref_migrate


def gen(rng, big=False):
    nd = tuple(int(rng.integers(1, 9 if not big else 16)) for _ in range(3))
    n_on = int(rng.integers(1, 13))
    first = int(rng.choice([0, 1, 2, 7, 50, 133]))
    ns = int(rng.choice([1, 2, 3, 17, 64, 100, 257]))
    maxtt = int(rng.choice([0, 1, 5, 60, 200]))
    last = maxtt + int(rng.choice([0, 0, 1, 13]))
    kind = rng.choice(["ratio", "tiny", "ones", "spiky", "below"])
    shape = (n_on, first + ns + last)
    if kind == "ratio":
        on = rng.lognormal(0, 1, shape)
    elif kind == "tiny":
        on = 10.0 ** rng.uniform(-12, 3, shape)
    elif kind == "ones":
        on = np.ones(shape)
    elif kind == "below":
        on = rng.uniform(0, 0.02, shape)
    else:
        on = np.where(rng.random(shape) < 0.05, 10.0 ** rng.uniform(3, 9, shape), 1.0)
    tt = rng.integers(0, maxtt + 1, nd + (n_on,)).astype(np.int32)
    if maxtt and rng.random() < 0.7:     # make sure both extremes occur
        tt.flat[0], tt.flat[-1] = maxtt, 0
    avail = int(rng.choice([n_on, n_on, 1, n_on + 3]))
    return dict(on=on, tt=tt, first=first, last=last, avail=avail, ns=ns, kind=str(kind))


def direct(case, rng, obs):
    from quakemigrate.core import migrate
    g = gen(rng, case.get("big"))
    want = ref_migrate(g["on"], g["tt"], g["first"], g["last"], g["avail"])
    on0, tt0 = g["on"].copy(), g["tt"].copy()
    ths = [1, 2, 3, int(rng.integers(4, 17))]
    base = None
    for th in ths:
        got = np.asarray(migrate(g["on"], g["tt"], g["first"], g["last"], g["avail"], th))
        obs.count("migrations")
        obs.count("coalescence_values", got.size)
        with np.errstate(all="ignore"):
            obs.track("rel_error", np.max(np.abs(got - want) / want) if got.shape == want.shape else np.inf)
        obs.close("stack/value", got, want, rtol=1e-9, msg=f"threads={th}", gen=g["kind"],
                  first=g["first"], last=g["last"], avail=g["avail"], grid=g["tt"].shape)
        if base is None:
            base = got
        else:
            obs.check(base.shape == got.shape and np.array_equal(base, got), "stack/threads",
                      f"threads {ths[0]} vs {th} differ")
    # order of stacking
    p = rng.permutation(len(g["on"]))
    got = migrate(np.ascontiguousarray(g["on"][p]), np.ascontiguousarray(g["tt"][..., p]),
                  g["first"], g["last"], g["avail"], 2)
    obs.close("stack/order", got, want, rtol=1e-9, msg="permuted onsets")
    obs.check(np.array_equal(on0, g["on"]) and np.array_equal(tt0, g["tt"]), "stack/inputs_modified",
              "input arrays were changed")
    if len(np.unique(g["tt"])) > 1 and g["kind"] != "ones":
        obs.key(g["on"].shape, g["tt"].shape, g["first"], g["last"], g["avail"], g["kind"])
    obs.sample = dict(onsets=g["on"].shape, grid=g["tt"].shape, first=g["first"], last=g["last"],
                      available=g["avail"], kind=g["kind"], first_value=float(base.flat[0]) if base.size else None)


def refused(case, rng, obs):
    """Inputs of mismatched size must be refused."""
    from quakemigrate.core import migrate
    g = gen(rng)
    n = len(g["on"])
    for what, on, tt, f, l in (
        ("more tables than onsets", g["on"], np.concatenate([g["tt"], g["tt"][..., :1]], axis=-1), g["first"], g["last"]),
        ("fewer tables than onsets", np.concatenate([g["on"], g["on"][:1]]), g["tt"], g["first"], g["last"]),
        ("pads longer than the data", g["on"], g["tt"], g["on"].shape[1] + 1, 0),
        ("pads together longer than the data", g["on"], g["tt"], g["on"].shape[1] // 2 + 1, g["on"].shape[1] // 2 + 1),
    ):
        obs.count("refusals_probed")
        try:
            migrate(np.ascontiguousarray(on), np.ascontiguousarray(tt), f, l, n, 1)
        except Exception:  # noqa
            obs.count("refused")
            continue
        obs.violate("refuse/" + what.split()[0], f"{what}: accepted", onsets=on.shape, tables=tt.shape, first=f, last=l)
    obs.key("refuse", g["on"].shape, g["tt"].shape)


def pipeline(case, rng, obs):
    """Every migration performed by real detect and locate runs."""
    import quakemigrate.core.lib as lib
    calls = []
    orig = lib.migrate

    def spy(*a, **k):
        onsets, traveltimes, first_idx, last_idx, available = repo.in_order(orig, a, k)[:5]
        o, t = np.array(onsets, copy=True), np.array(traveltimes, copy=True)
        out = orig(*a, **k)
        want = ref_migrate(o, t, first_idx, last_idx, available)
        calls.append((o.shape, t.shape, first_idx, last_idx, int(available)))
        obs.count("pipeline_migrations")
        obs.count("coalescence_values", out.size)
        obs.close("pipeline/value", out, want, rtol=1e-9, msg=f"call {len(calls)}")
        obs.check(int(available) == o.shape[0], "pipeline/divisor", f"{available} onsets claimed, {o.shape[0]} stacked")
        # the window must leave room for the largest traveltime, or samples outside it are used
        obs.check(t.max() <= last_idx and t.min() >= 0, "pipeline/post_pad",
                  f"largest traveltime {t.max()} exceeds the post-pad {last_idx}")
        return out
    n = repo.patch_everywhere(orig, spy)
    if not n:
        raise RuntimeError("migrate is not referenced anywhere")
    w = synth.World(rng, harness.case_dir(), n=int(rng.integers(3, 7)), sr=int(rng.choice([20, 50])),
                    nodes=(7, 6, 5), duration=90, events=1)
    drop = rng.random() < 0.5
    st = w.stations if not drop else w.stations
    run = harness.case_dir() / "runs"
    onset = synth.make_onset(w.sr, position=str(rng.choice(["centred", "classic"])))
    scan = synth.make_scan(w.archive(st), w.lut, onset, run, timestep=20.0, threads=int(rng.integers(1, 6)),
                           marginal_window=0.5)
    scan.detect(str(w.t0 + 20), str(w.t0 + 60))
    obs.key("detect", len(calls), w.sr, len(w.names))
    trig = harness.case_dir() / "t.csv"
    t = w.events[0]["otime"]
    trig.write_text("EventID,CoaTime,TRIG_COA,COA_X,COA_Y,COA_Z,COA,COA_NORM\n"
                    f"20200101000000000,{t},5.0,0,0,0,5.0,2.0\n")
    n0 = len(calls)
    scan.locate(trigger_file=str(trig))
    obs.check(len(calls) > n0, "pipeline/unreached", "locate did not migrate")
    obs.key("locate", calls[-1])
    obs.sample = dict(calls=calls[:3])
    repo.patch_everywhere(spy, orig)


def wide(case, rng, obs):
    """Traveltime tables with more than 2^31 entries (untouched zero pages)."""
    from quakemigrate.core import migrate
    n_on, n = 2 ** 11 + 1, 2 ** 20 + 7
    tt = np.zeros((n, 1, 1, n_on), dtype=np.int32)
    for r in (0, n // 2, n - 1):
        tt[r, 0, 0, -1] = 1
    on = np.ones((n_on, 3))
    on[-1] = [2.0, 4.0, 8.0]
    got = migrate(on, tt, 0, 1, 1, 8)
    want = np.tile([2.0, 4.0], (n, 1))
    for r in (0, n // 2, n - 1):
        want[r] = [4.0, 8.0]
    obs.close("wide/value", got.reshape(n, 2), want, rtol=1e-9, msg="table beyond 2^31 entries")
    obs.count("wide_nodes", n)
    obs.key("wide", n, n_on)
    obs.sample = dict(nodes=n, onsets=n_on)


def main(chk):
    chk.rule = ("direct: random onset arrays (log-normal, tiny, spiky, below-floor), traveltime grids containing 0 and "
                "the largest admissible traveltime, pads and divisors, each run with four thread counts; non-trivial = "
                "more than one traveltime and non-constant onsets. pipeline: every migration done by real detect and "
                "locate runs over synthetic archives. Oracle: long-double logs, numpy gather, exp.")
    chk.assumptions = ["numpy reference", "x86-64, gcc -Ofast rounding within 1e-9 relative"]
    chk.run(direct, [dict(big=(i % 10 == 0)) for i in range(chk.pick(300, 4000))], case_timeout=60)
    chk.run(refused, [{} for _ in range(chk.pick(10, 60))])
    chk.run(pipeline, [{} for _ in range(chk.pick(8, 60))], case_timeout=120)
    chk.run(wide, [{}], case_timeout=300)
    chk.require(wide_nodes=1, migrations=200, pipeline_migrations=12, coalescence_values=100000, refused=20)
