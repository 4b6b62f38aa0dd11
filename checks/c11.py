"""C11: stored coalescence reproduces the computed values and times within its precision."""
import os, subprocess, sys
import numpy as np
import pandas as pd
from obspy import UTCDateTime, read
from qv import harness, pipe, refs, repo, synth

LIM = 21474.0
CH = ["COA", "COA_N", "X", "Y", "Z"]
RES = {"COA": 1e-5, "COA_N": 1e-5, "X": 1e-6, "Y": 1e-6}


def values(rng, n, ucf, kind):
    """One step of scan output over the whole range that can be stored."""
    if kind == "huge":
        coa = 10 ** rng.uniform(-6, 6, n)
        coan = 10 ** rng.uniform(0, 5.5, n)
        coa[rng.random(n) < 0.1] = LIM
    elif kind == "spiky":
        coa = np.where(rng.random(n) < 0.5, 0.0, LIM + rng.random(n))
        coan = 1 + rng.random(n)
    else:
        coa = rng.lognormal(0.5, 0.7, n)
        coan = 1 + rng.lognormal(-1, 0.6, n)
    xyz = np.stack([rng.uniform(-180, 180) + rng.uniform(-.3, .3, n), np.clip(rng.uniform(-89, 89) + rng.uniform(-.3, .3, n), -90, 90),
                    rng.uniform(-9, 700, n) * (1000.0 / ucf)], axis=1)
    if kind == "spiky":
        xyz[:, 0] = np.where(rng.random(n) < 0.5, -180.0, 180.0)
    return coa, coan, xyz


def quant(v, ch, ucf):
    f = pipe.FACTOR[ch] * (ucf if ch == "Z" else 1.0)
    if ch.startswith("COA"):
        v = np.minimum(v, LIM)
    return v, 1.0 / f


def judge_disk(obs, run_dir, t0, sr, ucf, truth, upto, what, info):
    got, dup, mis, files = pipe.collect(run_dir, t0, sr, ucf)
    obs.check(dup == 0, f"{what}/duplicate", f"{dup} samples", **info)
    obs.check(mis < 1.1e-4, f"{what}/timing", f"{mis}", **info)
    for ch in CH:
        want = truth[ch][:upto]
        have = np.array([got[ch].get(i, np.nan) for i in range(upto)])
        extra = [k for k in got[ch] if not 0 <= k < upto]
        obs.check(not extra, f"{what}/extra", f"{ch}: {len(extra)} samples beyond what was computed", **info)
        v, res = quant(want, ch, ucf)
        obs.close(f"{what}/{ch}", have, v, atol=0.5001 * res + 1e-12, rtol=1e-12, msg=ch, **info)
    obs.count("samples_on_disk_judged", upto * 5)
    return files


def direct(case, rng, obs):
    """The writer and reader on generated values: day/year boundaries, empty steps, ranges and pads."""
    from quakemigrate.io import ScanmSEED, read_scanmseed, Run
    d = harness.case_dir()
    sr = case["sr"]
    ucf = [1000.0, 1.0][int(rng.integers(2))]
    run = Run(str(d), "run", stage="detect")
    cont = bool(case["cont"])
    step = float(rng.choice([10, 30, 60])) if rng.random() < 0.7 else int(rng.integers(2 * sr, 40 * sr)) / sr
    ns = int(round(step * sr))
    nst = int(rng.integers(1, 14))
    day = UTCDateTime(str(rng.choice(["2021-01-01", "2020-03-01", "2021-07-07"])))
    t0 = day - int(rng.integers(0, nst + 1)) * ns / sr
    if rng.random() < 0.5:
        t0 = day - int(rng.integers(0, nst * ns + 1)) / sr
    sm = ScanmSEED(run, cont, sr)
    truth = {c: np.zeros(nst * ns) for c in CH}
    kinds = ["plain", "plain", "huge", "spiky"]
    info = dict(start=str(t0), step=step, sr=sr, cont=cont, steps=nst)
    for i in range(nst):
        if rng.random() < 0.2:
            sm.empty(t0, step, i, "no data", ucf)
        else:
            coa, coan, xyz = values(rng, ns, ucf, str(rng.choice(kinds)))
            sl = slice(i * ns, (i + 1) * ns)
            for c, v in zip(CH, [coa, coan, *xyz.T]):
                truth[c][sl] = v
            sm.append(t0 + step * i, coa.copy(), coan.copy(), xyz.copy(), ucf)
        if cont:
            judge_disk(obs, d / "run", t0, sr, ucf, truth, (i + 1) * ns, "after_step", dict(info, after=i))
            obs.count("step_snapshots")
        else:
            # completed days are on disk even if the run dies now
            done = [b for b in range(1, (i + 1) * ns) if False]
    if not sm.written:
        sm.write()
    files = judge_disk(obs, d / "run", t0, sr, ucf, truth, nst * ns, "final", info)
    for f in files:
        st = read(str(d / "run/detect/scanmseed" / f))
        for tr in st:
            mid = tr.stats.starttime + (tr.stats.endtime - tr.stats.starttime) / 2
            obs.check(f == f"{mid.year}_{mid.julday:03d}.scanmseed" and tr.stats.starttime >= UTCDateTime(mid.date) - 0.4 / sr
                      and tr.stats.endtime < UTCDateTime(mid.date) + 86400 - 0.4 / sr, "final/day_file", f"{f}: {tr}", **info)
    # read ranges back
    end = t0 + (nst * ns - 1) / sr
    for _ in range(6):
        a, b = sorted(rng.integers(0, nst * ns, 2))
        if rng.random() < 0.3:
            a = 0
        if rng.random() < 0.3:
            b = nst * ns - 1
        pad = float(rng.choice([0, 1.0, 7.0, 120.0]))
        s, e = t0 + int(a) / sr, t0 + int(b) / sr
        df, stats = read_scanmseed(run, s, e, pad, ucf)
        lo, hi = max(0, int(a) - int(round(pad * sr))), min(nst * ns - 1, int(b) + int(round(pad * sr)))
        k = np.array([(t.ns - t0.ns) / 1e9 * sr for t in df["DT"]])
        if obs.check(len(k) == hi - lo + 1 and np.abs(k - np.arange(lo, hi + 1)).max() < 0.02, "read/times",
                     lambda: f"{len(k)} samples {k[:1]}..{k[-1:]}, expected {lo}..{hi}", **dict(info, a=int(a), b=int(b), pad=pad)):
            for ch in CH:
                v, res = quant(truth[ch][lo:hi + 1], ch, ucf)
                obs.close(f"read/{ch}", df[ch].to_numpy(), v, atol=0.5001 * res + 1e-12, rtol=1e-12, msg=ch, **info)
        obs.check(abs(stats.sampling_rate - sr) < 1e-9, "read/rate", str(stats.sampling_rate))
        obs.count("ranges_read")
        obs.count("values_read", 5 * (hi - lo + 1))
    obs.key(sr, cont, ucf, len(files), step, nst)
    obs.sample = dict(info, files=sorted(files))


def gaps(case, rng, obs):
    """Stretches scanned separately, with a hole between them, are all read back, each at its time."""
    from quakemigrate.io import ScanmSEED, read_scanmseed, Run
    d = harness.case_dir()
    sr = case["sr"]
    run = Run(str(d), "run", stage="detect")
    day = UTCDateTime(2021, 1, 1)
    g0, g1 = int(rng.integers(1, 100 * sr)), int(rng.integers(0, 100 * sr))
    n = 60 * sr
    parts = []
    for s in (day - (g0 + n) / sr, day + g1 / sr):
        sm = ScanmSEED(run, False, sr)
        coa, coan, xyz = values(rng, n, 1000.0, "plain")
        sm.append(s, coa.copy(), coan.copy(), xyz.copy(), 1000.0)
        if not sm.written:
            sm.write()
        parts.append((s, coa, coan, xyz))
    for q, (s, e) in enumerate([(day, day + 170), (day - 170, day - 1 / sr), (day - 170, day + 170)]):
        pad = 120.0
        df, _ = read_scanmseed(run, s, e, pad, 1000.0)
        k = np.array([int(round((t.ns - day.ns) / 1e9 * sr)) for t in df["DT"]])
        obs.check(np.all(np.diff(k) == 1), "gap/times", "time axis is not continuous")
        pos = dict(zip(k, range(len(k))))
        lo, hi = s - pad, e + pad
        seen = np.zeros(len(k), bool)
        for ps, coa, coan, xyz in parts:
            o = int(round((ps - day) * sr))
            idx = [i for i in range(n) if lo <= day + (o + i) / sr <= hi]
            miss = [i for i in idx if o + i not in pos]
            obs.check(not miss, "gap/lost", f"{len(miss)} stored samples of the range not returned (hole of {g0 + g1} samples)", q=q)
            idx = [i for i in idx if o + i in pos]
            r = [pos[o + i] for i in idx]
            seen[r] = True
            obs.close("gap/COA", df["COA"].to_numpy()[r], coa[idx], atol=0.5001e-5)
            obs.close("gap/X", df["X"].to_numpy()[r], xyz[idx, 0], atol=0.5001e-6)
        obs.check(not df["COA"].to_numpy()[~seen].any(), "gap/invented", "coalescence invented inside the hole")
        obs.count("gap_reads")
    obs.key("gap", sr, g0, g1)


CRASH = """
import sys; sys.path.insert(0, {verif!r})
import os, logging
from qv import repo
repo.load({lib!r}); logging.disable(logging.INFO)
import numpy as np, pandas as pd
from qv import pipe, synth
from obspy import UTCDateTime
rng = np.random.default_rng({seed})
names = synth.station_names(3)
spec = synth.grid_spec((5, 5, 5))
lut = synth.make_lut(spec, synth.stations_df(rng, spec, 3, names=names))
t0 = UTCDateTime({t0!r})
class Dying(pipe.TagOnset):
    def calculate_onsets(self, data, *a, **k):
        if len(self.calls) == {at}:
            if {how!r} == 'kill':
                os.kill(os.getpid(), 9)
            raise {exc}('interrupted')
        return super().calculate_onsets(data, *a, **k)
onset = Dying(rng, names, t0 - 100, 12000, {sr}, ['P', 'S'], pre=1.0)
arch = synth.make_archive({d!r} + '/arch', pd.DataFrame(dict(Name=names)))
scan = synth.make_scan(arch, lut, onset, {d!r}, timestep={step}, continuous_scanmseed_write={cont})
with synth.quiet():
    scan.detect(t0, t0 + {nst} * {step})
"""


def crash(case, rng, obs):
    """A scan that dies in a step leaves everything computed before on disk."""
    d = harness.case_dir()
    sr, step, nst = 20, 15, 8
    names = synth.station_names(3)
    spec = synth.grid_spec((5, 5, 5))
    seed = int(rng.integers(2 ** 31))
    r2 = np.random.default_rng(seed)
    lut = synth.make_lut(spec, synth.stations_df(r2, spec, 3, names=names))
    t0 = UTCDateTime("2020-12-31T23:59:00") + int(rng.integers(-6, 3)) * 7.5
    onset = pipe.TagOnset(r2, names, t0 - 100, 12000, sr, ["P", "S"], pre=1.0)
    st = synth.make_waveforms(rng, names[:1], t0 - 100, 400, sr, channels="Z")
    synth.write_archive(d / "arch", st)
    code = CRASH.format(verif=str(harness.VERIF), lib=str(repo.SCRATCH / "build_release/quakemigrate/core/src" / ("qmlib" + repo.EXT)),
                        seed=seed, t0=str(t0), at=case["at"], sr=sr, d=str(d), step=step, nst=nst, cont=case["cont"],
                        how=case["how"], exc=case.get("exc", "RuntimeError"))
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], capture_output=True, text=True, timeout=100)
    if p.returncode == 0:
        raise RuntimeError("the crash did not happen: " + p.stderr[-500:])
    if "interrupted" not in p.stderr and p.returncode != -9:
        raise RuntimeError("crash driver failed: " + p.stderr[-1500:])
    tt = {(s, q): np.rint(np.array(lut.traveltimes[s][q], dtype=float) * sr).astype(int) for s in names for q in "PS"}
    keys = list(tt)
    T = np.stack([tt[k] for k in keys], -1)
    upto = case["at"] * step * sr
    o = 100 * sr
    w = np.stack([onset.table[k][o:o + max(upto, 1) + T.max() + 1] for k in keys])
    mx, mxn, _ = refs.ref_peak(refs.ref_migrate(w, T, 0, int(T.max()) + 1, len(keys)))
    got, dup, mis, files = pipe.collect(d / "run", t0, sr)
    if not case["cont"]:
        # only whole days that were finished must be there
        mid = int(round((UTCDateTime(2021, 1, 1) - t0) * sr))
        upto = mid if 0 < mid <= upto else 0
    have = np.array([got["COA"].get(i, np.nan) for i in range(upto)])
    obs.close("crash/COA", have, np.round(mx[:upto] * 1e5) / 1e5, rtol=2e-6, atol=1.1e-5,
              msg=f"died in step {case['at']} ({case['how']}), {len(got['COA'])} samples on disk")
    obs.check(all(0 <= k < case["at"] * step * sr for k in got["COA"]), "crash/extra", "samples that were never computed")
    obs.check(dup == 0, "crash/duplicate", "")
    obs.count("crash_points")
    obs.count("samples_surviving", upto)
    obs.key("crash", case["at"], case["how"], case["cont"], str(t0))


def main(chk):
    rates = [20, 50, 25, 30, 100, 64, 10]
    chk.run(direct, [dict(id=f"d{i}", sr=rates[i % 7], cont=i % 2) for i in range(chk.pick(160, 2500))])
    chk.run(gaps, [dict(id=f"g{i}", sr=[20, 50][i % 2]) for i in range(chk.pick(12, 100))])
    cr = [dict(id=f"c{a}{h}{c}", at=a, how=h, cont=bool(c), exc=["RuntimeError", "KeyboardInterrupt"][a % 2])
          for a in range(0, 8, chk.pick(3, 1)) for h in ("kill", "raise") for c in (1, 0)]
    chk.run(crash, cr)
    chk.require(samples_on_disk_judged=100000, step_snapshots=200, ranges_read=500, values_read=100000, gap_reads=30,
                crash_points=10, samples_surviving=3000)
    chk.rule = ("write/read histories of generated coalescence over days and years, with snapshots of the disk after every step, "
                "and scans killed at every step; a key is a distinct configuration")
