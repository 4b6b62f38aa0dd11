"""C03: the native kernels under AddressSanitizer, UndefinedBehaviorSanitizer and ThreadSanitizer."""
import concurrent.futures as cf, json, os, re, subprocess, sys
from qv import repo

GCCLIB = subprocess.run(["gcc", "-print-file-name="], capture_output=True, text=True)


def runtime(name):
    return subprocess.run(["gcc", f"-print-file-name={name}"], capture_output=True, text=True).stdout.strip()


PAT = re.compile(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|WARNING: ThreadSanitizer[^\n]*|"
                 r"Segmentation fault[^\n]*|ERROR: ThreadSanitizer[^\n]*)")


def job(lib, mode, seed, first, count, timeout):
    log = repo.SCRATCH / f"san_{mode}_{first}.log"
    env = dict(os.environ, PYTHONMALLOC="malloc")
    if mode == "asan":
        env.update(LD_PRELOAD=runtime("libasan.so") + " " + runtime("libubsan.so"),
                   ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1",
                   UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=66")
    else:
        env.update(LD_PRELOAD=runtime("libtsan.so"),
                   TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_signal_unsafe=0:ignore_noninstrumented_modules=1")
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "qv.san_worker", str(lib), mode, str(seed), str(first),
                        str(count), str(log)], env=env, capture_output=True, text=True, timeout=timeout,
                       errors="replace")
    lines = [json.loads(x) for x in log.read_text().splitlines()] if log.exists() else []
    return dict(mode=mode, first=first, rc=p.returncode, err=p.stderr[-6000:], lines=lines)


def main(chk):
    flags = ["-g", "-O1", "-fno-omit-frame-pointer", "-fopenmp"]
    asan = repo.build_custom("asan", "gcc", flags + ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"])
    shim = str(repo.SCRATCH / "shim.o")
    subprocess.run(["gcc", "-g", "-O1", "-fPIC", "-fsanitize=thread", "-c", "qv/c/gomp_shim.c", "-o", shim], check=True)
    # objects are compiled with OpenMP but linked against the shim, so libgomp never comes in
    tdir = repo.SCRATCH / "tsan"
    tdir.mkdir()
    tsan = tdir / "qmlib_tsan.so"
    objs = []
    for c in sorted(repo.CSRC.glob("*.c")):
        o = tdir / (c.stem + ".o")
        r = subprocess.run(["gcc", *flags, "-fPIC", "-fsanitize=thread", f"-I{repo.CSRC}", "-c", str(c), "-o", str(o)],
                           capture_output=True, text=True)
        if r.returncode:
            raise repo.BuildError(r.stderr)
        objs.append(str(o))
    r = subprocess.run(["gcc", "-shared", "-fsanitize=thread", *objs, shim, "-lm", "-lpthread", "-o", str(tsan)],
                       capture_output=True, text=True)
    if r.returncode:
        raise repo.BuildError(r.stderr)
    n_asan, n_tsan = chk.pick(1600, 24000), chk.pick(1000, 16000)
    jobs = []
    per = chk.pick(400, 2000)
    only = getattr(chk, "replay", None)
    for mode, lib, n in (("asan", asan, n_asan), ("tsan", tsan, n_tsan)):
        k = per if mode == "asan" else per * 5 // 8
        for first in range(0, n, k):
            if only and (mode, first) != (only["case"]["mode"], only["case"]["first"]):
                continue
            jobs.append((lib, mode, chk.seed, first, k, chk.pick(300, 780)))
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda a: job(*a), jobs))
    for r in res:
        case = dict(id=f"{r['mode']}-{r['first']}", mode=r["mode"], first=r["first"])
        last = next((x for x in reversed(r["lines"]) if "case" in x), None)
        for x in r["lines"]:
            if "case" in x:
                chk.evaluations += 1
                chk.keys.add((r["mode"], json.dumps({k: v for k, v in x.items() if k != "case"})))
            if x.get("kind") == "bad_value":
                chk.violations.append(dict(key=f"{r['mode']}/value", msg=f"{x['what']} (case {x['case']})",
                                           detail=x, fn="san_worker", case=case))
            for k, v in x.get("counts", {}).items():
                chk.counts[f"{r['mode']}_{k}"] += v
        if last and len(chk.samples) < 4:
            chk.samples.append({"from": r["mode"], "case": last})
        m = PAT.search(r["err"])
        done = any("done" in x for x in r["lines"])
        chk.counts["oracle_checks"] += len(r["lines"])
        if m:
            chk.violations.append(dict(key=f"{r['mode']}/report", msg=f"{m.group(1)} during {last}",
                                       detail=dict(stderr=r["err"][-3500:]), fn="san_worker", case=case))
        elif not done:
            started = any("start" in x for x in r["lines"])
            if started and r["rc"] < 0:
                chk.violations.append(dict(key=f"{r['mode']}/crash", msg=f"killed by signal {-r['rc']} during {last}",
                                           detail=dict(stderr=r["err"]), fn="san_worker", case=case))
            else:
                tb = r["err"]
                if "Traceback" in tb and str(repo.REPO / "quakemigrate") in tb:
                    chk.violations.append(dict(key=f"{r['mode']}/exception", msg=f"{tb[-500:]} during {last}",
                                               detail={}, fn="san_worker", case=case))
                else:
                    chk.errors.append(("san_worker", case["id"], f"rc={r['rc']} {tb[-2500:]}"))
    chk.require(asan_sta_lta_calls=chk.pick(2000, 20000), asan_short_signals=300, asan_grid_calls=1000,
                asan_pipeline_migrations=5, tsan_grid_calls=1000, tsan_parallel_regions=800,
                tsan_threads_started=2000, tsan_more_threads_than_nodes=10)
    chk.rule = ("kernels compiled with gcc ASan+UBSan and with TSan (OpenMP on a pthread shim), driven through the "
                "package's Python entry points; signals around every window length, traveltimes at both ends of "
                "the pads, more threads than nodes; every case differs in shape, so is non-trivial")
