"""Case runner, violation bookkeeping and evidence."""
import collections, contextlib, json, os, pathlib, pickle, select, signal, sys, time, traceback
import numpy as np
from . import repo

VERIF = pathlib.Path(__file__).resolve().parent.parent


class Violation(Exception):
    """Raised inside a case when an oracle rejects what it observed."""

    def __init__(self, key, msg, **detail):
        super().__init__(f"{key}: {msg}")
        self.key, self.msg, self.detail = key, msg, detail


def _plain(x):
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [_plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return _plain(x.tolist()) if x.size <= 50 else f"array{x.shape}"
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:300]


class Obs:
    """What the monitors of one case saw."""

    def __init__(self):
        self.counts = collections.Counter()
        self.violations = []
        self.keys = set()
        self.sample = None
        self.extremes = {}

    def count(self, name, n=1):
        self.counts[name] += int(n)

    def key(self, *k):
        """Record a distinct non-trivial situation that was judged."""
        self.keys.add(repr(k))

    def track(self, name, value):
        """Keep the largest value of a measured quantity (e.g. observed error)."""
        value = float(value)
        if not (value <= self.extremes.get(name, -np.inf)):
            self.extremes[name] = value

    def violate(self, key, msg, **detail):
        if len(self.violations) < 50:
            self.violations.append(dict(key=key, msg=str(msg)[:1500], detail=_plain(detail)))

    def check(self, cond, key, msg="", **detail):
        self.counts["oracle_checks"] += 1
        if not cond:
            self.violate(key, msg() if callable(msg) else msg, **detail)
        return bool(cond)

    def close(self, key, got, want, rtol=0.0, atol=0.0, msg="", equal_nan=True, **detail):
        """Element-wise |got-want| <= atol + rtol*|want|, same shape."""
        self.counts["oracle_checks"] += 1
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.violate(key, f"{msg} shape {got.shape} != expected {want.shape}", **detail)
            return False
        if got.size == 0:
            return True
        with np.errstate(invalid="ignore"):
            bad = ~(np.abs(got - want) <= atol + rtol * np.abs(want))
        bad &= ~(got == want)
        if equal_nan:
            bad &= ~(np.isnan(got) & np.isnan(want))
        self.counts["values_compared"] += got.size
        if bad.any():
            i = np.argwhere(bad)[0]
            t = tuple(int(v) for v in i)
            self.violate(key, f"{msg} {int(bad.sum())} of {got.size} values differ; first at {t}: "
                         f"got {got[t]!r}, expected {want[t]!r}", **detail)
            return False
        return True

    @contextlib.contextmanager
    def no_raise(self, key, msg="", **detail):
        """The code under test must not raise on this (valid) input."""
        try:
            yield
        except Violation:
            raise
        except Exception as e:  # noqa
            fr = repo.repo_frames(e.__traceback__)
            where = f"{fr[-1].filename}:{fr[-1].lineno}" if fr else "?"
            self.violate(key, f"{msg} raised {type(e).__name__}: {str(e)[:300]} at {where}",
                         **detail)
            raise StopCase from e

    def dump(self):
        return dict(counts=self.counts, violations=self.violations, keys=self.keys,
                    sample=_plain(self.sample), extremes=self.extremes)


UNREADABLE = (LookupError, ValueError, TypeError, AttributeError, FileNotFoundError, StopIteration, ZeroDivisionError)


class StopCase(Exception):
    """Give up on a case whose violation has been recorded."""


def _run_one(fn, case, seed):
    obs = Obs()
    t0 = time.time()
    harness_error = None
    try:
        fn(case, np.random.default_rng([seed, *[ord(c) for c in repr(case["id"])]]), obs)
    except StopCase:
        pass
    except Violation as v:
        obs.violate(v.key, v.msg, **v.detail)
    except Exception as e:  # noqa
        fr = repo.repo_frames(e.__traceback__)
        tb = traceback.format_exc()[-2500:]
        if fr:
            obs.violate(f"exception/{type(e).__name__}",
                        f"{type(e).__name__}: {str(e)[:300]} at {fr[-1].filename}:{fr[-1].lineno}"
                        " on valid input", traceback=tb)
        elif isinstance(e, UNREADABLE):
            # the oracle found no value, file, column or shape of the kind it needs
            obs.violate(f"unreadable/{type(e).__name__}", f"what was observed cannot be judged: {type(e).__name__}: {str(e)[:300]}", traceback=tb)
        else:
            harness_error = tb
    out = obs.dump()
    out["harness_error"] = harness_error
    out["wall"] = time.time() - t0
    return out


def _child(fn, cases, idxs, seed, wfd, scratch):
    os.setpgid(0, 0)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get("QV_DEBUG"):
        err = os.open(str(scratch / f"stderr.{os.getpid()}"), os.O_RDWR | os.O_CREAT)
        os.dup2(err, 2)
    w = os.fdopen(wfd, "wb", buffering=0)

    def send(obj):
        b = pickle.dumps(obj)
        b = len(b).to_bytes(8, "little") + b
        while b:
            n = w.write(b)
            b = b[n:]
    for i in idxs:
        d = scratch / f"case{i}"
        d.mkdir(parents=True, exist_ok=True)
        os.environ["QV_CASE_DIR"] = str(d)
        send(("start", i))
        res = _run_one(fn, cases[i], seed)
        send(("done", i, res))
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    send(("end",))
    w.close()
    os._exit(0)


def case_dir():
    return pathlib.Path(os.environ["QV_CASE_DIR"])


class Worker:
    def __init__(self, fn, cases, idxs, seed, scratch):
        self.idxs = list(idxs)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                _child(fn, cases, self.idxs, seed, w, scratch)
            except BaseException:  # noqa
                traceback.print_exc()
            os._exit(77)
        os.close(w)
        self.pid, self.fd, self.buf = pid, r, b""
        self.current, self.t0, self.done, self.ended = None, time.time(), [], False

    def kill(self):
        with contextlib.suppress(OSError):
            os.killpg(self.pid, signal.SIGKILL)
        with contextlib.suppress(OSError):
            os.kill(self.pid, signal.SIGKILL)


def run_cases(fn, cases, seed, nproc=8, case_timeout=120, budget=None, log=None):
    """Run every case in forked workers; survive crashes and hangs of the code under test.

    Returns a list of (case, result) for the cases that ran.
    """
    scratch = repo.SCRATCH / f"cases_{fn.__module__.split('.')[-1]}_{int(time.time()*1e3) % 10**8}"
    scratch.mkdir(parents=True)
    t_start = time.time()
    pending = collections.deque(range(len(cases)))
    results = {}
    workers = []
    chunk = 1 if len(cases) <= 8 * nproc else max(1, min(50, len(cases) // (nproc * 8)))

    def spawn():
        idxs = [pending.popleft() for _ in range(min(chunk, len(pending)))]
        workers.append(Worker(fn, cases, idxs, seed, scratch))

    def reap(wk, crash=None):
        workers.remove(wk)
        os.close(wk.fd)
        _, st = os.waitpid(wk.pid, 0)
        left = [i for i in wk.idxs if i not in wk.done]
        if wk.current is not None:
            err = ""
            p = scratch / f"stderr.{wk.pid}"
            if p.exists():
                err = p.read_text(errors="replace")[-4000:]
            what = crash or f"worker process died (wait status {st})"
            sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
            o = Obs()
            harness_error = None
            if crash or sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE,
                                signal.SIGILL) or "Sanitizer" in err or "runtime error" in err:
                o.violate("hang" if crash else "crash", f"{what}; stderr tail: {err[-1500:]}")
            else:
                harness_error = f"{what}; stderr tail: {err[-1500:]}"
            results[wk.current] = {**o.dump(), "harness_error": harness_error,
                                   "wall": time.time() - wk.t0}
            left = [i for i in left if i != wk.current]
        pending.extendleft(reversed(left))

    while pending or workers:
        over = budget is not None and time.time() - t_start > budget
        if over:
            pending.clear()
        while pending and len(workers) < nproc:
            spawn()
        if not workers:
            break
        rl, _, _ = select.select([w.fd for w in workers], [], [], 0.5)
        for wk in list(workers):
            if wk.fd in rl:
                b = os.read(wk.fd, 1 << 20)
                if not b:
                    reap(wk)
                    continue
                wk.buf += b
                while len(wk.buf) >= 8:
                    n = int.from_bytes(wk.buf[:8], "little")
                    if len(wk.buf) < 8 + n:
                        break
                    msg = pickle.loads(wk.buf[8:8 + n])
                    wk.buf = wk.buf[8 + n:]
                    if msg[0] == "start":
                        wk.current, wk.t0 = msg[1], time.time()
                    elif msg[0] == "done":
                        results[msg[1]] = msg[2]
                        wk.done.append(msg[1])
                        wk.current = None
            elif wk.current is not None and time.time() - wk.t0 > case_timeout:
                wk.kill()
                reap(wk, crash=f"no result within {case_timeout} s")
    return [(cases[i], results[i]) for i in sorted(results)]


class Check:
    """One property's check: collects results, applies known findings, writes evidence."""

    def __init__(self, prop, tier, seed, level="exploration"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.counts = collections.Counter()
        self.keys, self.samples, self.violations, self.errors = set(), [], [], []
        self.extremes = {}
        self.evaluations = 0
        self.required = {}
        self.left_out = 0
        self.rule = ""
        self.assumptions = []
        self.extra = {}

    @property
    def quick(self):
        return self.tier != "thorough"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def run(self, fn, cases, **kw):
        kw.setdefault("budget", self.pick(150, 700))
        for i, c in enumerate(cases):
            c.setdefault("id", f"{fn.__name__}-{i}")
        only = getattr(self, "replay", None)
        if only:
            if only["fn"] != fn.__name__:
                return []
            cases = [c for c in cases if c["id"] == only["case"]["id"]] or [only["case"]]
        res = run_cases(fn, cases, self.seed, **kw)
        self.left_out += len(cases) - len(res)
        for case, r in res:
            self.evaluations += 1
            self.counts.update(r["counts"])
            self.counts[f"cases_{fn.__name__}"] += 1
            self.keys |= {(fn.__name__, k) for k in r["keys"]}
            for k, v in r["extremes"].items():
                self.extremes[k] = max(v, self.extremes.get(k, -np.inf))
            if r["sample"] is not None and sum(s["from"] == fn.__name__ for s in self.samples) < 3:
                self.samples.append({"from": fn.__name__, "case": _plain(case), "seen": r["sample"]})
            for v in r["violations"]:
                self.violations.append({**v, "fn": fn.__name__, "case": case})
            if r["harness_error"]:
                self.errors.append((fn.__name__, case["id"], r["harness_error"]))
        return res

    def require(self, **minima):
        """Monitors must have seen at least this much, else the run decides nothing."""
        self.required.update(minima)

    def finish(self):
        known = json.loads((VERIF / "known_findings.json").read_text())["findings"]
        known = [k for k in known if k["property"] == self.prop and k["status"] == "open"]
        seen_known, fresh = {}, []
        for v in self.violations:
            hit = next((k for k in known if v["key"] == k["key"]), None)
            if hit:
                seen_known.setdefault(hit["key"], (hit, 0))
                seen_known[hit["key"]] = (hit, seen_known[hit["key"]][1] + 1)
            else:
                fresh.append(v)
        wall = time.time() - self.t0
        short = {} if getattr(self, "replay", None) or self.errors else {
            k: (self.counts.get(k, 0), n) for k, n in self.required.items() if self.counts.get(k, 0) < n}
        if short and not self.left_out and not fresh:
            # every case ran to its end, and yet the code did not do what these cases are known to make it do
            fresh.append(dict(key="unseen", msg=f"monitors saw too little (seen, at least): {short}", detail={}, fn="-", case=dict(id="-")))
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.keys), rule=self.rule,
                   samples=self.samples or [{"note": "no sample"}],
                   monitors={k: int(v) for k, v in sorted(self.counts.items())},
                   largest_observed={k: float(v) for k, v in sorted(self.extremes.items())},
                   required_observations=self.required, **self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(fresh),
                  known_findings=sorted(seen_known))
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.prop}.json").write_text(json.dumps(_plain(ev), indent=1))
        for key, (k, n) in sorted(seen_known.items()):
            print(f"KNOWN-FINDING: property={self.prop} {key}: {k['what']} (seen {n}x)")
        if fresh:
            path = VERIF / "evidence" / f"replay-{self.prop}.json"
            path.write_text(json.dumps(dict(property=self.prop, tier=self.tier, seed=self.seed,
                                            violations=_plain(fresh[:20])), indent=1))
            for v in fresh[:5]:
                print(f"  {v['fn']} case {v['case']['id']}: {v['key']}: {v['msg']}"[:900])
            byk = collections.Counter(v["key"] for v in fresh)
            print("  violated:", dict(byk))
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        if self.errors:
            for fn, cid, tb in self.errors[:1]:
                print(f"HARNESS ERROR in {fn} case {cid}:\n{tb}")
            print(f"{len(self.errors)} harness errors")
            return 3
        if short:
            print(f"INCONCLUSIVE: monitors saw too little: {short}")
            return 4
        print(f"OK property={self.prop} tier={self.tier} seed={self.seed} cases={self.evaluations} "
              f"distinct={len(self.keys)} oracle_checks={self.counts['oracle_checks']} "
              f"values={self.counts['values_compared']} wall={wall:.1f}s "
              f"max={ {k: float('%.3g' % v) for k, v in sorted(self.extremes.items())} }")
        return 0
