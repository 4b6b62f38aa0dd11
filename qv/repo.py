"""Imports the code under test from /repo, with the C kernels built from /repo's current
sources into the scratch directory. Nothing is ever written to /repo."""
import contextlib, ctypes, io, os, pathlib, shutil, subprocess, sys, sysconfig

REPO = pathlib.Path(os.environ.get("QV_REPO", "/repo"))
SCRATCH = pathlib.Path(os.environ["QV_SCRATCH"])
EXT = sysconfig.get_config_var("EXT_SUFFIX")
CSRC = REPO / "quakemigrate" / "core" / "src"


class BuildError(Exception):
    pass


def stage_sources(dest):
    """Copy what the extension build needs out of /repo."""
    dest.mkdir(parents=True, exist_ok=True)
    for name in ("setup.py", "pyproject.toml", "setup.cfg"):
        if (REPO / name).exists():
            shutil.copy(REPO / name, dest / name)
    shutil.copytree(CSRC, dest / "quakemigrate/core/src",
                    ignore=shutil.ignore_patterns("*.so", "*.o"))
    return dest


def build_release():
    """The library exactly as the project's own setup.py builds it."""
    dest = stage_sources(SCRATCH / "build_release")
    r = subprocess.run([sys.executable, "-W", "ignore", "setup.py", "-q", "build_ext",
                        "--inplace", "--force"], cwd=dest, capture_output=True, text=True,
                       env={**os.environ, "LD_PRELOAD": ""})
    lib = dest / "quakemigrate/core/src" / ("qmlib" + EXT)
    if r.returncode or not lib.exists():
        raise BuildError(r.stdout + r.stderr)
    return lib


def build_custom(tag, cc, flags, extra=()):
    """The same C sources with other compiler flags (sanitizers, -O0, ...)."""
    dest = SCRATCH / f"build_{tag}"
    dest.mkdir(parents=True, exist_ok=True)
    lib = dest / ("qmlib" + EXT)
    srcs = sorted(str(p) for p in CSRC.glob("*.c"))
    cmd = [cc, *flags, "-shared", "-fPIC", f"-I{CSRC}", *srcs, *extra, "-lm", "-o", str(lib)]
    r = subprocess.run(cmd, capture_output=True, text=True, env={**os.environ, "LD_PRELOAD": ""})
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout + r.stderr)
    return lib


def load(lib):
    """Import quakemigrate from /repo with ctypes loads of qmlib redirected to `lib`."""
    real = ctypes.CDLL

    class Redirect(real):
        def __init__(self, name, *a, **k):
            if name and "qmlib" in os.path.basename(str(name)):
                name = str(lib)
            super().__init__(name, *a, **k)

    if "quakemigrate" in sys.modules:
        raise BuildError("the package was imported before its kernels were rebuilt")
    ctypes.CDLL = Redirect
    sys.path.insert(0, str(REPO))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            import quakemigrate
            import quakemigrate.core.lib, quakemigrate.io, quakemigrate.signal.scan  # noqa
            import quakemigrate.signal.trigger, quakemigrate.lut, quakemigrate.export  # noqa
            import quakemigrate.signal.local_mag, quakemigrate.util  # noqa
    finally:
        ctypes.CDLL = real
    got = pathlib.Path(quakemigrate.__file__).resolve().parent.parent
    if got != REPO.resolve():
        raise BuildError(f"imported quakemigrate from {got}, not {REPO}")
    return quakemigrate


def patch_everywhere(original, replacement):
    """Replace every reference to a function in the modules of the package, however it
    was imported there."""
    n = 0
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == "quakemigrate" or name.startswith("quakemigrate.")):
            continue
        for attr, val in list(vars(mod).items()):
            if val is original:
                setattr(mod, attr, replacement)
                n += 1
    return n


def in_order(fn, a, k):
    """The values a call passes, in the order of the function's parameters."""
    import inspect
    try:
        b = inspect.signature(inspect.unwrap(fn)).bind(*a, **k)
    except (TypeError, ValueError):
        return [*a, *k.values()]
    if any(p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in b.signature.parameters.values()):
        return [*a, *k.values()]
    b.apply_defaults()
    return list(b.arguments.values())


def repo_frames(tb):
    import traceback
    return [f for f in traceback.extract_tb(tb) if str(REPO / "quakemigrate") in f.filename]
