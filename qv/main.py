import argparse, importlib, json, logging, os, sys, warnings
warnings.filterwarnings("ignore")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.selftest:
        from . import repo
        repo.load(repo.build_release())
        print("build and import work")
        return 0
    replay = None
    if a.replay:
        j = json.load(open(a.replay))
        a.seed, a.tier, replay = j["seed"], j["tier"], j["violations"][0]
        if replay["fn"] == "-":
            replay = None
    from . import repo, harness
    try:
        repo.load(repo.build_release())
    except (repo.BuildError, Exception) as e:  # noqa
        print(f"cannot build or import the code under test: {e}")
        return 2
    mod = importlib.import_module(f"checks.{a.prop.lower()}")   # after the code under test is loaded
    logging.disable(logging.INFO)
    chk = harness.Check(a.prop, a.tier if a.tier == "thorough" else "quick", a.seed,
                        getattr(mod, "LEVEL", "exploration"))
    chk.replay = replay
    mod.main(chk)
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())
