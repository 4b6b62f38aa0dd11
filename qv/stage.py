"""Runs one stage from what lies on disk, in this process or in one of its own. The same
directory and options always describe the same inputs, so runs can be compared."""
import json
import os
import pathlib
import pickle
import subprocess
import sys


def save_world(w, d, inv=None):
    """Leave on disk everything a stage needs: table, stations, archive, responses."""
    d = pathlib.Path(d)
    w.lut.save(str(d / "table.lut"))
    w.stations.to_csv(d / "stations.csv", index=False)
    if inv is not None:
        with open(d / "inv.pkl", "wb") as f:
            pickle.dump(inv, f)


def objects(d, o):
    """The objects a user's script would make for the stage."""
    import pandas as pd
    from quakemigrate.io import read_lut
    from quakemigrate.signal.local_mag import LocalMag
    from quakemigrate.signal.pickers import GaussianPicker
    from . import synth
    d = pathlib.Path(d)
    lut = read_lut(str(d / o.get("lut", "table.lut")))
    st = pd.read_csv(d / "stations.csv", dtype={"Name": str})
    if o.get("stations"):
        st = st.set_index("Name").loc[o["stations"]].reset_index()
    inv = None
    if o.get("mags") or o.get("inv"):
        with open(d / "inv.pkl", "rb") as f:
            inv = pickle.load(f)
    arch = synth.make_archive(d / "archive", st, o["fmt"], response_inv=inv, read_all_stations=o.get("read_all", False))
    on = lambda: synth.make_onset(o["sr"], position=o.get("position", "centred"), phases=o.get("phases", ("P", "S")),
                                  allow_gaps=o.get("allow_gaps", False), full_timespan=not o.get("allow_gaps", False))
    picker = GaussianPicker(onset=on(), plot_picks=o.get("plot_picks", False))
    mags = None
    if o.get("mags"):
        mags = LocalMag({"signal_window": o.get("signal_window", 1.0), "noise_window": o.get("noise_window", 2.0), "noise_measure": o.get("noise", "RMS"), "bandpass_filter": True, "bandpass_lowcut": 2.0, "bandpass_highcut": 0.4 * o["sr"]},
                        {"A0": o.get("A0", "UK"), "amp_feature": "S_amp"}, plot_amplitudes=o.get("plot_amps", False))
    return lut, arch, on(), picker, mags


def run(d, name, stage, o):
    """o["logging"]: let the package's log messages through (to a muted stdout)."""
    import logging
    if o.get("logging"):
        logging.disable(logging.NOTSET)
    try:
        _run(d, name, stage, o)
    finally:
        if o.get("logging"):
            logging.disable(logging.INFO)
            for h in list(logging.root.handlers):
                logging.root.removeHandler(h)
                h.close()


def _run(d, name, stage, o):
    from . import synth
    d = pathlib.Path(d)
    with synth.quiet():
        lut, arch, onset, picker, mags = objects(d, o)
        kw = dict(o.get("scan", {}))
        if stage == "trigger":
            t = synth.make_trigger(lut, d, name, **o["trigger"])
            t.trigger(o["start"], o["end"], region=o.get("region"), interactive_plot=o.get("interactive", False))
            return
        if stage == "locate":
            kw.update(picker=picker, mags=mags)
        pre, post = kw.pop("pre_cut", None), kw.pop("post_cut", None)
        s = synth.make_scan(arch, lut, onset, d, name, **kw)
        s.pre_cut, s.post_cut = pre, post
        if stage == "detect":
            s.detect(o["start"], o["end"])
        elif o.get("trigger_file"):
            s.locate(trigger_file=o["trigger_file"])
        else:
            s.locate(o["start"], o["end"])


def run_apart(d, name, stage, o, lib, hashseed=0, **env):
    """The same in a new interpreter."""
    root = pathlib.Path(__file__).resolve().parent.parent
    r = subprocess.run([sys.executable, "-W", "ignore", "-m", "qv.stage", str(lib), str(d), name, stage, json.dumps(o)], cwd=root,
                       env={**os.environ, "PYTHONHASHSEED": str(hashseed), "PYTHONPATH": str(root), **{k: str(v) for k, v in env.items()}}, capture_output=True, text=True)
    return r.returncode, r.stderr[-3000:]


if __name__ == "__main__":
    lib, d, name, stage, o = sys.argv[1:]
    import logging
    from qv import repo
    repo.load(lib)
    logging.disable(logging.INFO)
    run(d, name, stage, json.loads(o))
