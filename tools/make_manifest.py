"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
props = [json.loads(l) for l in open(V / "properties.jsonl")]
NOTES = json.load(open(V / "tools" / "check_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "checks" / f"{i.lower()}.py").exists() and i in NOTES:
        tech, note = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f"./run {i}", thorough_cmd=f"./run {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique=tech, level="exploration",
                           level_note=note))
    else:
        na.append(dict(property=i, reason="Runtime monitoring applies; the check is not built yet."))
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="QV_HOOKS", enable="No hook is compiled into or committed to /repo: monitors are attached at run time from /verif, "
                    "so nothing has to be enabled.", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Every check runs the code of /repo's working tree (C kernels rebuilt into a scratch folder) under generated workloads with monitors attached.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "unclaimed")
