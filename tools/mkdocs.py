#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (kept in one place so that they stay in step)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PIPE_TECH = "TLA+ specification of the pipeline; TLC trace validation of recorded runs"
PIPE_NOTE = ("Every recorded run (harness at small block sizes with AVX2 and portable kernels, and the real program at the production block size) is judged by TLC against the "
             "executable denotation in spec/NdPipe.tla. Randomised over command lines, contents, read sizes and consumption patterns, so bounded sampling, not proof. "
             "Trusts TLC, the harness's I/O shims and the reading of README in the specification.")
P = []


def prop(id, title, statement, over, qtext, why, files, mech, tech=PIPE_TECH, note=PIPE_NOTE, level="model_checking", state=(), observe=("the bytes nd writes and its exit status",), hook="view of the modules as a library, compile-time block size"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note, level=level, state=state, observe=observe, hook=hook))


exec(open(os.path.join(V, "tools", "proptable.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]],
                        "observe_at": list(p["observe"]), "hook_needed": p["hook"]}}) + "\n")
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verification hooks"], capture_output=True, text=True).stdout.split()
man = {"version": 1, "setup_cmd": "./setup.sh",
       "hooks": {"guard": "--cfg nd_verif", "enable": "RUSTFLAGS='--cfg nd_verif' with the path dependency of /verif/harness on /repo (lib/ndlib.py); the nd binary itself is built without hooks",
                 "source_commits": hook},
       "checks": [{"property": p["id"], "quick_cmd": "./check.py %s" % p["id"], "thorough_cmd": "./check.py %s" % p["id"],
                   "technique": p["tech"], "level": p["level"], "level_note": p["note"]} for p in P],
       "not_applicable": [{"property": a, "reason": b} for a, b in NA],
       "notes": "VERIF_TIER selects quick or thorough, VERIF_SEED the random choices; ND_BUDGET overrides the seconds a thorough run may use (default 600)."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
