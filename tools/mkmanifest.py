#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from the list of checked properties (mc/src/props.rs)."""
import json, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(root + "/mc/src/props.rs").read()
done = re.findall(r'"(C\d\d)"', src.split("PROPS")[1].split(";")[0])
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
FAULT = {"C07", "C08", "C15", "C24", "C28"}
TECH = {
    "C05": "explicit exploration of all operation histories of the real readers against a cursor model",
    "C07": "exhaustive enumeration of cut and failure points over the real readers",
    "C08": "exhaustive enumeration of delivery schedules (short reads, interruptions) with a deviation bound, on the real readers",
    "C14": "explicit exploration of all call histories of the real writers against a life-cycle model",
    "C15": "exhaustive enumeration of sink failure points and short-write schedules over the real writers",
    "C16": "explicit-state breadth-first search of edit histories on the real objects against a record model",
    "C28": "exhaustive enumeration of single and paired damages of the compressed data over the real readers",
    "C30": "exhaustive enumeration of all interleavings of the operations of several real readers and writers, against their isolated runs",
    "C31": "exhaustive enumeration of damages of documents over the real readers, against an independent parser",
    "C33": "explicit exploration of read-then-hand-back histories of the real readers",
    "C34": "exhaustive enumeration of inputs and delivery schedules over the real readers, with a monitor on the source",
    "C24": "exhaustive enumeration of cut and failure points over the real readers",
}
DEFAULT = "stateless bounded-exhaustive model checking of the real code against a reference model"
NOTE = ("Every choice sequence of the listed scenarios is executed on the real code built from /repo's working tree and compared with an independent "
        "reference model; complete within the stated alphabets and bounds (see DESIGN.md and the evidence file), silent about values outside them. "
        "Trusts the reference model and the harness's own encoders and parsers.")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in done:
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, DEFAULT),
                       "level": "fault_enumeration" if i in FAULT else "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "check under construction"})
import subprocess
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("hook:")]
m = {"version": 1, "setup_cmd": "./check build", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "cfg(osmio_verif)", "enable": "RUSTFLAGS='--cfg osmio_verif' cargo build (done by ./check)", "source_commits": hooks},
     "notes": "One Rust binary (mc/) linked against /repo's crate holds the explorer, the reference models and all scenarios; ./check builds and runs it. ./check replay FILE replays a violation."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not yet")
