#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the table below."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E, F = "exploration", "fault_enumeration"
SIM = ("Every system call of the library goes through a simulated OS layer (virtual clock, idle "
       "detection), which is trusted together with the kernel's pipes, sockets and epoll. ")
T = {}


def t(pid, technique, note, level=E):
    T[pid] = (technique, level, note)


exec(open(os.path.join(ROOT, "tools", "techniques.py")).read())

checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(l)["id"]
    if not os.path.exists(os.path.join(ROOT, "props", pid.lower() + ".cpp")):
        na.append({"property": pid, "reason": "The check for this property is not built yet."})
        continue
    tech, level, note = T[pid]
    checks.append({"property": pid, "quick_cmd": "./check " + pid,
                   "thorough_cmd": "./check " + pid, "evidence_file": "evidence/%s.json" % pid,
                   "technique": tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
     "notes": "The library is built unmodified (no hooks); its undefined symbols are redirected "
              "to the simulated OS layer in the built archive. See DESIGN.md."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
