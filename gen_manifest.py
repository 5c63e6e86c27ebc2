#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os
here=os.path.dirname(os.path.abspath(__file__))
T="deterministic simulation with fault injection: seeded search over plans (parties, messages, faults, task schedules) executed in one process, judged per event against a reference"
props=[json.loads(l) for l in open(os.path.join(here,'properties.jsonl'))]
LEVEL={}
NOTE="seeded exploration, not exhaustive: the property held on every simulated execution of the run; probabilities of accidental forgeries are ignored; circuits are small (bounds in DESIGN.md)"
NA={"C21":"pure arithmetic: no concurrency, time, I/O, randomness or second party for a schedule or fault to act on; the group law of curve25519-dalek and field arithmetic are not decided by simulation (used as they are by the simulated systems)"}
CLAIMED=os.environ.get("CLAIMED","C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20").split()
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        checks.append(dict(property=i,quick_cmd=f"bash run.sh {i} quick",thorough_cmd=f"bash run.sh {i} thorough",technique=T,level="exploration",level_note=NOTE))
    else:
        na.append(dict(property=i,reason=NA.get(i,"not yet claimed: machinery under construction")))
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na,
 notes="No hooks in /repo: the seams (rand::Rng parameters, Read/Write, ConstraintSystem, generic digest, merlin and rayon-core crates) already exist and are driven from /verif/sim. Repairs of genuine defects are the 'fix:' commits; see known_findings.json and DESIGN.md.")
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1); open(os.path.join(here,'MANIFEST.json'),'a').write("\n")
