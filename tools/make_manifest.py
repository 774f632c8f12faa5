#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules present in props/"""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
na = json.load(open(os.path.join(here, "tools", "not_applicable.json")))
nas = {x["property"] for x in na}
NOTE = {
    "F01": "seeded search over histories of edits, runs, kills and faults on the real rewriting code against an independent model of regions",
    "F02": "every fault kind at each of the first operations of every kind is enumerated on a base scenario, plus seeded search over random fault sequences; power loss is modelled as loss of unsynced data and of an arbitrary suffix of metadata operations",
    "F03": "every marker malformation on every output is enumerated, plus seeded search combining them with failing file operations",
    "F04": "seeded search over histories that return to the same headers and options after kills, failures and formatter runs; fixpoint compared byte for byte",
    "F05": "seeded search over header lists with failing headers and faults, compared with every prefix result of one in-memory generator",
    "F06": "the reader's and writer's locale is a seam: each scenario is repeated under seeded locales and compared with the UTF-8 run",
    "F07": "every combination of stub path and formatter fate is enumerated; seeded search adds histories and file faults; child processes are simulated, the formatter itself is the real one",
    "A01": "seeded search over include graphs and read faults against an independent include model",
    "A02": "seeded search over kills, faults and edits during regeneration of the amalgamated header; converges and rewrites nothing when unchanged",
    "B01": "seeded search over thread interleavings and processes sharing a random state; the external tool is played by the native srcML library through the files named on its command line",
    "B02": "every fate of the external tool and every fault position in the file exchange, within seeded histories of calls",
    "C01": "seeded search over thread interleavings at source-line granularity (real threads, exactly one runs at a time) compared with each job run alone in a fresh process",
    "C02": "seeded search over interleaved and re-entrant operation sequences on several generators, compared with each run alone in a fresh process",
    "D01": "the same headers and options in fresh interpreters with other hash seeds, and in processes with other clocks, directories, environment, random state and histories; digests compared",
    "H01": "seeded search over sequences of configuring and using several option objects, compared with fresh objects in fresh processes",
    "H02": "an exception or interrupt at a seeded executed line (or callback, or read) of processing, compared with a twin generator that never saw the header",
    "H03": "seeded search over query, write and submission sequences; every answer compared with the model answer",
    "M01": "seeded search over histories and thread interleavings of parses; each diagnostic is checked against the text of its own header",
    "S01": "seeded search over sequences of questions, interruptions, modifications of copies and other parses, and over thread interleavings; every answer compared with the only question asked of a fresh tree in a fresh process",
    "V01": "every fate of every child process and seeded file faults; the children (cmake, pytest) are simulated programs acting on the real files",
    "V02": "every combination of removal and reuse settings with every failing step; directory trees compared before and after",
    "P01": "seeded search over kills, faults and malformed markers during publication; both files compared with an independent model",
}
checks, missing = [], []
for p in props:
    i = p["id"]
    if i in nas:
        continue
    if not os.path.exists(os.path.join(here, "props", i.lower() + ".py")):
        missing.append({"property": i, "reason": "check not built yet"})
        continue
    src = open(os.path.join(here, "props", i.lower() + ".py")).read()
    level = "fault_enumeration" if 'LEVEL = "fault_enumeration"' in src else "exploration"
    checks.append(dict(property=i, quick_cmd=f"python3 check.py --property {i} --tier quick", thorough_cmd=f"python3 check.py --property {i} --tier thorough",
                       evidence_file=f"evidence/{i}.json", technique="deterministic simulation with fault injection (seeded search, replayable plans)", level=level,
                       level_note=NOTE[i] + ". No guarantee beyond the explored runs; trusts the simulated environment (file system seam, child processes, clock) described in DESIGN.md."))
m = dict(version=1, setup_cmd="python3 check.py --setup",
         hooks=dict(guard="none", enable="no hook is needed in the repository: every seam is installed from outside, in the simulated process", source_commits=[]),
         checks=checks, not_applicable=na + missing,
         notes="All checks: python3 check.py --property ID --tier quick|thorough; replay: python3 check.py --replay FILE; determinism: python3 check.py --selftest ID. Seeds: VERIF_SEED.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", "missing", [x["property"] for x in missing])
