"""Writes MANIFEST.json: which properties are claimed, with what commands."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
REF = "Held on the executions counted in the evidence, judged against an independent reference (harness/src/refmodel.rs, oracle.rs); nothing is said about engines outside the generated families. Trusts the reference formulas and the numerical limits stated in DESIGN.md."
T = {
 "C01": "offline monitor over recorded runs: independent elimination of the balance equations at every instant",
 "C02": "offline monitor over recorded runs: independent integration of the dynamics, tolerance ladder",
 "C03": "offline conservation monitor over recorded cycles (mass and energy inventories)",
 "C04": "offline monitor over recorded grids and refused requests",
 "C05": "monitor of cyclic closure under adversarial loop tolerances",
 "C06": "trace monitor of outer iterations with exchangers that settle at different speeds",
 "C07": "trace monitor counting iterations against a reference successive substitution, searched budgets",
 "C08": "hostile inputs and injected callback faults under evaluation budgets in limited worker processes",
 "C09": "offline monitor recomputing averages and extremes from reported series",
 "C10": "offline monitor recomputing pressure drops, p-V work, powers and torque",
 "C11": "offline monitor recomputing heats and efficiency, first-law balance",
 "C12": "monitor of drive functions probed at many instants against linkage geometry",
 "C13": "monitor of fluid answers against identities, derivatives and constants",
 "C14": "monitor of exchanger answers over random states against their laws",
 "C15": "differential monitor: configured run against directly constructed run; corrupted configurations",
 "C16": "differential monitor: legacy configuration against modern one",
 "C17": "differential monitor: same engine with three matrix solvers",
 "C18": "bit-exact fingerprints of repeated, interleaved, concurrent and fresh-process runs",
 "C19": "AddressSanitizer, ThreadSanitizer, Miri and overflow-checked workloads",
 "C20": "metamorphic monitor: scaled engines",
 "C21": "metamorphic monitor: resolutions and tolerances",
 "C22": "trace monitor: every consultation of a component against the recomputed state of its iteration",
 "C24": "offline monitor comparing the engine's public state with the results extracted from it",
 "C25": "metamorphic monitor: drives that start at another instant",
 "C26": "metamorphic monitor: other hydraulic resistances and parasitics",
 "C27": "metamorphic monitor: mirror-image engines",
 "C28": "offline entropy-balance and Carnot monitor over recorded cycles",
 "C29": "metamorphic monitor: equivalent descriptions of one engine",
 "C23": "metamorphic monitor: shifted enthalpy zero, real gases against the generic reference",
}
import subprocess
claimed = set(open(R + '/tools/claimed.txt').read().split())
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration", "level_note": REF})
    else:
        na.append({"property": i, "reason": "the check of this property is still being built"})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: everything is observed through the crate's public traits and results", "source_commits": []}}
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
open(R + '/MANIFEST.json', 'a').write("\n")
