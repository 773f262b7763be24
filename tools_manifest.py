"""Writes MANIFEST.json (kept next to it so the texts stay in one place)."""
import json, os
PY = "/opt/venv/bin/python"
STEP = "reference-model monitor of every step of real runs"
T = {
 "C01": ("exact replay of every iteration against a dense reference step; distribution tests of the recovered noise", ""),
 "C02": ("recomputation of the Metropolis-Hastings ratio of every recorded iteration; acceptance frequencies pooled against it", ""),
 "C03": ("trace checker for acceptances and step sizes", ""),
 "C04": ("replay of every iteration against an independent Chebyshev recursion; stability runs", ""),
 "C05": ("offline comparison of saved samples with the unthinned trajectory of the same seed", ""),
 "C06": ("consistency monitor over every saved record", ""),
 "C07": ("differential runs, digests of all user-owned arrays before and after", ""),
 "C08": ("observation of the first evaluated model; distribution tests of default starts", ""),
 "C09": ("finite-difference oracle on the operator's own predictions and a dense reference gradient", ""),
 "C10": ("differential monitor across equivalent data error statements, dense reference", ""),
 "C11": ("dot-product identity, linearity and purity monitors", ""),
 "C12": ("round-trip, dot-product and layout monitors over random tilings", ""),
 "C13": ("layout monitor: single-multipole probes and position-coded coefficients", ""),
 "C14": ("closed-form and optimality oracle on hostile values", ""),
 "C15": ("proximal optimality (subgradient) oracle and independent weights", ""),
 "C16": ("independent harmonic-space reference of the lensing kernel", ""),
 "C17": ("reference masks by direct geometry; round-trip monitors", ""),
 "C18": ("quadrature of every spherical harmonic; geometric reference areas", ""),
 "C19": ("read-back of the file with h5py compared bit for bit", ""),
 "C20": ("brute-force quantiles and regions, permutation monitor", ""),
 "C21": ("exact integer recursion and trigonometric identities", ""),
 "C22": ("round-trip monitor on labelled coefficients", ""),
 "C23": ("inspection of the drawn artists against an independent projection", ""),
 "C24": ("long-run statistics against exact posteriors", "statistical: |z|<7 on batch means"),
 "C26": ("end-to-end runs of the scripts in scratch folders, replayed by a sampler built by hand from the same random state", ""),
 "C27": ("end-to-end runs of the scripts on generated result files; saved arrays, recorded figures and printed values against independent summaries", ""),
 "C28": ("every printed line parsed and compared with the trajectory of the same seed", ""),
 "C29": ("fault injection at every kind of call site, traces compared with the undisturbed run", ""),
 "C30": ("the script run in scratch folders against a recording stand-in of the server, with faults at random bytes; files read back", ""),
 "C25": ("reference formulae, stream monitors and direct healpy calls", ""),
}
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": f"{PY} -m compileall -q vmon check.py >/dev/null 2>&1; {PY} -c 'import numpy, scipy, h5py, pyssht, pys2let, healpy, matplotlib'",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the monitors use the package's own extension points. Repairs of genuine defects are the 'fix:' commits listed in known_findings.txt."}
for p in props:
    t, n = T[p["id"]]
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": f"{PY} check.py {p['id']}",
        "thorough_cmd": f"{PY} check.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "runtime monitoring: " + t,
        "level": "exploration",
        "level_note": "Held on the executions produced (counts in the evidence file); trusts numpy/scipy, the oracle in "
                      f"vmon/checks/{p['id'].lower()}.py" + (", and is " + n if n else "") + ". Says nothing about inputs the workloads do not reach."})
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
