"""Writes MANIFEST.json from the property modules."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

WHAT = {
    "C01": "seeded lives of a model with crashes, torn and lost writes on a simulated disk; restored models compared with the saved one in new processes",
    "C02": "seeded training runs killed at arbitrary instructions, checkpoints torn or lost, resumed cold or hot; compared with the uninterrupted run",
    "C03": "seeded optimizer histories with failing steps, crashes, reloads; every step compared with an executable reference model of sparse Lion",
    "C04": "seeded training histories with injected exceptions and restarts; outputs in untouched segments compared bit for bit",
    "C05": "threads under a seeded cooperative scheduler that switches at source lines, tensor operations and locks; each call compared with the same call alone",
    "C06": "exceptions injected at every kind of instruction and tensor operation; state and later results compared with a twin that never failed",
    "C07": "batching service in virtual time with drops, duplicates, delays, retries and poison requests; each answer compared with the one given alone",
    "C08": "data-parallel cluster in virtual time with replica crashes, slow replicas and double delivery; sums compared with the full batch",
    "C09": "training histories with chains of refinements interrupted at random instructions and run again; source and target compared",
    "C10": "seeded histories of calls, failures, reloads and siblings; each call compared with a process that never did anything else",
    "C11": "two executions under different simulated clocks, hash seeds, entropy and memory garbage; compared bit for bit",
    "C12": "histories of training, smoothing, crashes during smoothing and restarts; one-sided limits of every link compared",
    "C13": "histories with interrupted initialisations; every link sampled and compared with a new process",
}

checks = []
for pid in sorted(WHAT):
    p = importlib.import_module("holsim.props." + pid.lower())
    checks.append(dict(
        property=pid, quick_cmd="bin/run check " + pid, thorough_cmd="VERIF_TIER=thorough bin/run check " + pid,
        evidence_file="evidence/%s.json" % pid,
        technique="deterministic simulation with fault injection: " + WHAT[pid], level=p.LEVEL,
        level_note=("Seeded search, not exhaustive: %d simulated runs in the quick tier, %d in the thorough tier; a violation is "
                    "minimised and replays exactly. The whole library runs as real code from /repo; simulated: %s. Assumes: %s." % (
                        p.RUNS["quick"], p.RUNS["thorough"], p.SIMULATED, "; ".join(getattr(p, "ASSUMPTIONS", ()) or ("nothing further",))))))
src = open(os.path.join(ROOT, "tools", "not_applicable.json")).read()
json.dump(dict(version=1, setup_cmd="bin/run smoke", checks=checks, not_applicable=json.loads(src),
               notes="No hooks in /repo: the seams are torch dispatch modes, tracing, patched clocks, locks, entropy and disk, all installed from /verif. "
                     "Commits in /repo are fix: commits only (known-findings.txt)."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
