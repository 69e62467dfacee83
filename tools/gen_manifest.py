#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
checks = {
 "C01": "seeded runs of provers and verifiers over a faulty channel with crashes and restarts; every undamaged proof must be accepted",
 "C02": "seeded damage of proofs in transit (bits, fields, splices, truncation); acceptance of a changed proof is a violation",
 "C03": "seeded Byzantine provers with gate-violating assignments; acceptance is a violation",
 "C04": "seeded Byzantine provers cheating in the accumulator columns; acceptance is a violation",
 "C05": "seeded Byzantine provers cheating in the lookup helper columns; acceptance is a violation",
 "C06": "seeded Byzantine provers and channels forging claimed evaluations and opening data; acceptance is a violation",
 "C07": "seeded histories, interleavings, crashes and backend faults on long-lived verifiers against a freshly started reference process",
 "C08": "seeded histories, interleavings, crashes and backend faults on long-lived provers against a freshly started reference process",
 "C09": "seeded damage of proof bytes and structure with panic and hang detection",
 "C10": "seeded delivery of proofs to verifiers of a different statement",
 "C11": "backend error injected at each call of setup, proving and verification",
 "C12": "recorded commitments and randomness of simulated sessions, forked random streams",
 "C13": "recorded transcripts of simulated sessions, one message changed at a time",
 "C14": "seeded assignments on mock prover nodes against a reference evaluator and the real prover and verifier",
 "C15": "short, interrupted, failing and full simulated streams under proof encoding and decoding",
 "C16": "seeded parties and aggregators folding KZG commitments over a channel that reorders, repeats and drops, with crashes, checkpoints and merges; aggregates against independent group arithmetic",
 "C17": "seeded formulas built independently by every role and again after restarts, against a reference evaluator, and sessions running on such formulas",
 "C18": "seeded violations put to the honest prover between crashes, backend faults and satisfied statements on the same objects; acceptance, or a trace left behind, is a violation",
 "C19": "simulated provers, long-lived verifiers and adversaries of the opening argument alone, with crashes, backend faults, damaged proofs and false claims absorbed by a cheating prover; verdicts against the polynomials' own values"
}
notes = {
 "C16": "Seeded sampling of parties, orders and faults, not exhaustive. Only the real KZG10 over BLS12-381; group and field arithmetic underneath is trusted.",
 "C17": "Seeded sampling of formulas, not exhaustive. A formula's value depends on no fault; the simulation contributes independent construction by every role, restarts and whole sessions.",
}
claimed = json.load(open(os.path.join(root, "tools", "claimed.json")))
m = {
 "version": 1,
 "setup_cmd": "./check --build",
 "hooks": {
  "guard": "cfg zok_sim (module visibility) and cfg zok_sim_taps (value taps); both off by default",
  "enable": "RUSTFLAGS='--cfg zok_sim --cfg zok_sim_taps', set by /verif/check",
  "source_commits": ["1a6a849"],
 },
 "checks": [],
 "not_applicable": [
 ],
 "notes": "All checks share one simulator (sim/). A run is a pure function of VERIF_SEED, property and run index. Replay: ./check --replay FILE.",
}
m["hooks"]["source_commits"] = [subprocess.run(["git", "-C", "/repo", "rev-parse", c], capture_output=True, text=True).stdout.strip() or c for c in m["hooks"]["source_commits"]]
if os.environ.get("KEEP_COMMITS"):
    m["hooks"]["source_commits"] = json.load(open(os.path.join(root, "MANIFEST.json")))["hooks"]["source_commits"]
for p in claimed:
    m["checks"].append({
     "property": p,
     "quick_cmd": f"./check {p} quick",
     "thorough_cmd": f"./check {p} thorough",
     "technique": T + checks[p],
     "level": "exploration",
     "level_note": notes.get(p) or "Seeded sampling of circuits, schedules and faults, not exhaustive. Most runs use a field-valued stand-in for the KZG10 commitment backend, a share of them the real KZG10 over BLS12-381; everything else is the real code.",
    })
for p in checks:
    if p not in claimed:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
