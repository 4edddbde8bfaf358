#!/usr/bin/env python3
"""Source of MANIFEST.json and known_findings.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
LIN = "recorded concurrent histories under injected scheduling noise, checked for linearizability (porcupine) per key; race detector"
TECH = {
    "C01": LIN,
    "C02": "online iteration monitor over timestamped concurrent writes; race detector",
    "C03": "random operation histories compared step by step with a plain dictionary",
    "C04": "history monitor (chain of replaced values, callback log) with panicking callbacks; race detector",
    "C05": "mutual-exclusion, progress and try-lock monitors under noise; race detector on unguarded data",
    "C06": "creation/removal event log judged by a real-time interval monitor; injected failures and panics",
    "C07": "exactly-once close accounting over recorded histories with injected close errors; deadlock monitor",
    "C08": "exactly-once/visibility monitor over recorded writes and reads; race detector",
    "C09": "conservation and order accounting of channel contents; goroutine-state monitor for blocked calls",
    "C10": "outcome, exactly-once cleanup, promptness and leak monitors over injected behaviours",
    "C11": "attempt log compared with a model over random outcome scripts",
    "C12": "online occupancy counter, slot conservation and exactly-once accounting; goroutine-state monitor",
    "C13": "multiset, occupancy and completion monitors over recorded mapper events; race detector",
    "C14": "cancellation at counted event positions; delivery accounting, leak and deadlock monitors",
    "C15": "live-buffer overlap monitor (address ranges and fill patterns) over random histories; race detector",
    "C16": "round-trip differential under randomly fragmenting readers; later-mutation monitor; race detector",
    "C17": "fault injection at every byte position of readers and writers; error identity oracle",
    "C18": "holder-identity and stream-cross-talk monitors over pooled readers and writers; race detector",
    "C19": "recorded ring histories checked for linearizability (porcupine) and a list model; race detector",
    "C20": "random pipelines compared with a list model, with blocked-goroutine and leak monitors",
    "C21": "per-item call accounting, occupancy and completion monitors under noise; race detector",
    "C22": "never-ending, panicking and abandoned sources with goroutine-state (deadlock, leak) monitors",
    "C23": "per-source order and exactly-once monitors over recorded deliveries; race detector",
    "C24": "random add/query histories compared with a list model",
    "C25": "random write/grow/reset histories compared with a list model",
    "C26": "boundary-biased and random arguments compared with exact definitions",
    "C27": "random and small-scope texts compared with character-list models",
    "C28": "random related texts compared with character-list definitions",
    "C29": "random and small-scope abbreviations judged by a position oracle over distinct characters",
    "C30": "race detector over plain-memory payloads handed through every facility under scheduling noise",
}
CONC = "Held on the executions observed: thousands of short noisy schedules per run (counts, distinct interleavings and noise points hit are in the evidence). Trusts the Go runtime, the race detector and the harness's own models; schedules not produced are not covered."
SEQ = "Held on the generated inputs and histories only (counts in the evidence). Trusts the harness's reference model and the Go standard library it uses."
seq = {"C03", "C11", "C16", "C17", "C20", "C24", "C25", "C26", "C27", "C28", "C29"}
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --warm",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "runtime monitoring: " + TECH[p["id"]],
        "level": "exploration",
        "level_note": SEQ if p["id"] in seq else CONC,
    } for p in props],
    "not_applicable": [],
    "notes": "No hooks live in /repo: noise points are inserted into copies of its files and compiled through 'go build -overlay'.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
fixed = [l.strip() for l in open(os.path.join(HERE, "tools", "fixed.txt")) if l.strip()]
json.dump({"findings": [], "fixed": fixed}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
