#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "assurance limited to the executions run; trusts the executable specification in harness/src/model.rs and the interposed clock"
NET = "assurance limited to the executions run; the servers run as real processes under an LD_PRELOAD shim that is trusted to change only ports, timing, clock and read/write sizes"
CONC24 = "assurance limited to the requests and interleavings met; one process, in-memory neighbours"
C = {
    "C01": ("runtime monitoring: model-based differential checking of random request histories on a controlled clock", SEQ),
    "C02": ("runtime monitoring: model-based differential checking of collection histories", SEQ),
    "C03": ("runtime monitoring: model-based checking of histories on a controlled clock with jumps to either side of expiries, and of sessions with the three server processes on a shifted clock", SEQ),
    "C04": ("runtime monitoring: online counting invariants and reclamation monitor over random histories with expiry passes", SEQ),
    "C05": ("runtime monitoring: generate-render-parse round trip under random formatting", SEQ),
    "C06": ("runtime monitoring: hostile texts judged by an independent reference recognizer, panic and CPU monitors", SEQ),
    "C07": ("runtime monitoring: privilege monitor over random histories and server sessions under all kinds of users", SEQ),
    "C08": ("runtime monitoring: model-based checking of multi-statement requests with failures in every position", SEQ),
    "C09": ("runtime monitoring: offline linearizability checking of client-side histories of the real servers under injected delays", NET),
    "C10": ("runtime monitoring: exactly-one-response and unique-value matching under concurrent, failing, slow and abandoned requests", NET),
    "C11": ("runtime monitoring: random framings and segmentations of requests against a canonical answer", NET),
    "C12": ("runtime monitoring: hostile byte streams with liveness, health, resource and data monitors", NET),
    "C13": ("runtime monitoring: process exit and response monitors over shutdown variants under load", NET),
    "C14": ("runtime monitoring: differential execution of sessions on the three servers", NET),
    "C15": ("runtime monitoring: raw response checking and value round trips under short writes and slow readers", NET),
    "C16": ("runtime monitoring: service latency monitor with silent connections held open", NET),
    "C17": ("runtime monitoring: ThreadSanitizer, AddressSanitizer, Miri, panic, poison and thread monitors over in-process worker pools", "assurance limited to the executions and interleavings run; trusts the sanitizers"),
    "C18": ("runtime monitoring: every answer of random histories, in process and from the three servers, decoded with the library's types and compared; decoded values used again next to a model", SEQ),
    "C19": ("runtime monitoring: model-based differential checking of random calls of the storage trait and the typed containers on a controlled clock, with counting invariants", SEQ),
    "C20": ("runtime monitoring: CPU time of single statements in small and large stores and collections compared", "assurance limited to the sizes measured; trusts the thread CPU clock, with a margin of more than ten"),
    "C21": ("runtime monitoring: a counting allocator watches the bytes held by the interpreter against the size of the specification's data; resident memory of the server processes under churn", SEQ),
    "C22": ("runtime monitoring: every piece of data carries a word of its own, which is looked for in all answers and in everything the server processes print (taint tracking by unique markers)", "assurance limited to the sessions run; data that is printed in an altered form would go unnoticed"),
    "C23": ("runtime monitoring with fault injection: an instrumented Storage that fails on demand and records who is asked for what, answers and state compared with the executable specification", SEQ),
    "C24": ("runtime monitoring: the real listeners with an authentication service of the monitor's that records who it was asked about and changes its rulings, with injected delays", CONC24),
    "C25": ("runtime monitoring: analysis workers, executor and single-threaded server run between neighbours made for the purpose, compared with the reference parser and the executable specification, with injected delays", CONC24),
    "C26": ("runtime monitoring: tokens and statements taken one by one in every way the library offers, compared with the text, with each other and with the reference parser", SEQ),
    "C27": ("runtime monitoring: both TCP stream handlers with the monitor on both sides of the socket, every request taken compared with the bytes sent, every answer given with the bytes received, with random segmentation, short reads and writes and injected delays", CONC24),
    "C28": ("runtime monitoring: whole servers of the library of all sizes side by side in one process, every answer compared with what its client knows, with injected delays, ended one after another and made again", CONC24),
}
NA = {}
m = {
    "version": 1,
    "setup_cmd": "bash bin/setup",
    "checks": [{
        "property": p, "quick_cmd": "bin/check " + p, "thorough_cmd": "VERIF_TIER=thorough bin/check " + p,
        "technique": t, "level": "exploration", "level_note": n,
    } for p, (t, n) in sorted(C.items())],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
    "notes": "No hooks in /repo: everything is observed at public API and socket level.",
}
for p in [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]:
    if p not in C and p not in NA:
        m["not_applicable"].append({"property": p, "reason": "its check is not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
