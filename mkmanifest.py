#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json

NATIVE = "runtime monitoring of generated workloads on the real crate: "
T = {
    "C01": "panic, abort and CPU-budget monitors with overflow checks over hostile payloads",
    "C02": "byte equality and fixed-point oracle over well-formed and damaged payloads",
    "C03": "decoded values against generated values through a reference encoder",
    "C04": "encoded bytes against a reference encoder, decoded back",
    "C05": "metamorphic oracle: unknown and mismatched fields woven into payloads with known result",
    "C06": "every cut of generated payloads against the field table of the whole",
    "C07": "metamorphic oracle: content of one length-delimited value replaced",
    "C08": "order and concatenation oracle over decoded field sequences",
    "C09": "element-sequence oracle over random packed/unpacked splits",
    "C10": "counting allocator and byte-conservation monitors",
    "C11": "panic, abort and CPU-budget monitors over mutated and malformed texts",
    "C12": "context snapshots against a generated schema model, in both directions",
    "C13": "reported constants against exactly known literals",
    "C14": "metamorphic oracle: layouts and declaration orders of one schema",
    "C15": "resolved references against an independent implementation of the scoping rules",
    "C16": "invariant walker over every reference and lookup of parsed contexts",
    "C17": "error variant and content against one injected fault",
    "C18": "sequential model of the modification API, state compared after every call",
    "C19": "differential: parsed against hand-built contexts, and what both decode",
    "C20": "AddressSanitizer, Miri, painting and counting allocator, UTF-8 check, over the workloads of all properties",
    "C21": "thread stress against single-threaded results, ThreadSanitizer, Miri, cross-process digests, Send/Sync compile probe",
    "C22": "reference comparison of pairs equal or different in one detail, snapshots against ==",
    "C23": "listed members against the order of the generated declarations",
    "C24": "CPU time per byte of long against short payloads of one shape",
    "C25": "values written under one version of a schema and read under another, against conversion rules of the wire format",
    "C26": "metamorphic oracle: the same declarations alone and among unrelated ones",
    "C27": "references of one context used in another, against the entities whose own references equal them",
}
checks = []
for p, t in T.items():
    checks.append(
        {
            "property": p,
            "quick_cmd": "python3 check.py %s" % p,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
            "technique": (NATIVE if p not in ("C20", "C21") else "sanitizers and runtime monitoring: ") + t,
            "level": "exploration",
            "level_note": "Held on the executions observed, whose number and kind the evidence file gives; nothing is said about inputs or interleavings that were not generated. Trusts the generators and reference models in harness/src, which share no code with the crate.",
        }
    )
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks: everything is observed through the public API. Replay a violation with `python3 check.py <ID> --replay <file>`.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
