#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json, subprocess, sys
NOTES = {
 "C01": "generated types and values against a reference SCALE encoder and value/type-id model; the model is anchored to parity-scale-codec on derived types",
 "C02": "byte-exact round trip against the reference encoder, with prefixes and foreign contexts",
 "C03": "arbitrary values against arbitrary types; a `represents` relation judges every success",
 "C04": "metamorphic: same bytes with wrappers added or removed on either side",
 "C05": "metamorphic on fields plus must-fail cases",
 "C06": "arithmetic range model over all integer and compact types; bit lists over all formats",
 "C07": "agreement with an independent decoder on corrupted and random bytes; every allocation is metered",
 "C08": "differential: plain against tracing decoder, on valid and corrupted bytes",
 "C09": "reference decoder that records path and partial value of the failure, compared with the displayed error",
 "C10": "differential between all decode/encode entry points over generated field lists",
 "C11": "print/parse round trip over generated values, styles and indents",
 "C12": "reference formatter for every configuration, with failing writers and formatters",
 "C13": "independent parser: value, remainder, error kind and position, on grammar derived, mutated and random text",
 "C14": "the independent parser extended with the same custom parsers, over texts with markers",
 "C15": "inverse and reference checks over generated byte lists and hex-like texts",
 "C16": "independent base58/checksum encoder over all prefixes, payloads and corruptions",
 "C17": "identity of values through serde, in memory and inside derived types",
 "C18": "round trip of a zoo of serde types, and expected shapes",
 "C19": "conversion model of values into Rust types",
 "C20": "reference JSON and reading it back",
 "C21": "list model of lookups and accessors",
 "C22": "functor laws and a recorder of every node visited",
 "C23": "generated programs using the macro, compiled and run, against the value of their syntax tree",
 "C25": "model of a self-describing format that delivers, records and fails at any event",
 "C26": "counting type resolver and custom parsers: lookups and calls against a bound in the sizes given",
 "C27": "differential between a registry and a resolver of its own, with types missing or failing",
 "C28": "random walks over all representations of a decoded value, with the original value and bytes as the oracle after every step",
 "C29": "differential between six builds of the crate (features, profiles), each running the same generated cases",
 "C24": "path model: one bad part planted in an exact value",
}
ids = subprocess.run(["/verif/target/release/vp", "list"], capture_output=True, text=True, check=True).stdout.split()
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "./check.sh --build",
 "checks": [],
 "not_applicable": [],
 "notes": "One harness crate decides all properties by generated-input search; see DESIGN.md. /verif/check.sh --replay FILE re-runs a replay file.",
}
for p in props:
    i = p["id"]
    if i in ids:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "property-based testing and coverage-guided fuzzing: " + NOTES[i].split(":")[0].split(";")[0] if i != "C23" else "property-based testing: " + NOTES[i].split(":")[0],
            "level": "exploration",
            "level_note": NOTES[i] + ". Search over generated inputs, not a proof; trusts the reference model in /verif/harness/src.",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
