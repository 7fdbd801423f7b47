#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing: "
T = {
 "C01": "generated and exhaustively enumerated short texts against a reference model of neologdn",
 "C02": "every Unicode scalar plus generated texts against a reference model; concatenation and idempotence relations",
 "C03": "generated tables and texts against a simultaneous-replacement model; small worlds enumerated",
 "C04": "stateful: generated addition sequences against one-step-at-a-time composition (differential and model)",
 "C05": "differential: plain, recorded and debug-logged normalization of generated pipelines and texts",
 "C06": "invariant over recorded positions (stretch, overlap, rebuild) on generated steps and texts",
 "C07": "generated and exhaustively enumerated texts against a reference model of the space rules",
 "C08": "generated character sets and texts against reference models; small worlds enumerated",
 "C09": "generated ligature maps, every order of application as oracle, agreement across instances",
 "C10": "generated configuration files written by an independent writer, against the pipeline they describe",
 "C11": "grammar-based and mutation fuzzing of configuration files and paths, with an independent verdict",
 "C12": "generated directory layouts, links and environments against a model of discovery",
 "C13": "stateful model-based: generated histories of table operations against a set model",
 "C14": "round trip of generated tables through both export formats, with independent parsers",
 "C15": "every named constant and set against Unicode-derived expectations, generated removals",
 "C16": "differential: generated command lines run as processes against the library",
 "C17": "differential: generated constructor calls in Python against the Rust library",
 "C19": "stateful model-based: generated histories of file changes and loads, concurrent replacement and loading, before/after snapshots",
 "C20": "metamorphic: processor time of a generated long text, file or table against that of its parts",
 "C21": "model-based: generated faults in documents, bytes and paths against the set of causes, differential between entry points",
 "C22": "model-based: generated histories and values against a plain model of what was put in, and laws of equality, order and hashing over all pairs",
 "C23": "metamorphic on counted allocations: generated texts and tables against their parts, histories of texts, instances and loads against what is kept",
 "C18": "differential: instances, processes, call histories and threads on generated configurations",
}
checks = []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append({
        "property": p,
        "quick_cmd": f"./run.sh {p} quick",
        "thorough_cmd": f"./run.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": PBT + T[p],
        "level": "exploration",
        "level_note": "Generated-input search against an explicit oracle, with shrinking; finite spaces named in the evidence are enumerated completely, everything else is sampled (fixed seed from VERIF_SEED).",
    })
json.dump({"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": []},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
