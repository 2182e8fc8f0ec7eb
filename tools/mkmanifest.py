#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and config.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from config import CONFIG, NOTES
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
doc = {
    "version": 1,
    "setup_cmd": "python3 setup_check.py",
    "checks": [{
        "property": p,
        "quick_cmd": f"python3 run.py {p}",
        "thorough_cmd": f"python3 run.py {p} --thorough",
        "technique": NOTES[p][0],
        "level": "exploration",
        "level_note": NOTES[p][1] + " Every case runs against the headers of the working tree, built for the internal, BLAS and LAPACK backends, optimised and with " + ("ThreadSanitizer" if p == "C22" else "address/undefined-behaviour sanitizers") + ". Trusted: the harness oracle, the compilers, OpenBLAS and LAPACKE.",
    } for p in ids if p in CONFIG],
    "not_applicable": [],
}
json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
