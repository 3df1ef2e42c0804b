"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "all table boundaries and the Leap model's states, plus sampled instants", "C02": "all table rows and boundaries, plus sampled instants",
 "C12": "every entry of the two almanac files", "C18": "all words of the Backend model up to 4 (thorough 5) steps", "C20": "all histories of the Histories model, 2 (thorough 3) calls",
 "C21": "all words of the Range model", "C22": "all words of the Range model", "C25": "all words of the Script model", "C37": "sampled ways of starting an interpreter out of those of the Launch model (explored exhaustively)", "C36": "sampled words of the Imports model (explored exhaustively)", "C34": "sampled words of the Pool model (explored exhaustively), with real processes",
 "C27": "every single pre-emption point and sampled double ones of the real code; models exhaustive"}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    checks.append({"property": i, "quick_cmd": "python3 harness/check.py " + i, "thorough_cmd": "python3 harness/check.py " + i + " thorough",
      "technique": "TLA+ specification checked with TLC; recorded executions of the real code validated against it (trace validation)",
      "level": "model_checking",
      "level_note": "specification exhaustively explored within stated bounds; the code is bound by validating recorded calls: " + NOTE.get(i, "generated inputs stratified over the specification's case distinctions and boundaries")})
json.dump({"version": 1, "setup_cmd": "sh bin/setup.sh", "checks": checks, "not_applicable": []}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
