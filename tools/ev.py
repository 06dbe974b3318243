"""Print the per-harness coverage of an evidence file."""
import json, sys
for p in sys.argv[1:]:
    e = json.load(open("evidence/%s.json" % p))["coverage"]
    print(p, "exhaustive", e["exhaustive"])
    for h in e["harnesses"]:
        print("  %-20s %-60s paths %5d pend %4d unk %3d conc %3d und %3d ex %s %s %s" % (
            h["harness"], json.dumps(h["params"])[:60], h["paths"], h["pending_prefixes"], h["unknown_queries"],
            h["paths_with_concretisation"], h["undecided_assertions"], h["exhausted"], h["encoding_errors"][:1], h["aborted"]))
