#!/usr/bin/env python3
"""keep.py REPLAY...: saves minimal cases to harness/corpus/<id>/, to be rerun by every check."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    d = json.load(open(f)); d["tier"] = ""
    o = f"{root}/harness/corpus/{d['property']}"; os.makedirs(o, exist_ok=True)
    json.dump(d, open(f"{o}/{os.path.basename(f)}", "w"), indent=1)
