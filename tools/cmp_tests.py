"""Compare a test run against the recorded stable tests."""
import json, sys
b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(sys.argv[1]))
print({k: (len(v) if hasattr(v, "__len__") else v) for k, v in b.items()}, {k: (len(v) if hasattr(v, "__len__") else v) for k, v in o.items()})
