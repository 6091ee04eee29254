"""tools/base.py OUT.json: which of the stable tests (/opt/vp/BASELINE.json) did not pass in a test.sh result."""
import json, sys
b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(sys.argv[1]))
def names(x):
    if isinstance(x, dict):
        for k in ("passed", "stable", "tests", "pass"):
            if k in x: return names(x[k])
        return {k for k, v in x.items() if v in (True, "passed", "pass")}
    return set(x)
miss = sorted(names(b) - names(o))
print(len(names(b)), len(names(o)), "not passed:", miss)
sys.exit(bool(miss))
