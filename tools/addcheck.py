import json, sys
p = "/verif/tools/checks.json"
d = json.load(open(p))
for line in sys.stdin:
    if line.strip():
        i, t, n = line.rstrip("\n").split("|")
        d[i.strip()] = {"technique": t.strip(), "note": n.strip()}
json.dump(d, open(p, "w"), indent=1, sort_keys=True)
