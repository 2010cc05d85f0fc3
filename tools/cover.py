"""tools/cover.py PREFIX : merge the files of VERIF_COVER=PREFIX runs and print the table."""
import glob, json, sys
from collections import defaultdict
seen = defaultdict(lambda: defaultdict(set))
for f in glob.glob(sys.argv[1] + ".*"):
    for c, fs in json.load(open(f)).items():
        for x in fs:
            key = x[0] if x[0] != "par" else "par " + x[1]
            seen[c][key].add(str(x[-1]) if x[0] != "ndim" else str(x[1:]))
only = sys.argv[2:]
num = lambda s: (0, float(s)) if s.replace(".", "").replace("-", "").isdigit() else (1, s)
for c in sorted(seen):
    if only and not any(o in c for o in only):
        continue
    print("==", c)
    for k in sorted(seen[c]):
        v = sorted(seen[c][k], key=lambda s: str(num(s)) if num(s)[0] else f"{num(s)[1]:020.6f}")
        print("   ", k, ":", " ".join(v[:40]))
