"""Rewrites the table of planted changes in DESIGN.md. Lines of the log given
as argument: '<seed> <property> rc=<n> <violations> ...' from tools/seeds.sh."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for line in open(sys.argv[1]):
    f = line.split()
    if len(f) > 2 and f[2].startswith("rc="):
        res[f[0]] = f[2] == "rc=1"
rows = ["| change | needs | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["needs"], {True: m["property"], False: "missed", None: "not run"}[res.get(d)]))
p = os.path.join(here, "DESIGN.md")
t = open(p).read()
t = re.sub(r"(?s)(<!-- seeds -->\n).*?(<!-- end seeds -->)", lambda x: x.group(1)+"\n".join(rows)+"\n"+x.group(2), t)
open(p, "w").write(t)
