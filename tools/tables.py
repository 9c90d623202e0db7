"""tables.py: fills the tables of DESIGN.md from evidence/ and seeded/ (run after all checks on the unchanged tree)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()


def block(name, text):
    global s
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    new = "%s\n%s\n%s" % (a, text, b)
    if a in s:
        s = s[:s.index(a)] + new + s[s.index(b) + len(b):]
    else:
        s = s.replace(name, new, 1)


rows = ["| check | obligations discharged | undecided |", "|---|---|---|"]
for f in sorted(glob.glob("/tmp/all.C*.log")):
    m = re.search(r"(C\d\d): (\d+) obligations, (\d+) discharged, (\d+) undecided", open(f).read())
    if m:
        n, d, u = m.group(2), m.group(3), m.group(4)
        rows.append("| %s | %s of %s%s | %s |" % (m.group(1), d, n, "" if d == n else " (the others are the two findings, in each configuration)", u))
block("NUMBERS", "\n".join(rows))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
n = 0
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    n += 1
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/").replace("\n", " ")))
block("SEEDTABLE", "\n".join(rows))
s = re.sub(r"`seeded/`: \S+ changes", "`seeded/`: %d changes" % n, s)
open(p, "w").write(s)
