#!/usr/bin/env python3
"""Rewrite the planted-bug table of DESIGN.md (between the SEEDTABLE marks) from seeded/*/meta.json and the `history` below."""
import json, glob, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = {
 "z-order-large-extent": "missed at first (extents only to 17); P25 given a list of larger extents",
 "construct-memset": "missed at first; P17 and P19 given an element type with default member initialisers",
 "candidate-stride-int": "missed at first; P05 and P32 strengthened with strides and extents beyond 2^31",
 "ein-scalar-copy": "missed at first; P23 given value entries with mixed element types",
 "compact-dense-extent": "missed at first; P06 given larger static extents",
 "crop-dim-static": "missed at first; P07 given dimensions as slicing arguments",
 "chunky-padded": "missed at first; P10 given shapes with padded planes",
}
rows = []
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append((m["property"], i, m["needs"], HIST.get(i, "")))
rows.sort()
t = ["<!-- SEEDTABLE -->", "| bug (`seeded/…`) | caught by | needs | history |", "|---|---|---|---|"]
t += ["| %s | %s | %s | %s |" % (i, p_, n.replace("|", "/"), h) for p_, i, n, h in rows]
t.append("<!-- /SEEDTABLE -->")
d = os.path.join(R, "DESIGN.md"); s = open(d).read()
if "<!-- SEEDTABLE -->" in s:
    s = re.sub(r"<!-- SEEDTABLE -->.*<!-- /SEEDTABLE -->", lambda _: "\n".join(t), s, flags=re.S)
else:
    s = s.replace("SEEDTABLE\n", "\n" + "\n".join(t) + "\n", 1)
open(d, "w").write(s); print(len(rows))
