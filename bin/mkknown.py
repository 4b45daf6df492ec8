#!/opt/venv/bin/python
"""Writes known_findings.json: defects repaired in /repo (by commit) and known ones."""
import json
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "harness"))
import lib  # noqa: E402
lib.setup_path()
import c06  # noqa: E402
import c13  # noqa: E402
FIXES = """e50145a C23
47b9355 C23
29eb8cf C23
0c0ffe5 C23
73c6c80 C23
ba9004a C23
8d4bd29 C23
82100c8 C23
272a4bb C23
6061022 C17
d09fcef C17
f04c50a C17
9e09c42 C17
6fadcfa C17
cbca434 C17
c0b32f1 C17
d1644a4 C17
992d68a C17
a56bbd7 C08
921d3f5 C16
18addd5 C16
e3c35c3 C16
68f0d20 C16
817f45b C16
302b596 C02
312d9da C02
a49aad9 C05
7c7917e C05
a74ba04 C02
5877ff0 C03
185643e C21
2c4cc34 C20
d604843 C09
a177e05 C10
11dea86 C10
7194550 C10
6628b03 C10
b96ccad C10
6b8c285 C11
2ba80c5 C11
d75f808 C11
5b36a26 C07
401c073 C07
1bfdc13 C06
3ecc6be C06
3660f31 C06
fcc545d C06
945e3ec C06
6386c7f C25
35c4810 C25
64bb08d C25
f9643b0 C25
fe2d35e C24
3c33957 C24
6acd649 C24
239c4e3 C24
92c3f3c C13
15f53f4 C13
8f286ca C14
68b225d C14
86a1805 C14
94b5364 C13
6a220f7 C13
6b890b8 C13
79f4c84 C13
74b2286 C14
bfe29cd C15
69521c9 C26
8dfb518 C26
c8ed8c0 C26
550e327 C26
3dadd6e C26
16231a3 C26
ad5861c C25
80b8ec6 C10
a480e9b C14
2e9cd22 C06
34fbac3 C02
063e4dc C02
79877aa C09
"""
KNOWN = [dict(id="K01", property="C06", status="known",
              what="TFSA room that accrues after the table's last year shrinks with inflation (5000 becomes 2500 when prices double); "
                   "tests/canada/accounts/test_tfsa.py pins this",
              scenario=c06.KNOWN[0], clauses=["next-room", "one-room-per-plan"]),
         dict(id="K02", property="C13", status="known",
              what="a shared withdrawal limit that no member could use alone (100 shared, balances 40 and 80) is taken for "
                   "the largest member's own limit: 80 is withdrawn of 100, and 20 is left over",
              scenario=c13.KNOWN[0], clauses=["uses-all"])]
log = dict(l.split(" ", 1) for l in subprocess.check_output(
    ["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines())
out = []
for i, l in enumerate(FIXES.splitlines()):
    h, p = l.split()
    what = log[h].replace("fix: ", "did not hold: ")
    out.append(dict(id="F%02d" % (i + 1), property=p, status="fixed", commit=h, what=what,
                    line="fixed: property=%s %s %s" % (p, h, what)))
json.dump({"findings": out + KNOWN}, open(os.path.join(HERE, "..", "known_findings.json"), "w"), indent=1)
