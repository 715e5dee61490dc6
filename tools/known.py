#!/usr/bin/env python3
"""Rewrites known_findings.json: one entry per repaired defect (from /repo's git log) plus the
findings listed in FINDINGS.  Run by hand; no check runs it."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property of the n-th "fix:" commit in /repo (the one whose check reported it)
PROP = {1: "C01", 2: "C04", 3: "C04", 4: "C01", 5: "C02", 6: "C03", 7: "C03", 8: "C15", 9: "C23", 10: "C01",
        11: "C01", 12: "C02", 13: "C03", 14: "C09", 15: "C07", 16: "C09", 17: "C09", 18: "C09", 19: "C10",
        20: "C13", 21: "C10", 22: "C09", 23: "C09", 24: "C11", 25: "C12", 26: "C12", 27: "C14", 28: "C14",
        34: "C05", 35: "C05", 36: "C05", 37: "C06", 38: "C06", 39: "C06", 40: "C06", 41: "C06", 42: "C25",
        43: "C25", 50: "C08", 51: "C08", 52: "C08", 53: "C15", 54: "C15", 72: "C23", 119: "C18",
        120: "C18", 121: "C17"}
for lo, hi, p in ((29, 33, "C05"), (44, 49, "C07"), (55, 59, "C16"), (60, 80, "C22"), (81, 94, "C23"),
                  (95, 99, "C21"), (100, 106, "C24"), (107, 113, "C17"), (114, 118, "C18"),
                  (122, 134, "C19"), (135, 140, "C20"), (141, 144, "C26")):
    for n in range(lo, hi + 1):
        PROP.setdefault(n, p)
# later repairs name their property here: subject prefix -> property
LATER = {"DDL2 dictionaries whose": "C27", "links between other items": "C27", "uncertainties are checked": "C19",
         "a range need": "C27", "items that an item depends": "C27", "text that goes on": "C27",
         "an item whose definition lists": "C27", "the last value named": "C28", "generated parsers choose": "C29", "the place of a token that no clause": "C29"}
FINDINGS = [
    dict(property="C29", status="finding",
         key="refuses what is in the language (a part that can be empty, with a rule in it, begins an alternative to the empty one)",
         what="a parser generated for a grammar such as 'S: A a A | ; A: [ b ]' (one alternative can be empty, another begins with a part that can be empty and has a rule in it) refuses the empty text, because the generator adds everything that follows rule A anywhere to what A can begin with"),
]


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"],
                         capture_output=True, text=True).stdout.splitlines()
    fixes = [l.split(" ", 1) for l in log if l.split(" ", 1)[1].startswith("fix:")]
    out = list(FINDINGS)
    for n, (h, s) in enumerate(fixes, 1):
        what = s[4:].strip()
        p = PROP.get(n) or [v for k, v in LATER.items() if what.startswith(k)][0]
        out.append(dict(property=p, status="fixed", key="fix-%d" % n, commit=h,
                        what="fixed: property=%s %s did not hold before: %s" % (p, h, what)))
    with open(os.path.join(HERE, "known_findings.json"), "w") as f:
        f.write("[\n" + ",\n".join(json.dumps(e) for e in out) + "\n]\n")


main()
