#!/usr/bin/env python3
"""Write the table of planted changes into DESIGN.md from the output of tools/catch.py (stdin, optional) and the meta files."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))


def main():
    seen = {}
    for line in sys.stdin if not sys.stdin.isatty() else []:
        m = re.match(r"(\S+) \| (\S+) \| (.*)", line)
        if m:
            seen[m[1]] = re.findall(r"(C\d\d):1", m[3])
    rows = ["| change | needs | caught by |", "|---|---|---|"]
    for i in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        meta = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
        hit = seen.get(i)
        rows.append(f"| {i} | {meta['needs']} | {', '.join(hit) if hit else '(missed)' if i in seen else '(not run)'} |")
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read()
    a, b = "<!-- CATCH -->", "<!-- /CATCH -->"
    if b not in s:
        s = s.replace(a, a + "\n" + b)
    s = s[:s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b):]
    open(p, "w").write(s)


if __name__ == "__main__":
    main()
