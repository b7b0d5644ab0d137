"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    found = {}
    seeded = os.path.join(HERE, "seeded")
    for name in sorted(os.listdir(seeded)):
        meta = json.load(open(os.path.join(seeded, name, "meta.json")))
        found.setdefault(meta["property"], []).append(name)
    rows = ["| check | catches |", "|---|---|"]
    rows += [f"| {p} | {', '.join(names)} |" for p, names in sorted(found.items())]
    path = os.path.join(HERE, "DESIGN.md")
    text = open(path).read()
    begin, end = "<!-- planted -->\n", "<!-- end planted -->"
    new = begin + "\n".join(rows) + "\n" + end
    text = re.sub(re.escape(begin) + ".*?" + re.escape(end), lambda m: new, text, flags=re.S)
    open(path, "w").write(text)


main()
