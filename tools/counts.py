"""Lists the planted bugs whose patch does not apply or changes no line of the original repository."""
import os, re, subprocess

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()


def blame(rel, cache={}):
    if rel not in cache:
        out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "--root", "HEAD", "--", rel], capture_output=True, text=True).stdout
        cache[rel] = [l.split()[0].lstrip("^").startswith(BASE[:30]) for l in out.splitlines()]
    return cache[rel]


def counts(patch):
    if subprocess.run(["git", "-C", "/repo", "apply", "--check", patch], capture_output=True).returncode:
        return "does not apply"
    rel = old = None
    hit = False
    gap = None      # old line number in front of which the current run of '+' lines stands

    def judge(removed, at):
        flags = blame(rel)
        if removed:
            return any(flags[i - 1] for i in removed)
        return all(flags[i - 1] for i in (at - 1, at) if 1 <= i <= len(flags))

    removed, added = [], False
    for line in open(patch).read().splitlines() + ["@@ end"]:
        if line.startswith("--- a/"):
            new = line[6:]
        if line.startswith((" ", "@@", "diff")) and (removed or added):
            hit |= judge(removed, old)
            removed, added = [], False
        if line.startswith("--- a/"):
            rel = new
        elif line.startswith("@@ -"):
            old = int(re.match(r"@@ -(\d+)", line)[1])
        elif line.startswith(("+++", "diff", "index", "@@")):
            pass
        elif line.startswith("-"):
            removed.append(old)
            old += 1
        elif line.startswith("+"):
            added = True
        else:
            old = old + 1 if old is not None else None
    return "" if hit else "changes no original line"


if __name__ == "__main__":
    for b in sorted(os.listdir(SEEDED)):
        p = counts(os.path.join(SEEDED, b, "patch.diff"))
        if p:
            print(b, p)
