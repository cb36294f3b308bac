"""blame.py: do the planted bugs change lines of the original repository?"""
import glob, re, subprocess
base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0][:7]
for d in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f, old, orig = None, 0, 0
    for l in open(d):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            bl = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", f], text=True).split("\n")
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            old += 1
            orig += bl[n - 1].lstrip("^").startswith(base[:7])
            n += 1
        elif l.startswith(" "):
            n += 1
    print("%-32s removed %d, original %d %s" % (d.split("/")[-2], old, orig, "" if orig == old and old else "<---"))
