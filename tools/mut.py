"""mut.py "ID ID2" file 'old' 'new' [n]: run checks on a scratch copy of /repo with one textual change."""
import os, shutil, subprocess, sys, tempfile
ids, f, old, new = sys.argv[1:5]
n = int(sys.argv[5]) if len(sys.argv) > 5 else None
d = tempfile.mkdtemp(prefix="mut")
try:
    shutil.copytree(os.environ.get("MUT_BASE", "/repo"), d + "/r", ignore=shutil.ignore_patterns(".git"))
    p = d + "/r/highway_env/" + f
    s = open(p).read()
    c = s.count(old)
    if c == 0:
        sys.exit("NOT FOUND: " + old)
    if c > 1 and n is None:
        sys.exit("%d occurrences: %s" % (c, old))
    if n is None:
        s = s.replace(old, new)
    else:
        parts = s.split(old)
        s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
    open(p, "w").write(s)
    for i in ids.split():
        r = subprocess.run(["/opt/venv/bin/python", "/verif/check.py", "--property", i], cwd="/verif", env=dict(os.environ, SYMX_REPO=d + "/r"),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, universal_newlines=True)
        out = [l for l in r.stdout.splitlines() if l.startswith(("VIOL", "UNDEC", "OK")) or "case" in l[:8]]
        print(r.returncode, i, "| %s -> %s |" % (old.strip()[:50], new.strip()[:50]), (out or [""])[-1][:160], flush=True)
finally:
    shutil.rmtree(d)
