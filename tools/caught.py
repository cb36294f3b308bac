"""caught.py [ids]: run the check of each planted bug's property on a scratch copy of /repo with the bug (and once more on the clean copy if asked)."""
import json, os, shutil, subprocess, sys, tempfile
base = "/verif/seeded"
for i in sys.argv[1:] or sorted(os.listdir(base)):
    m = json.load(open("%s/%s/meta.json" % (base, i)))
    d = tempfile.mkdtemp(prefix="caught")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
        a = subprocess.run(["git", "apply", "%s/%s/patch.diff" % (base, i)], cwd=d + "/r")
        if a.returncode:
            print(i, "DOES NOT APPLY", flush=True)
            continue
        r = subprocess.run(["/opt/venv/bin/python", "/verif/check.py", "--property", m["property"]], cwd="/verif", env=dict(os.environ, SYMX_REPO=d + "/r"),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, universal_newlines=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(i, m["property"], "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, (v or [""])[0][:140], flush=True)
    finally:
        shutil.rmtree(d)
