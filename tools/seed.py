"""seed.py SPEC.py...: turn bug specs into /verif/seeded/<id>/ after confirming them in a scratch copy of /repo.

A spec file defines: ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source; exits nonzero when broken)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", SDL_VIDEODRIVER="dummy", SDL_AUDIODRIVER="dummy", PYTHONHASHSEED="0")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
HEAD = '''import os, sys
sys.path.insert(0, os.getcwd())
'''


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


for f in sys.argv[1:]:
    s = runpy.run_path(f)
    d = tempfile.mkdtemp(prefix="seed")
    try:
        r = d + "/r"
        sh(["git", "clone", "-q", "/repo", r], check=True)
        out = d + "/out"
        os.mkdir(out)
        open(out + "/demo.py", "w").write(HEAD + s["DEMO"].lstrip("\n"))
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        a = sh(["bash", out + "/demo.sh"], cwd=r, env=ENV, timeout=300)
        for p, old, new in s["EDITS"]:
            p = r + "/highway_env/" + p
            t = open(p).read()
            assert t.count(old) == 1, (t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        b = sh(["bash", out + "/demo.sh"], cwd=r, env=ENV, timeout=300)
        ok = a.returncode == 0 and b.returncode != 0
        print(s["ID"], "demo clean", a.returncode, "patched", b.returncode, (a.stdout[-600:] if a.returncode else "") + b.stdout.strip()[-150:].replace("\n", " | "))
        t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--ignore=tests/envs/test_time.py", "-o", "junit_family=xunit2",
                "--junitxml", d + "/rep.xml", "tests"], cwd=r, env=dict(ENV, PYTHONPATH=r), timeout=600)
        import xml.etree.ElementTree as ET
        good = {c.get("classname") + "::" + c.get("name") for c in ET.parse(d + "/rep.xml").iter("testcase") if not list(c)}
        missing = STABLE - good
        print("   stable tests failing:", sorted(missing) or "none")
        if ok and not missing:
            diff = sh(["git", "diff"], cwd=r).stdout
            open(out + "/patch.diff", "w").write(diff)
            json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
            dst = "/verif/seeded/" + s["ID"]
            shutil.rmtree(dst, ignore_errors=True)
            os.makedirs("/verif/seeded", exist_ok=True)
            shutil.copytree(out, dst)
            print("   kept", dst)
    finally:
        shutil.rmtree(d)
