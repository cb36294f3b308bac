"""prof.py ID CASE [seconds]: where a case forks (for the design of harnesses)."""
import collections, importlib, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault("SYMX_REPO", "/repo")
from symx import loader
loader.install()
import symx.ctx as C
cnt = collections.Counter()
for cls in [c for c in vars(C).values() if isinstance(c, type)]:
    for name in ("fork", "fork_int"):
        if name in vars(cls):
            def wrap(old):
                def f(self, *a):
                    st = [x for x in traceback.extract_stack() if "/symx/" not in x.filename][-2:]
                    cnt[" <- ".join("%s:%s" % (x.filename.split("/")[-1], x.lineno) for x in reversed(st))] += 1
                    return old(self, *a)
                return f
            setattr(cls, name, wrap(vars(cls)[name]))
from symx import engine
mod = importlib.import_module("props." + sys.argv[1].lower())
case = [c for c in mod.cases("quick") if sys.argv[2] == c.name][0]
ex = engine.Explorer("props." + sys.argv[1].lower(), case, "quick", time.time() + float(sys.argv[3] if len(sys.argv) > 3 else 20), 1)
r = ex.explore()
print(r["stats"])
for k, v in cnt.most_common(15):
    print(v, k)
ex.worker.stop()
os._exit(0)
