"""Worker process: runs harnesses on the unmodified code."""
import importlib
import json
import os
import sys


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    from . import loader
    loader.install_concrete()
    from . import engine
    cases = {}
    for line in sys.stdin:
        req = json.loads(line)
        key = req["module"], req["tier"]
        if key not in cases:
            mod = importlib.import_module(key[0])
            cases[key] = {c.name: c for c in mod.cases(key[1])}
        c = cases[key][req["case"]]
        rep = engine.run_concrete(c.fn, c.params, req["asg"], c.opts)
        out.write(json.dumps(rep) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
