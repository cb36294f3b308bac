"""Functions of highway_env that no check executes (from the evidence of the last runs)."""
import ast, glob, json
cov = {}
for p in glob.glob("/verif/evidence/*.json"):
    e = json.load(open(p))
    for f in e["coverage"]["functions_encoded"]:
        cov.setdefault(f, []).append(e["property"])
for path in sorted(glob.glob("/repo/highway_env/**/*.py", recursive=True)):
    rel = path[len("/repo/"):]
    miss = []

    def walk(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.FunctionDef):
                if rel + ":" + pre + c.name not in cov:
                    miss.append(pre + c.name)
            elif isinstance(c, ast.ClassDef):
                walk(c, pre + c.name + ".")
    walk(ast.parse(open(path).read()), "")
    if miss:
        print(rel, miss)
