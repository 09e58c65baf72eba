"""which functions of the repository are named under contract by the specs"""
import ast, glob, os, re, sys
R = os.environ.get("GGG_REPO", "/repo") + "/src/gggears"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
allf = {}
for p in sorted(glob.glob(R + "/*.py")):
    mod = os.path.basename(p)[:-3]
    def walk(n, pre):
        for c in n.body:
            if isinstance(c, ast.FunctionDef):
                allf.setdefault(mod + "." + pre + c.name, c.end_lineno - c.lineno + 1)
            elif isinstance(c, ast.ClassDef):
                walk(c, pre + c.name + ".")
    walk(ast.parse(open(p).read()), "")
cov = {}
import importlib
for p in sorted(glob.glob(V + "/specs/C*.py")):
    n = os.path.basename(p)[:-3]
    from engine import api
    del api.REGISTRY[:]
    exec(compile(open(p).read(), p, "exec"), {"__name__": n})
    for h in api.REGISTRY:
        for f in h.funcs:
            cov.setdefault(f, set()).add(n)
for f, l in allf.items():
    if "-a" in sys.argv or f not in cov:
        print("%-75s %4d %s" % (f, l, ",".join(sorted(cov.get(f, [])))))
print("named but absent:", [f for f in cov if f not in allf])
print(len([f for f in allf if f in cov]), "of", len(allf), "functions;", sum(l for f, l in allf.items() if f in cov), "of", sum(allf.values()), "lines")
