"""functions of the source which no check executes (development aid)"""
import ast, glob, json, os
SRC = "/repo/src/oemof/solph"
cov = set()
for f in glob.glob("/verif/evidence/S??.json"):
    for k in json.load(open(f))["coverage"]["functions_encoded"]:
        cov.add(k.replace(".<locals>", ""))
for f in sorted(glob.glob(SRC + "/**/*.py", recursive=True)):
    mod = os.path.relpath(f, SRC).removesuffix(".py").replace("/", ".")
    def walk(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                w = f"{q}.{c.name}" if q else c.name
                if isinstance(c, ast.FunctionDef) and f"{mod}:{w}" not in cov:
                    print(f"{mod}:{w}", c.end_lineno - c.lineno)
                walk(c, w)
            else:
                walk(c, q)
    walk(ast.parse(open(f).read()), "")
