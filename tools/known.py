"""Attributes of the classes of the original tree (dv/known.json).  An attribute that is not
listed is not in any contract: how it changes says nothing about a property by itself."""
import ast
import json
import subprocess

BASE = "f0c5f57"


def main():
    ls = subprocess.run(["git", "-C", "/repo", "ls-tree", "-r", "--name-only", BASE, "elgas"], capture_output=True, text=True, check=True).stdout.split()
    known = {}
    for f in ls:
        if not f.endswith(".py"):
            continue
        src = subprocess.run(["git", "-C", "/repo", "show", BASE + ":" + f], capture_output=True, text=True, check=True).stdout
        mod = f[:-3].replace("/", ".")
        if mod.endswith(".__init__"):
            mod = mod[: -len(".__init__")]
        for node in ast.walk(ast.parse(src)):
            if isinstance(node, ast.ClassDef):
                names = set()
                for n in node.body:
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                        names.add(n.target.id)
                    if isinstance(n, ast.Assign):
                        names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
                for n in ast.walk(node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                        names.add(n.attr)
                known[mod + "." + node.name] = sorted(names)
    json.dump(known, open("/verif/dv/known.json", "w"), indent=1, sort_keys=True)


main()
