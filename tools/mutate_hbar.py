"""Development aid: single-site hbar mutants in memory and which of them the unit analysis reports."""
import ast, copy, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.loader import Program, FuncInfo
from sa import units


def sites(tree):
    for parent in ast.walk(tree):
        if isinstance(parent, ast.Call):
            for i, k in enumerate(parent.keywords):
                if k.arg == "hbar":
                    yield ("drop-kw", parent, i)
            for i, a in enumerate(parent.args):
                if isinstance(a, ast.Name) and a.id == "hbar":
                    yield ("arg->2", parent, i)
        if isinstance(parent, ast.BinOp):
            for side in ("left", "right"):
                x = getattr(parent, side)
                if any(isinstance(y, ast.Name) and y.id == "hbar" for y in ast.walk(x)) :
                    if isinstance(x, ast.Name):
                        yield ("bin->2", parent, side)


def main():
    base = Program()
    tot = hit = 0
    for mname, m in base.modules.items():
        n = len(list(sites(m.tree)))
        for j in range(n):
            prog = Program()
            mm = prog.modules[mname]
            kind, par, x = list(sites(mm.tree))[j]
            old = ast.unparse(par)
            if kind == "drop-kw":
                par.keywords.pop(x)
            elif kind == "arg->2":
                par.args[x] = ast.copy_location(ast.Constant(2), par)
            else:
                setattr(par, x, ast.copy_location(ast.Constant(2), par))
            f, s, miss, u, un = units.run(prog)
            tot += 1
            hit += bool(f)
            if not f:
                print("MISS", mname, par.lineno, kind, old, "=>", ast.unparse(par))
    print(hit, "/", tot)

main()
