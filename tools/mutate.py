"""Generates small source mutants of /repo's library code, to measure what the checks notice.
mutants(path) yields (line, description, new_source)."""
import ast, random

SKIP_FUNCS = ("plot", "examples", "visual", "print", "debug", "scratch", "desc", "__repr__", "__str__")
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def rep(a, b, new):
        return (raw[:a] + new.encode() + raw[b:]).decode()

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def visit(n, fn, infn):
        if isinstance(n, (ast.FunctionDef,)):
            if any(s in n.name for s in SKIP_FUNCS):
                return
            fn, infn = n.name, True
        if isinstance(n, ast.Raise) or isinstance(n, ast.Assert):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            a, b = span(l)[1], span(r)[0]
            old = raw[a:b].decode()
            for new in CMP.get(type(n.ops[0]), []):
                if "\n" in old or "(" in old or ")" in old:
                    continue
                out.append((n.lineno, fn, f"{seg(n)[:60]}: {old.strip()} -> {new}", rep(a, b, f" {new} ")))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            old = raw[a:b].decode()
            s = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}[type(n.op)]
            if old.count(s) == 1 and not isinstance(n.left, (ast.List, ast.JoinedStr)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and not (isinstance(n.right, ast.Constant) and isinstance(n.right.value, str)):
                out.append((n.lineno, fn, f"{seg(n)[:60]}: {s} -> {BIN[type(n.op)]}", rep(a, b, old.replace(s, BIN[type(n.op)]))))
        if isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            old = raw[a:b].decode()
            x, y = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            if len(n.values) == 2 and old.count(x) == 1:
                out.append((n.lineno, fn, f"{seg(n)[:60]}: {x} -> {y}", rep(a, b, old.replace(x, y))))
            for v in n.values:
                a, b = span(v)
                out.append((n.lineno, fn, f"operand {seg(v)[:50]} -> {x == 'and'}", rep(a, b, str(x == "and"))))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            out.append((n.lineno, fn, f"drop not: {seg(n)[:60]}", rep(a, b, "(" + seg(n.operand) + ")")))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            a, b = span(n)
            out.append((n.lineno, fn, f"drop minus: {seg(n)[:60]}", rep(a, b, "(" + seg(n.operand) + ")")))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            a, b = span(n.test)
            if not isinstance(n, ast.While):
                out.append((n.lineno, fn, f"if {seg(n.test)[:60]} -> True", rep(a, b, "True")))
            out.append((n.lineno, fn, f"if {seg(n.test)[:60]} -> False", rep(a, b, "False")))
        if isinstance(n, ast.Constant) and type(n.value) is int:
            a, b = span(n)
            out.append((n.lineno, fn, f"{n.value} -> {n.value + 1} in {lines[n.lineno - 1].strip()[:60]}", rep(a, b, str(n.value + 1))))
            if n.value > 0:
                out.append((n.lineno, fn, f"{n.value} -> {n.value - 1} in {lines[n.lineno - 1].strip()[:60]}", rep(a, b, str(n.value - 1))))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            a, b = span(n)
            out.append((n.lineno, fn, f"{n.value} flipped in {lines[n.lineno - 1].strip()[:60]}", rep(a, b, str(not n.value))))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and infn and "print" not in seg(n)[:8] and "plt." not in seg(n):
            a, b = span(n)
            out.append((n.lineno, fn, f"delete {seg(n)[:60]}", rep(a, b, "pass")))
        if isinstance(n, (ast.Assign, ast.AugAssign)) and infn:
            a, b = span(n)
            if isinstance(n, ast.AugAssign) or isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                out.append((n.lineno, fn, f"delete {seg(n)[:60]}", rep(a, b, "pass")))
        if isinstance(n, (ast.Continue, ast.Break)):
            a, b = span(n)
            out.append((n.lineno, fn, "delete " + seg(n), rep(a, b, "pass")))
            out.append((n.lineno, fn, "swap " + seg(n), rep(a, b, "break" if isinstance(n, ast.Continue) else "continue")))
        if isinstance(n, ast.Call):
            f = seg(n.func)
            a, b = span(n)
            if f in ("copy.copy", "copy.deepcopy", "sorted", "abs", "list", "set", "reversed") and len(n.args) == 1:
                out.append((n.lineno, fn, f"drop {f}: {seg(n)[:60]}", rep(a, b, "(" + seg(n.args[0]) + ")")))
            if f.endswith(".deep_copy") and not n.args:
                out.append((n.lineno, fn, f"drop {seg(n)[:60]}", rep(a, b, f[:-len(".deep_copy")])))
            if f in ("min", "max", "any", "all"):
                c, d = span(n.func)
                out.append((n.lineno, fn, f"{f} swapped: {seg(n)[:60]}", rep(c, d, dict(min="max", max="min", any="all", all="any")[f])))
            for x, y in ((".min_with", ".max_with"), (".set_minus", ".intersect")):
                if f.endswith(x):
                    c, d = span(n.func)
                    out.append((n.lineno, fn, f"{x} -> {y}", rep(c, d, f[:-len(x)] + y)))
            for k in n.keywords:
                if k.arg:
                    c, d = span(k)
                    e = d
                    while e < b and raw[e:e + 1] in (b" ", b"\n"):
                        e += 1
                    if raw[e:e + 1] == b",":
                        out.append((n.lineno, fn, f"drop keyword {seg(k)[:60]}", rep(c, e + 1, "")))
                    else:
                        c0 = raw.rfind(b",", a, c)
                        if c0 > 0:
                            out.append((n.lineno, fn, f"drop keyword {seg(k)[:60]}", rep(c0, d, "")))
        for c in ast.iter_child_nodes(n):
            visit(c, fn, infn)

    visit(tree, "<module>", False)
    good = []
    for m in out:
        try:
            ast.parse(m[3])
            good.append(m)
        except SyntaxError:
            pass
    return good


if __name__ == "__main__":
    import sys
    for f in sys.argv[1:]:
        print(f.split("/")[-1], len(mutants(open(f).read())))
