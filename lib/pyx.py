"""Python source -> Python AST in which literals, divisions and powers go through the symbolic runtime."""
import ast


class T(ast.NodeTransformer):
    def _call(self, f, *a):
        return ast.Call(ast.Name(f, ast.Load()), list(a), [])

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(self._call("Z_F", ast.Constant(repr(n.value))), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        f = {ast.Div: "Z_div", ast.Pow: "Z_pow", ast.FloorDiv: "Z_fdiv", ast.Mod: "Z_mod"}.get(type(n.op))
        if f:
            if f == "Z_mod" and isinstance(n.left, (ast.JoinedStr,)):
                return n
            if f == "Z_div":
                f = "Z_pydiv"
            return ast.copy_location(self._call(f, n.left, n.right), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        op = {ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//"}.get(type(n.op))
        if op is None:
            return n
        import copy
        load = copy.deepcopy(n.target)
        for x in ast.walk(load):
            if hasattr(x, "ctx") and x is load:
                x.ctx = ast.Load()
        return ast.copy_location(ast.Assign([n.target], self._call("Z_iop", ast.Constant(op), load, n.value)), n)

    def visit_While(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.copy_location(ast.Expr(self._call("Z_tick")), n))
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and getattr(n.iter.func, "id", getattr(n.iter.func, "attr", "")) in ("count", "repeat", "iter"):
            n.body.insert(0, ast.copy_location(ast.Expr(self._call("Z_tick")), n))
        return n

    def visit_AnnAssign(self, n):
        n.value = self.visit(n.value) if n.value is not None else None
        n.target = self.visit(n.target)
        return n

    def visit_FunctionDef(self, n):
        # annotations are not code
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        n.returns = None
        n.body = [self.visit(s) for s in n.body]
        return n

    def visit_ClassDef(self, n):
        self.generic_visit(n)
        for b in n.bases:
            if isinstance(b, ast.Name) and b.id in ("int", "float"):
                b.id = "Z_py" + b.id
        return n

    def visit_MatchValue(self, n):
        return n


def compile_py(path, modname):
    src = open(path, encoding="utf-8").read()
    tree = ast.parse(src, path)
    funcs = [x.name for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef,))]
    tree = ast.fix_missing_locations(T().visit(tree))
    return compile(tree, path, "exec"), funcs
