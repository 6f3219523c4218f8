"""C files of the package, translated from clang's syntax tree (clang -ast-dump=json, regenerated on every run) to the same
symbolic runtime the Cython translator targets: doubles are symbolic reals, ints are concrete, pointers carry their object and
every access is checked against it."""
import functools
import json
import os
import re
import subprocess

import crt
from crt import Ptr, Buf, Raw, UNINIT
from sym import EngineGap, MemFault


class Gap(Exception):
    pass


class StructVal(crt.Struct):
    """a C struct value; passed by reference where the program takes its address, copied on assignment"""

    def __init__(self, fields):
        for f in fields:
            setattr(self, f, UNINIT)


def kind_of(ty):
    t = ty.replace("const", "").strip()
    if "[" in t:
        t = t.split("[")[0].strip()
    t = t.rstrip("*").strip()
    return {"double": "d", "float": "d", "int": "i", "void": "v", "char": "c", "size_t": "i", "unsigned long": "i"}.get(t, "o")


def qt(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType", "")


INT = ("int", "long", "unsigned int", "unsigned long", "size_t", "unsigned", "char", "short", "_Bool", "bool")


def is_int(ty):
    return ty.replace("const", "").strip() in INT


def is_ptr(ty):
    return ty.rstrip().endswith("*") or "[" in ty or "(*)" in ty


def limits(ty):
    t = ty.replace("const", "").strip()
    return {"int": (-2 ** 31, 2 ** 31 - 1), "long": (-2 ** 63, 2 ** 63 - 1)}.get(t)


class Fn:
    def __init__(self, tu, node):
        self.tu, self.n, self.out, self.ind = tu, node, [], 0
        self.cells, self.names = set(), {}
        self.scan(node)

    def scan(self, n):
        if n.get("kind") == "UnaryOperator" and n.get("opcode") == "&":
            d = n["inner"][0]
            while d["kind"] == "ParenExpr":
                d = d["inner"][0]
            if d["kind"] == "DeclRefExpr" and d["referencedDecl"]["kind"] in ("VarDecl", "ParmVarDecl"):
                ty = qt(d["referencedDecl"]) or qt(d)
                if not is_ptr(ty) and (is_int(ty) or ty.strip() in ("double", "float")) or is_ptr(ty) and "[" not in ty:
                    self.cells.add(d["referencedDecl"]["id"])
        for c in n.get("inner", []):
            self.scan(c)

    def w(self, s):
        self.out.append("    " * self.ind + s)

    def name(self, d):
        self.names[d["name"]] = "v_" + d["name"] + "_" + d["id"][-5:] + (".get()" if d["id"] in self.cells else "")
        return "v_" + d["name"] + "_" + d["id"][-5:]

    # ------------------------------------------------------------ statements
    def emit(self):
        ps = [c for c in self.n["inner"] if c["kind"] == "ParmVarDecl"]
        body = [c for c in self.n["inner"] if c["kind"] == "CompoundStmt"][0]
        self.w(f"def f_{self.n['name']}({', '.join(self.name(p) for p in ps)}):")
        self.ind = 1
        self.w("crt.tick()")
        for p in ps:
            if p["id"] in self.cells:
                self.w(f"{self.name(p)} = mkcell({self.name(p)})")
        self.block(body)
        self.w("return None")
        return "\n".join(self.out)

    def block(self, n):
        k = len(self.out)
        for c in (n.get("inner", []) if n["kind"] == "CompoundStmt" else [n]):
            self.stmt(c)
        if len(self.out) == k:
            self.w("pass")

    def stmt(self, n):
        k = n["kind"]
        if k == "CompoundStmt":
            return self.block(n)
        if k == "DeclStmt":
            for d in n["inner"]:
                self.decl(d)
        elif k == "IfStmt":
            i = n["inner"]
            self.w(f"if {self.cond(i[0])}:")
            self.sub(i[1])
            if n.get("hasElse"):
                self.w("else:")
                self.sub(i[2])
        elif k == "ForStmt":
            init, _, cond, inc, body = (n["inner"] + [{}] * 5)[:5]
            if init.get("kind"):
                self.stmt(init)
            self.loop(cond, inc, body)
        elif k == "WhileStmt":
            self.loop(n["inner"][0], None, n["inner"][1])
        elif k == "DoStmt":
            self.loop(None, None, n["inner"][0], post=n["inner"][1])
        elif k == "ReturnStmt":
            self.w("return " + (self.conv(self.ex(n["inner"][0]), qt(n["inner"][0])) if n.get("inner") else "None"))
        elif k == "BreakStmt":
            self.w("break")
        elif k == "ContinueStmt":
            if self.incs and self.incs[-1]:
                self.w(self.ex(self.incs[-1]))
            self.w("continue")
        elif k == "NullStmt":
            self.w("pass")
        else:
            self.w(self.ex(n))

    incs = ()

    def loop(self, cond, inc, body, post=None):
        self.incs = list(self.incs) + [inc if inc and inc.get("kind") else None]
        self.w("while True:")
        self.ind += 1
        self.w("crt.tick()")
        if cond and cond.get("kind"):
            self.w(f"if not ({self.cond(cond)}): break")
        self.block(body)
        if self.incs[-1]:
            self.w(self.ex(self.incs[-1]))
        if post:
            self.w(f"if not ({self.cond(post)}): break")
        self.ind -= 1
        self.incs = self.incs[:-1]

    def sub(self, n):
        self.ind += 1
        self.block(n)
        self.ind -= 1

    def decl(self, d):
        if d["kind"] != "VarDecl":
            return
        ty, nm = qt(d), self.name(d)
        init = [c for c in d.get("inner", []) if "kind" in c]
        if "[" in ty:
            # array: constant or variable length
            if ty.count("[") != 1:
                raise Gap("array of arrays")
            if d.get("init"):
                raise Gap("array initialiser")
            size = self.ex(init[0]) if init else self.text(ty[ty.index("[") + 1:ty.index("]")])
            self.w(f"{nm} = mkarr({size}, {kind_of(ty)!r})")
            return
        v = self.conv(self.ex(init[0]), ty) if init and d.get("init") else ("UNINIT" if ty not in self.tu.structs else f"StructVal({self.tu.structs[ty]!r})")
        if ty in self.tu.structs and init:
            v = f"copy_struct({v})"
        self.w(f"{nm} = mkcell({v})" if d["id"] in self.cells else f"{nm} = {v}")

    def text(self, t):
        """the length of a variable length array, which the tree gives as text only"""
        out = []
        for tok in re.findall(r"->|\w+|\S", t):
            if tok == "->":
                out.append(".")
            elif tok.isdigit() or tok in "+-*()." or out and out[-1] == ".":
                out.append(tok)
            elif tok in self.names:
                out.append(self.names[tok])
            else:
                raise Gap("array length " + t)
        return "".join(out)

    # ------------------------------------------------------------ expressions
    def cond(self, n):
        return f"truth({self.ex(n)})"

    def conv(self, e, ty):
        return e

    def lv(self, n):
        """('name', py) | ('item', ptr, idx) | ('attr', obj, field)"""
        k = n["kind"]
        if k == "ParenExpr":
            return self.lv(n["inner"][0])
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            if d["kind"] not in ("VarDecl", "ParmVarDecl"):
                raise Gap("assignment to " + d["kind"])
            return ("item", self.name(d) + ".ptr()", "0") if d["id"] in self.cells else ("name", self.name(d))
        if k == "ArraySubscriptExpr":
            return ("item", self.ex(n["inner"][0]), self.ex(n["inner"][1]))
        if k == "UnaryOperator" and n["opcode"] == "*":
            return ("item", self.ex(n["inner"][0]), "0")
        if k == "MemberExpr":
            return ("attr", self.ex(n["inner"][0]), n["name"])
        raise Gap("lvalue " + k)

    def load(self, l):
        if l[0] == "name":
            return l[1]
        if l[0] == "item":
            return f"ld({l[1]}, {l[2]})"
        return f"attr({l[1]}, {l[2]!r})"

    def store(self, l, v):
        if l[0] == "name":
            return f"({l[1]} := {v})"
        if l[0] == "item":
            return f"st({l[1]}, {l[2]}, {v})"
        return f"sattr({l[1]}, {l[2]!r}, {v})"

    def ex(self, n):
        k = n["kind"]
        i = n.get("inner", [])
        if k == "ParenExpr":
            return f"({self.ex(i[0])})"
        if k == "ConstantExpr":
            return self.ex(i[0])
        if k == "IntegerLiteral":
            return n["value"]
        if k == "CharacterLiteral":
            return str(n["value"])
        if k == "FloatingLiteral":
            return f"Fc({n['value']!r})"
        if k == "StringLiteral":
            return repr(n["value"])
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            ck, ty = n.get("castKind"), qt(n)
            e = self.ex(i[-1])
            if ck == "IntegralToFloating":
                return f"cd({e})"
            if ck == "FloatingToIntegral":
                return f"crt.trunc({e})"
            if ck == "BitCast":
                return f"cast({e}, {kind_of(ty)!r})"
            if ck == "NullToPointer":
                return "None"
            if ck in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "ArrayToPointerDecay", "FloatingCast", "BuiltinFnToFnPtr", "ToVoid"):
                return e
            if ck == "IntegralCast":
                lim = limits(ty)
                return f"narrow({e}, {lim!r})" if lim else e
            if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
                return f"truth({e})"
            raise Gap("cast " + str(ck))
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            if d["kind"] == "FunctionDecl":
                return self.tu.fn(d["name"])
            if d["kind"] == "EnumConstantDecl":
                raise Gap("enum")
            if d["id"] in self.cells:
                return f"{self.name(d)}.get()"
            return self.name(d) if d["kind"] in ("VarDecl", "ParmVarDecl") else self.bad(k)
        if k in ("ArraySubscriptExpr", "MemberExpr"):
            return self.load(self.lv(n))
        if k == "UnaryOperator":
            return self.unary(n, i[0])
        if k == "BinaryOperator":
            op = n["opcode"]
            if op == "=":
                v = self.ex(i[1])
                if qt(n) in self.tu.structs:
                    v = f"copy_struct({v})"
                return self.store(self.lv(i[0]), v)
            if op == ",":
                return f"({self.ex(i[0])}, {self.ex(i[1])})[1]"
            if op in ("&&", "||"):
                return f"(1 if {self.cond(i[0])} {'and' if op == '&&' else 'or'} {self.cond(i[1])} else 0)"
            a, b = self.ex(i[0]), self.ex(i[1])
            return self.arith(op, a, b, qt(i[0]), qt(n))
        if k == "CompoundAssignOperator":
            l = self.lv(i[0])
            rt = n.get("computeResultType", {}).get("qualType") or qt(n)
            if is_int(rt) != is_int(qt(n)):
                raise Gap("compound assignment that changes the type")
            return self.store(l, self.arith(n["opcode"][:-1], self.load(l), self.ex(i[1]), qt(i[0]), rt))
        if k == "ConditionalOperator":
            return f"({self.ex(i[1])} if {self.cond(i[0])} else {self.ex(i[2])})"
        if k == "CallExpr":
            f = self.ex(i[0])
            return f"{f}({', '.join(self.ex(a) for a in i[1:])})"
        if k == "UnaryExprOrTypeTraitExpr":
            ty = n.get("argType", {}).get("qualType") or qt(i[0])
            sz = {"double": 8, "float": 4, "int": 4, "char": 1}.get(ty, 8 if is_ptr(ty) else None)
            if sz is None or n.get("name") != "sizeof":
                raise Gap("sizeof " + ty)
            return str(sz)
        if k == "InitListExpr":
            raise Gap("initialiser list")
        return self.bad(k)

    def bad(self, k):
        raise Gap(k)

    def arith(self, op, a, b, ta, tr):
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return f"cmp_({op!r}, {a}, {b})"
        if is_int(tr) and op in ("+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"):
            return f"iop({op!r}, {a}, {b}, {limits(tr)!r})"
        if is_ptr(tr) or is_ptr(ta):
            return f"pop_({op!r}, {a}, {b})"
        if op == "/":
            return f"crt.div({a}, {b})"
        return f"({a} {op} {b})"

    def unary(self, n, x):
        op = n["opcode"]
        if op == "&":
            while x["kind"] == "ParenExpr":
                x = x["inner"][0]
            if x["kind"] == "DeclRefExpr":
                d = x["referencedDecl"]
                return f"{self.name(d)}.ptr()" if d["id"] in self.cells else self.name(d)
            l = self.lv(x)
            if l[0] == "item":
                return f"pop_('+', {l[1]}, {l[2]})"
            raise Gap("address of a field")
        if op == "*":
            return f"ld({self.ex(x)}, 0)"
        if op == "-":
            return f"iop('-', 0, {self.ex(x)}, {limits(qt(n))!r})" if is_int(qt(n)) else f"(-({self.ex(x)}))"
        if op == "+":
            return self.ex(x)
        if op == "!":
            return f"(0 if {self.cond(x)} else 1)"
        if op in ("++", "--"):
            l = self.lv(x)
            step = self.arith(op[0], self.load(l), "1", qt(x), qt(n))
            if n.get("isPostfix"):
                if l[0] == "name":
                    return f"({l[1]}, {self.store(l, step)})[0]"
                return f"({self.load(l)}, {self.store(l, step)})[0]"
            return self.store(l, step)
        raise Gap("operator " + op)


class TU:
    def __init__(self, path):
        self.path = path
        lang = [] if path.endswith(".c") else ["-x", "c"]
        r = subprocess.run(["clang", "-w", "-Xclang", "-ast-dump=json", "-fsyntax-only"] + lang + [path], capture_output=True, text=True, timeout=60)
        if r.returncode:
            raise Gap("clang: " + r.stderr[-300:])
        root = json.loads(r.stdout)
        self.structs, self.nodes, self.g = {}, {}, dict(ENV)
        recs = {}
        for n in root["inner"]:
            if n["kind"] == "RecordDecl":
                recs[n["id"]] = [f["name"] for f in n.get("inner", []) if f["kind"] == "FieldDecl"]
                if n.get("name"):
                    self.structs["struct " + n["name"]] = self.structs[n["name"]] = recs[n["id"]]
            elif n["kind"] == "TypedefDecl":
                for c in n.get("inner", []):
                    d = (c.get("ownedTagDecl") or {}).get("id") or (c.get("decl") or {}).get("id")
                    for cc in c.get("inner", []):
                        d = d or (cc.get("decl") or {}).get("id")
                    if d in recs:
                        self.structs[n["name"]] = recs[d]
            elif n["kind"] == "FunctionDecl" and any(c["kind"] == "CompoundStmt" for c in n.get("inner", [])):
                self.nodes[n["name"]] = n
        self.done = {}

    def fn(self, name):
        if name in self.nodes:
            self.get(name)
            return "f_" + name
        if name in CLIB:
            return "c_" + name
        raise Gap("C function " + name)

    def get(self, name):
        if name not in self.done:
            self.done[name] = True
            src = Fn(self, self.nodes[name]).emit()
            exec(compile(src, self.path + " (encoded)", "exec"), self.g)
            f = self.g["f_" + name]
            f.__code__ = f.__code__.replace(co_qualname=name)
        return self.g.get("f_" + name)


def as_ptr(p):
    if isinstance(p, Raw):
        return p.typed("d")
    if p is None:
        raise MemFault("null pointer used")
    return p


def ld(p, i):
    p = as_ptr(p)
    if isinstance(p, StructVal):
        return p
    v = p.get_item(i)
    if type(v) is crt.Uninit:
        raise MemFault("uninitialised value read")
    return v


def st(p, i, v):
    as_ptr(p).set_item(i, v)
    return v


def attr(o, f):
    if o is None:
        raise MemFault("null pointer used")
    v = getattr(o, f)
    if type(v) is crt.Uninit:
        raise MemFault("uninitialised field " + f)
    return v


def sattr(o, f, v):
    if o is None:
        raise MemFault("null pointer used")
    setattr(o, f, v)
    return v


def cmp_(op, a, b):
    if isinstance(a, (Ptr, Raw)) or isinstance(b, (Ptr, Raw)) or a is None or b is None:
        r = (a is b) or (a is not None and b is not None and a == b)
        if op == "==":
            return 1 if r else 0
        if op == "!=":
            return 0 if r else 1
        return 1 if {"<": a.off < b.off, ">": a.off > b.off, "<=": a.off <= b.off, ">=": a.off >= b.off}[op] else 0
    for x in (a, b):
        if type(x) is crt.Uninit:
            raise MemFault("uninitialised value read")
    if op == "==":
        r = a == b
    elif op == "!=":
        r = a != b
    elif op == "<":
        r = a < b
    elif op == ">":
        r = a > b
    elif op == "<=":
        r = a <= b
    else:
        r = a >= b
    return 1 if bool(r) else 0


def truth(x):
    if x is None:
        return False
    if isinstance(x, (Ptr, Raw, StructVal)):
        return True
    if type(x) is crt.Uninit:
        raise MemFault("uninitialised value read")
    return bool(x != 0)


def iop(op, a, b, lim):
    a, b = crt.ci(a), crt.ci(b)
    if op in "/%":
        if b == 0:
            raise MemFault("integer division by zero")
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        r = q if op == "/" else a - q * b
    else:
        r = {"+": a + b, "-": a - b, "*": a * b}.get(op)
        if r is None:
            r = {"<<": a << b, ">>": a >> b, "&": a & b, "|": a | b, "^": a ^ b}[op]
    if lim and not lim[0] <= r <= lim[1]:
        raise MemFault("signed integer overflow")
    return r


def narrow(e, lim):
    e = crt.ci(e)
    if not lim[0] <= e <= lim[1]:
        raise EngineGap("narrowing conversion out of range")
    return e


def pop_(op, a, b):
    if isinstance(a, int):
        a, b = b, a
    a = as_ptr(a)
    if op == "+":
        r = a + crt.ci(b)
        if r.off < 0 or r.off > len(r.buf.cells):
            raise MemFault("pointer moved outside its object")
        return r
    if isinstance(b, Ptr):
        return a - b
    return a + (-crt.ci(b))


def cast(p, kind):
    if isinstance(p, Raw):
        return p if kind == "v" else p.typed("d" if kind in ("d", "o", "i") else kind)
    if isinstance(p, Ptr) and kind != "v" and p.buf.esize != 1:
        return p
    return crt.cp(p, kind) if isinstance(p, Ptr) else p


def mkarr(n, kind):
    n = crt.ci(n)
    if n < 0:
        raise MemFault("array of negative length")
    if kind != "d":
        return Ptr(Buf([UNINIT] * n, 8, False), 0, "i")
    import numpy as np
    a = np.empty(n, dtype=object)
    a[...] = UNINIT
    return Ptr(Buf(a, 8, False), 0, "d")


class ICell(crt.Cell):
    """keeps ints as they are"""


def copy_struct(v):
    r = StructVal(())
    r.__dict__.update(v.__dict__)
    return r


def c_qsort(base, n, size, f):
    """any conforming qsort: the result is the array's elements in an order the comparison accepts"""
    base, n = as_ptr(base), crt.ci(n)
    if crt.ci(size) != (8 if base.kind == "d" else 4):
        raise EngineGap("qsort element size")
    import numpy as np
    vals = [ld(base, i) for i in range(n)]

    def less(x, y):
        a = np.empty(2, dtype=object)
        a[0], a[1] = x, y
        b = Buf(a, 8, False)
        return crt.ci(f(Ptr(b, 0, base.kind), Ptr(b, 1, base.kind)))
    vals.sort(key=functools.cmp_to_key(less))
    for i, v in enumerate(vals):
        st(base, i, v)


def c_exit(*a):
    raise MemFault("the process exits")


def _sqrt(x):
    return crt.cd(x).sqrt()


CLIB = dict(malloc=crt.malloc, realloc=lambda p, n: crt.realloc(p, n), free=crt.free, qsort=c_qsort, fabs=lambda x: abs(x), sqrt=_sqrt, exit=c_exit,
            perror=lambda *a: None, printf=lambda *a: 0, memcpy=crt.memcpy)
ENV = dict(crt=crt, ld=ld, st=st, attr=attr, sattr=sattr, cmp_=cmp_, truth=truth, iop=iop, narrow=narrow, pop_=pop_, cast=cast, mkarr=mkarr,
           mkcell=crt.cell, UNINIT=UNINIT, StructVal=StructVal, copy_struct=copy_struct, Fc=crt.Fc, cd=crt.cd, **{"c_" + k: v for k, v in CLIB.items()})
_tus = {}


def load(path, name):
    """the translated C function, None when the file does not define it"""
    if path not in _tus:
        try:
            _tus[path] = TU(path)
        except (Gap, OSError, ValueError, subprocess.TimeoutExpired) as ex:
            _tus[path] = str(ex)
    t = _tus[path]
    if isinstance(t, str) or name not in t.nodes:
        return None
    try:
        return t.get(name)
    except Gap as ex:
        msg = f"C function {name}: {ex}"

        def gap(*a):
            raise EngineGap(msg)
        return gap
