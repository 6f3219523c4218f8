"""C++ files of the package, executed over symbolic values from clang's syntax tree (clang++ -ast-dump=json, regenerated on every
run). Classes of the standard library that the package uses (vector, array) are modelled by memory slots: an element keeps its slot
when others are erased (the contents move, as in C++), a reallocation or an erased slot leaves the old one dead, and every access is
checked. doubles are symbolic reals, integers concrete with C++ wrap-around, conditions split paths."""
import json
import os
import re
import subprocess

import crt
from crt import UNINIT
from sym import EngineGap, MemFault, Rl


class Gap(Exception):
    pass


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Arr:
    """std::array<T, n> or T[n]: a slot per element"""

    def __init__(self, v):
        self.v, self.dead = list(v), False

    def at(self, i):
        if self.dead:
            raise MemFault("use of an element that is no longer there")
        if type(i) is not int or not 0 <= i < len(self.v):
            raise MemFault(f"std::array index {i} of {len(self.v)}")
        return Slot(self, i)

    def copy(self):
        if self.dead:
            raise MemFault("use of an element that is no longer there")
        return Arr([x.copy() if isinstance(x, (Arr, Vec)) else x for x in self.v])

    def assign(self, o):
        if o is not self:
            self.v = o.copy().v
        if self.dead:
            raise MemFault("use of an element that is no longer there")

    # as Python sees it (the Cython side)
    def __getitem__(self, i):
        return self.at(crt.ci(i)).get()

    def __setitem__(self, i, x):
        self.at(crt.ci(i)).set(crt.cd(x))


class Vec:
    def __init__(self, v=(), zero=None):
        self.v, self.zero, self.cap = list(v), zero, len(v)

    def at(self, i):
        if type(i) is not int or not 0 <= i < len(self.v):
            raise MemFault(f"std::vector index {i} of {len(self.v)}")
        return Slot(self, i)

    def copy(self):
        return Vec([x.copy() if isinstance(x, (Arr, Vec)) else x for x in self.v], self.zero)

    def assign(self, o):
        if o is not self:
            n = o.copy()
            self.kill(self.v)
            self.v, self.cap = n.v, n.cap

    @staticmethod
    def kill(xs):
        for x in xs:
            if isinstance(x, Arr):
                x.dead = True

    def grow(self, n):
        if n > self.cap:
            new = [x.copy() if isinstance(x, (Arr, Vec)) else x for x in self.v]
            self.kill(self.v)
            self.v, self.cap = new, n

    def push(self, x):
        x = x.copy() if isinstance(x, (Arr, Vec)) else x
        if len(self.v) == self.cap:
            self.grow(max(1, 2 * self.cap))
        self.v.append(x)

    def erase(self, a, b):
        n = len(self.v)
        if not 0 <= a <= b <= n:
            raise MemFault(f"erase of [{a}, {b}) from {n} elements")
        for i in range(a, n - (b - a)):
            self.put(i, self.v[i + b - a])
        self.kill(self.v[n - (b - a):])
        del self.v[n - (b - a):]

    def insert(self, i, x):
        if not 0 <= i <= len(self.v):
            raise MemFault("insert past the end")
        x = x.copy() if isinstance(x, (Arr, Vec)) else x
        self.push(x)
        for k in range(len(self.v) - 1, i, -1):
            self.put(k, self.v[k - 1])
        self.put(i, x)

    def put(self, i, x):
        if isinstance(self.v[i], (Arr, Vec)):
            self.v[i].assign(x)
        else:
            self.v[i] = x

    def __getitem__(self, i):
        return self.at(crt.ci(i)).get()

    def __setitem__(self, i, x):
        self.at(crt.ci(i)).set(x)

    def __len__(self):
        return len(self.v)

    def size(self):
        return len(self.v)

    def push_back(self, x):
        self.push(x)


class Slot:
    """an lvalue"""

    def __init__(self, o, i):
        self.o, self.i = o, i

    def get(self):
        v = self.o.v[self.i]
        if v is UNINIT:
            raise MemFault("read of an element that was never written")
        return v

    def set(self, x):
        if isinstance(x, (Arr, Vec)) and isinstance(self.o.v[self.i], (Arr, Vec)):
            self.o.v[self.i].assign(x)
        else:
            self.o.v[self.i] = x


class Var:
    def __init__(self, v=UNINIT):
        self.v = v

    def get(self):
        if self.v is UNINIT:
            raise MemFault("read of a variable that was never written")
        return self.v

    def set(self, x):
        if isinstance(x, (Arr, Vec)) and isinstance(self.v, (Arr, Vec)):
            self.v.assign(x)
        else:
            self.v = x


class Iter:
    def __init__(self, vec, i):
        self.vec, self.i = vec, i

    def copy(self):
        return Iter(self.vec, self.i)


class Lambda:
    def __init__(self, ops, env):
        self.ops, self.env = ops, env


def isl(x):
    return isinstance(x, (Slot, Var))


UNS = {"unsigned long": 64, "size_t": 64, "unsigned int": 32, "unsigned": 32, "unsigned char": 8, "unsigned long long": 64}
SGN = {"int": 32, "long": 64, "short": 16, "char": 8, "long long": 64, "ptrdiff_t": 64}


def ty(n):
    t = n.get("type", {})
    s = t.get("desugaredQualType") or t.get("qualType", "")
    return re.sub(r"^const |\s*&+$", "", s).strip()


def is_int(t):
    return t in UNS or t in SGN


def wrap(v, t):
    if type(v) is not int:
        return v
    if t in UNS:
        return v % (1 << UNS[t])
    if t in SGN and not -(1 << SGN[t] - 1) <= v < (1 << SGN[t] - 1):
        raise MemFault(f"overflow of {t}: {v}")
    return v


def truth(v):
    if isinstance(v, Rl):
        return bool(v != 0)
    return bool(v)


def num(a, t):
    """a as a value of the arithmetic type t"""
    if t in ("double", "float", "long double"):
        return crt.cd(a) if not isinstance(a, bool) else crt.cd(int(a))
    if t == "bool":
        return a if not isinstance(a, (int, Rl)) or isinstance(a, bool) else truth(a)
    if is_int(t):
        if isinstance(a, Rl):
            a = crt.trunc(a)
        return wrap(crt.ci(a), t)
    return a


class TU:
    def __init__(self, path, names):
        self.path, self.fns = path, {}
        src = open(path).read()
        inc = [l for l in src.splitlines() if re.match(r"\s*#\s*include\s*<", l)]
        use = "\n".join(f"void* zz_use_{i} = (void*)&{n}<double>;" if re.search(r"template\s*<[^>]*>\s*(inline\s+|static\s+)*[^;{}]*?\b" + n + r"\s*\(", src) else ""
                        for i, n in enumerate(names))
        text = "\n".join(inc) + f'\nnamespace zz {{\n#include "{os.path.abspath(path)}"\n{use}\n}}\n'
        r = subprocess.run(["clang++", "-std=c++17", "-x", "c++", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=zz", "-"],
                           input=text, capture_output=True, text=True, timeout=120)
        if r.returncode:
            raise Gap("clang: " + r.stderr[:200])
        dec, s, i = json.JSONDecoder(), r.stdout, 0
        while True:
            i = s.find("{", i)
            if i < 0:
                break
            d, i = dec.raw_decode(s, i)
            self.collect(d)

    def collect(self, n):
        k = n.get("kind")
        if k in ("FunctionDecl",) and any(c.get("kind") == "CompoundStmt" for c in n.get("inner", [])):
            self.fns.setdefault(n["name"], {})[n["type"]["qualType"]] = n
        if k in ("NamespaceDecl", "FunctionTemplateDecl", "LinkageSpecDecl", "TranslationUnitDecl"):
            for c in n.get("inner", []):
                self.collect(c)

    def find(self, name, qt):
        c = self.fns.get(name, {})
        if qt in c:
            return c[qt]
        return None

    def entry(self, name):
        c = [n for q, n in self.fns.get(name, {}).items() if "<T>" not in q and not re.search(r"\bT\b", q)]
        if len(c) != 1:
            raise Gap(f"{name}: {len(c)} definitions")
        return c[0]


class Run:
    def __init__(self, tu):
        self.tu, self.depth = tu, 0

    # ------------------------------------------------------------ functions
    def call(self, node, args, env=None):
        """args: values or lvalues, in order"""
        e = dict(env or {})
        ps = [c for c in node.get("inner", []) if c["kind"] == "ParmVarDecl"]
        if len(args) != len(ps):
            raise EngineGap("C++ call with default arguments")
        for p, a in zip(ps, args):
            e[p["id"]] = self.bind(p, a)
        self.depth += 1
        if self.depth > 200:
            raise EngineGap("C++ recursion")
        try:
            self.stmt(next(c for c in node["inner"] if c["kind"] == "CompoundStmt"), e)
        except Return as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def bind(self, decl, a):
        q = decl["type"].get("qualType", "")
        if q.rstrip().endswith("&"):
            if isl(a):
                return a
            return Var(a)
        v = self.val(a)
        return Var(v.copy() if isinstance(v, (Arr, Vec, Iter)) else num(v, ty(decl)))

    @staticmethod
    def val(x):
        return x.get() if isl(x) else x

    # ------------------------------------------------------------ statements
    def stmt(self, n, e):
        f = getattr(self, "s_" + n.get("kind", "None"), None)
        if f:
            return f(n, e)
        self.ev(n, e)

    def s_CompoundStmt(self, n, e):
        for c in n.get("inner", []):
            self.stmt(c, e)

    def s_NullStmt(self, n, e):
        pass

    def s_DeclStmt(self, n, e):
        for d in n["inner"]:
            if d["kind"] in ("TypeAliasDecl", "TypedefDecl", "StaticAssertDecl", "UsingDecl"):
                continue
            if d["kind"] != "VarDecl":
                raise EngineGap("C++ declaration " + d["kind"])
            if d.get("storageClass") == "static":
                raise EngineGap("static variable")
            init = [c for c in d.get("inner", []) if not c["kind"].endswith("Attr")]
            if not init:
                t = ty(d)
                m = re.match(r"^(.*)\[(\d+)\]$", t)
                e[d["id"]] = Var(Arr([UNINIT] * int(m.group(2))) if m else UNINIT)
                continue
            a = self.ev(init[-1], e)
            if d["type"].get("qualType", "").rstrip().endswith("&"):
                e[d["id"]] = a if isl(a) else Var(a)
            else:
                v = self.val(a)
                e[d["id"]] = Var(v.copy() if isinstance(v, (Arr, Vec, Iter)) else num(v, ty(d)))

    def s_IfStmt(self, n, e):
        c = n["inner"]
        if n.get("hasInit") or n.get("hasVar"):
            self.stmt(c[0], e)
            c = c[1:]
        if truth(self.val(self.ev(c[0], e))):
            self.stmt(c[1], e)
        elif len(c) > 2:
            self.stmt(c[2], e)

    def loop(self, body, e):
        try:
            self.stmt(body, e)
        except Continue:
            pass

    def s_ForStmt(self, n, e):
        init, var, cond, inc, body = n["inner"]
        if init.get("kind"):
            self.stmt(init, e)
        k = 0
        try:
            while not cond.get("kind") or truth(self.val(self.ev(cond, e))):
                self.loop(body, e)
                if inc.get("kind"):
                    self.ev(inc, e)
                k += 1
                if k > 5000:
                    raise EngineGap("C++ loop does not end")
        except Break:
            pass

    def s_WhileStmt(self, n, e):
        k = 0
        try:
            while truth(self.val(self.ev(n["inner"][0], e))):
                self.loop(n["inner"][1], e)
                k += 1
                if k > 5000:
                    raise EngineGap("C++ loop does not end")
        except Break:
            pass

    def s_DoStmt(self, n, e):
        try:
            for _ in range(5000):
                self.loop(n["inner"][0], e)
                if not truth(self.val(self.ev(n["inner"][1], e))):
                    return
            raise EngineGap("C++ loop does not end")
        except Break:
            pass

    def s_CXXForRangeStmt(self, n, e):
        c = [x for x in n["inner"] if x.get("kind")]
        rng, var, body = c[0], c[-2], c[-1]
        self.stmt(rng, e)
        v = e[rng["inner"][0]["id"]].get()
        d = var["inner"][0]
        try:
            for i in range(len(v.v)):
                s = v.at(i)
                e[d["id"]] = s if d["type"]["qualType"].rstrip().endswith("&") else Var(s.get().copy() if isinstance(s.get(), (Arr, Vec)) else s.get())
                self.loop(body, e)
        except Break:
            pass

    def s_SwitchStmt(self, n, e):
        v = self.val(self.ev(n["inner"][0], e))
        flat = []
        for s in n["inner"][-1].get("inner", []):
            while s["kind"] in ("CaseStmt", "DefaultStmt"):
                flat.append(("case", int(s["inner"][0]["value"]) if s["kind"] == "CaseStmt" else None))
                s = s["inner"][-1]
            flat.append(("stmt", s))
        at = next((i for i, (k, x) in enumerate(flat) if k == "case" and x is not None and x == v), None)
        if at is None:
            at = next((i for i, (k, x) in enumerate(flat) if k == "case" and x is None), None)
        if at is None:
            return
        try:
            for k, s in flat[at:]:
                if k == "stmt":
                    self.stmt(s, e)
        except Break:
            pass

    def s_BreakStmt(self, n, e):
        raise Break

    def s_ContinueStmt(self, n, e):
        raise Continue

    def s_ReturnStmt(self, n, e):
        if not n.get("inner"):
            raise Return(None)
        v = self.val(self.ev(n["inner"][0], e))
        raise Return(v.copy() if isinstance(v, (Arr, Vec, Iter)) else v)

    # ------------------------------------------------------------ expressions
    def ev(self, n, e):
        k = n.get("kind")
        f = getattr(self, "e_" + str(k), None)
        if f is None:
            raise EngineGap(f"C++ {k}")
        return f(n, e)

    def e_IntegerLiteral(self, n, e):
        return int(n["value"])

    def e_FloatingLiteral(self, n, e):
        return crt.Fc(n["value"])

    def e_CXXBoolLiteralExpr(self, n, e):
        return bool(n["value"])

    def sub(self, n, e):
        return self.ev(n["inner"][0], e)

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_MaterializeTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = sub

    def e_ImplicitCastExpr(self, n, e):
        ck = n.get("castKind")
        if ck == "FunctionToPointerDecay":
            return n["inner"][0]
        v = self.ev(n["inner"][0], e)
        if ck in ("NoOp", "ArrayToPointerDecay", "UserDefinedConversion", "ConstructorConversion", "DerivedToBase", "UncheckedDerivedToBase"):
            return v
        if ck == "LValueToRValue":
            return self.val(v)
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "FloatingCast"):
            return num(self.val(v), ty(n))
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            return truth(self.val(v))
        raise EngineGap("C++ cast " + str(ck))

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_ImplicitCastExpr

    def e_DeclRefExpr(self, n, e):
        d = n["referencedDecl"]
        if d["id"] in e:
            return e[d["id"]]
        raise EngineGap("C++ name " + d.get("name", "?"))

    def e_UnaryOperator(self, n, e):
        op = n["opcode"]
        a = self.ev(n["inner"][0], e)
        if op in ("++", "--"):
            v = a.get()
            a.set(wrap(v + (1 if op == "++" else -1), ty(n)))
            return v if n.get("isPostfix") else a
        v = self.val(a)
        if op == "-":
            return wrap(-v, ty(n))
        if op == "+":
            return v
        if op == "!":
            return not truth(v)
        raise EngineGap("C++ unary " + op)

    def e_BinaryOperator(self, n, e):
        op = n["opcode"]
        l, r = n["inner"]
        if op == "&&":
            return truth(self.val(self.ev(l, e))) and truth(self.val(self.ev(r, e)))
        if op == "||":
            return truth(self.val(self.ev(l, e))) or truth(self.val(self.ev(r, e)))
        if op == "=":
            v = self.val(self.ev(r, e))
            a = self.ev(l, e)
            a.set(v)
            return a
        if op == ",":
            self.ev(l, e)
            return self.ev(r, e)
        a, b = self.val(self.ev(l, e)), self.val(self.ev(r, e))
        return self.arith(op, a, b, ty(n))

    def e_CompoundAssignOperator(self, n, e):
        l, r = n["inner"]
        b = self.val(self.ev(r, e))
        a = self.ev(l, e)
        ct = n.get("computeResultType", {})
        t = re.sub(r"^const ", "", ct.get("desugaredQualType") or ct.get("qualType", ""))
        a.set(num(self.arith(n["opcode"][:-1], num(a.get(), t), b, t), ty(n)))
        return a

    def arith(self, op, a, b, t):
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return {"<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}[op]()
        if op == "+":
            return wrap(a + b, t)
        if op == "-":
            return wrap(a - b, t)
        if op == "*":
            return wrap(a * b, t)
        if op == "/":
            if is_int(t):
                if b == 0:
                    raise MemFault("integer division by zero")
                q = abs(a) // abs(b)
                return q if (a < 0) == (b < 0) else -q
            return crt.div(crt.cd(a), crt.cd(b))
        if op == "%":
            if b == 0:
                raise MemFault("integer division by zero")
            r = abs(a) % abs(b)
            return r if a >= 0 else -r
        raise EngineGap("C++ operator " + op)

    def e_ConditionalOperator(self, n, e):
        c, a, b = n["inner"]
        return self.ev(a if truth(self.val(self.ev(c, e))) else b, e)

    def e_InitListExpr(self, n, e):
        t = ty(n)
        inner = n.get("inner", [])
        if t.startswith("std::array<") or t.startswith("array<"):
            if inner and inner[0]["kind"] == "InitListExpr":
                return self.ev(inner[0], e)
            if not inner:
                return self.zero(t)
            raise EngineGap("C++ initializer of " + t)
        m = re.match(r"^(.*)\[(\d+)\]$", t)
        if m:
            items = inner or n.get("array_filler", [])
            vals = [self.val(self.ev(c, e)) for c in items if c.get("kind") != "ImplicitValueInitExpr"]
            vals = [v.copy() if isinstance(v, (Arr, Vec)) else v for v in vals]
            while len(vals) < int(m.group(2)):
                vals.append(self.zero(m.group(1).strip()))
            return Arr(vals)
        if len(inner) == 1:
            return self.ev(inner[0], e)
        raise EngineGap("C++ initializer of " + t)

    def e_CXXStdInitializerListExpr(self, n, e):
        return self.ev(n["inner"][0], e)

    def e_ImplicitValueInitExpr(self, n, e):
        return self.zero(ty(n))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def zero(self, t):
        t = re.sub(r"^const |^struct |^class ", "", t).strip()
        if t in ("double", "float", "T"):
            return crt.cd(0)
        if t == "bool":
            return False
        if is_int(t):
            return 0
        m = re.match(r"^(?:std::)?array<(.*), (\d+)(?:UL)?>$", t)
        if m:
            return Arr([self.zero(m.group(1)) for _ in range(int(m.group(2)))])
        m = re.match(r"^(?:std::)?vector<(.*)>$", t)
        if m:
            return Vec()
        raise EngineGap("C++ zero of " + t)

    def e_CXXConstructExpr(self, n, e):
        t = ty(n)
        args = [c for c in n.get("inner", []) if c["kind"] != "CXXDefaultArgExpr"]
        m = re.match(r"^(?:std::)?vector<(.*)>$", t)
        vals = [self.ev(c, e) for c in args]
        if m:
            el = m.group(1)
            if not vals:
                return Vec(zero=el)
            v = self.val(vals[0])
            if len(vals) == 1 and isinstance(v, Vec):
                return v.copy()
            if len(vals) == 1 and isinstance(v, Arr):
                return Vec(v.copy().v, el)
            if isinstance(v, int):
                if v > 10 ** 6:
                    raise MemFault("vector of enormous size")
                if len(vals) == 1:
                    return Vec([self.zero(el) for _ in range(v)], el)
                x = self.val(vals[1])
                return Vec([x.copy() if isinstance(x, (Arr, Vec)) else x for _ in range(v)], el)
            if isinstance(v, Iter):
                w = self.val(vals[1])
                return Vec([x.copy() if isinstance(x, (Arr, Vec)) else x for x in v.vec.v[v.i:w.i]], el)
            raise EngineGap("C++ vector constructor")
        if len(vals) == 1:
            v = self.val(vals[0])
            if isinstance(v, (Arr, Vec, Iter, Lambda)):
                return v.copy() if hasattr(v, "copy") else v
            return v
        if not vals:
            return self.zero(t)
        raise EngineGap("C++ constructor of " + t)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_LambdaExpr(self, n, e):
        rec = n["inner"][0]
        ops = []
        caps = [c for c in n["inner"][1:] if c.get("kind") not in ("CompoundStmt",)]

        def walk(x):
            if x.get("kind") == "CXXMethodDecl" and x.get("name") == "operator()":
                ops.append(x)
                return
            for c in x.get("inner", []):
                walk(c)
        walk(rec)
        return Lambda(ops, e)

    def e_StringLiteral(self, n, e):
        return n.get("value")

    def e_CXXThrowExpr(self, n, e):
        raise ValueError("C++ exception")

    def e_MemberExpr(self, n, e):
        raise EngineGap("C++ member " + n.get("name", "?"))

    def e_ArraySubscriptExpr(self, n, e):
        a, i = self.val(self.ev(n["inner"][0], e)), self.val(self.ev(n["inner"][1], e))
        return a.at(i)

    def e_CXXMemberCallExpr(self, n, e):
        m = n["inner"][0]
        while m["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            m = m["inner"][0]
        name = m["name"].lstrip(".")
        o = self.val(self.ev(m["inner"][0], e))
        args = [self.ev(c, e) for c in n["inner"][1:] if c["kind"] != "CXXDefaultArgExpr"]
        if name.startswith("operator bool") or name == "operator bool":
            return o
        if name == "size" or name == "empty":
            return len(o.v) if name == "size" else len(o.v) == 0
        if name in ("at", "operator[]"):
            i = self.val(args[0])
            if name == "at" and not 0 <= i < len(o.v):
                raise IndexError("C++ out_of_range")
            return o.at(i)
        if name in ("begin", "cbegin"):
            return Iter(o, 0)
        if name in ("end", "cend"):
            return Iter(o, len(o.v))
        if name == "front":
            return o.at(0)
        if name == "back":
            return o.at(len(o.v) - 1)
        if name == "fill":
            for i in range(len(o.v)):
                o.at(i).set(self.val(args[0]))
            return None
        if isinstance(o, Vec):
            if name == "reserve":
                o.grow(self.val(args[0]))
                return None
            if name in ("push_back", "emplace_back"):
                o.push(self.val(args[0]))
                return o.at(len(o.v) - 1)
            if name == "pop_back":
                o.erase(len(o.v) - 1, len(o.v))
                return None
            if name == "clear":
                o.erase(0, len(o.v))
                return None
            if name == "erase":
                a = self.val(args[0])
                b = self.val(args[1]).i if len(args) > 1 else a.i + 1
                if a.i >= len(o.v) and len(args) == 1:
                    raise MemFault("erase of the end iterator")
                o.erase(a.i, b)
                return Iter(o, a.i)
            if name == "insert" and len(args) == 2:
                o.insert(self.val(args[0]).i, self.val(args[1]))
                return Iter(o, self.val(args[0]).i)
            if name == "resize":
                k = self.val(args[0])
                o.grow(k)
                while len(o.v) < k:
                    o.push(self.zero(o.zero))
                if len(o.v) > k:
                    o.erase(k, len(o.v))
                return None
        raise EngineGap("C++ method " + name)

    def callee(self, n):
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            n = n["inner"][0]
        return n["referencedDecl"]

    def e_CXXOperatorCallExpr(self, n, e):
        d = self.callee(n["inner"][0])
        name = d["name"]
        f = self.tu.find(name, d["type"]["qualType"])
        args = [self.ev(c, e) for c in n["inner"][1:]]
        if f is not None:
            return self.call(f, args)
        a = self.val(args[0])
        if name == "operator()":
            if not isinstance(a, Lambda):
                raise EngineGap("C++ call of an object")
            op = [o for o in a.ops if o["type"]["qualType"] == d["type"]["qualType"] and any(c.get("kind") == "CompoundStmt" for c in o.get("inner", []))]
            if not op:
                raise EngineGap("C++ lambda instance")
            return self.call(op[-1], args[1:], a.env)
        if name == "operator[]":
            if isinstance(a, Iter):
                return a.vec.at(a.i + self.val(args[1]))
            return a.at(self.val(args[1]))
        if name == "operator=":
            v = self.val(args[1])
            if isl(args[0]):
                args[0].set(v)
            else:
                a.assign(v)
            return args[0]
        if isinstance(a, Iter):
            b = self.val(args[1]) if len(args) > 1 else None
            if name == "operator+":
                return Iter(a.vec, a.i + b)
            if name == "operator-":
                return Iter(a.vec, a.i - b) if isinstance(b, int) else a.i - b.i
            if name in ("operator++", "operator--"):
                old = a.copy()
                a.i += 1 if name.endswith("++") else -1
                return old if len(args) > 1 else args[0]
            if name in ("operator+=", "operator-="):
                a.i += b if name[8] == "+" else -b
                return args[0]
            if name == "operator*":
                return a.vec.at(a.i)
            if name in ("operator==", "operator!="):
                return (a.i == b.i) == (name == "operator==")
            if name == "operator<":
                return a.i < b.i
        if name in ("operator==", "operator!=") and isinstance(a, Arr):
            b = self.val(args[1])
            eq = len(a.v) == len(b.v) and all(truth(a.at(i).get() == b.at(i).get()) for i in range(len(a.v)))
            return eq == (name == "operator==")
        raise EngineGap("C++ " + name)

    def e_CallExpr(self, n, e):
        d = self.callee(n["inner"][0])
        name, q = d["name"], d["type"]["qualType"]
        f = self.tu.find(name, q)
        if f is not None:
            return self.call(f, [self.ev(c, e) for c in n["inner"][1:]])
        args = [self.ev(c, e) for c in n["inner"][1:] if c["kind"] != "CXXDefaultArgExpr"]
        if name in ("max", "min", "lowest", "epsilon", "infinity") and not args:
            t = ty(n)
            if is_int(t):
                w = UNS.get(t)
                lo, hi = (0, (1 << w) - 1) if w else (-(1 << SGN[t] - 1), (1 << SGN[t] - 1) - 1)
                return hi if name == "max" else lo
            if t == "double":
                import sys
                from fractions import Fraction
                return {"max": lambda: Rl(Fraction(sys.float_info.max)), "lowest": lambda: -Rl(Fraction(sys.float_info.max)), "min": lambda: Rl(Fraction(sys.float_info.min)),
                        "epsilon": lambda: Rl(Fraction(sys.float_info.epsilon)), "infinity": lambda: crt.Inf(1)}[name]()
        v = [self.val(a) for a in args]
        if name in ("min", "max", "fmin", "fmax") and len(v) == 2:
            a, b = v
            if name.endswith("min"):
                return args[1] if truth(b < a) else args[0]
            return args[1] if truth(a < b) else args[0]
        if name in ("sqrt",):
            return crt.cd(v[0]).sqrt()
        if name in ("abs", "fabs"):
            return abs(v[0])
        if name == "swap" and len(v) == 2:
            x = v[0].copy() if hasattr(v[0], "copy") else v[0]
            y = v[1].copy() if hasattr(v[1], "copy") else v[1]
            args[0].set(y)
            args[1].set(x)
            return None
        if name in ("move", "forward", "as_const") and len(v) == 1:
            return args[0]
        raise EngineGap("C++ function " + name)


_tus = {}


def load(path, name):
    """the C++ function (template instantiated for double) as a Python callable, None when the file does not define it"""
    key = (path, name)
    if key not in _tus:
        try:
            tu = TU(path, [name])
            node = tu.entry(name)
            _tus[key] = (tu, node)
        except (Gap, OSError, ValueError, subprocess.TimeoutExpired) as ex:
            _tus[key] = str(ex)
    t = _tus[key]

    def run(*args):
        if isinstance(t, str):
            raise EngineGap(f"C++ {name}: {t}")
        tu, node = t
        r = Run(tu)
        ps = [c for c in node["inner"] if c["kind"] == "ParmVarDecl"]
        args = list(args)
        conv = []
        for p, a in zip(ps, args):
            conv.append(Var(a) if isinstance(a, (Arr, Vec)) else num(a, ty(p)))
        return r.call(node, conv)
    run.__name__ = name
    return run


def vector_of(elem):
    """vector[Vec3[double]] as the Cython side names it: the digit is the length"""
    m = re.search(r"(\d+)$", elem)
    if not m:
        raise EngineGap("vector of " + elem)

    def make(n=0):
        return Vec([Arr([crt.cd(0)] * int(m.group(1))) for _ in range(crt.ci(n))])
    return make
