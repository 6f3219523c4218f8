"""Cython source -> executable Python source over symbolic values.

The parse tree comes from Cython's own parser run on /repo's current .pyx/.pxd files.  C-level semantics kept: typed
locals and arguments are coerced on every assignment, memoryview and pointer accesses are checked against the object
they point into (with the negative-index rule the build's directives select), `&x`, malloc/realloc/free/memcpy,
value-copied C arrays, `cdef class` attributes.  Names starting with Z_ are runtime helpers from crt.py."""
import ast
import os

from Cython.Compiler.Main import Context, CompilationOptions
from Cython.Compiler.Scanning import FileSourceDescriptor
import Cython.Compiler.Nodes as N
import Cython.Compiler.ExprNodes as E

INTS = {"int", "long", "short", "size_t", "Py_ssize_t", "ssize_t", "uint32_t", "int32_t", "uint8_t", "int64_t",
        "uint64_t", "unsigned", "npy_intp", "int8_t", "uint16_t", "long long", "intp_t", "int_t", "int32_t", "int64_t"}
DBLS = {"double", "float", "double_t", "float64_t", "REAL", "np_float", "DTYPE_t"}
SIZES = {"double": 8, "float": 4, "int": 4, "uint32_t": 4, "int32_t": 4, "bint": 4, "char": 1, "size_t": 8, "long": 8,
         "Py_ssize_t": 8, "uint8_t": 1, "int64_t": 8, "uint64_t": 8}
OBJS = {"object", "tuple", "list", "dict", "bytes", "str", "set", "type", "bytearray", "unicode"}


class Unsupported(Exception):
    pass


def parse(path, name, root, pxd=False):
    opts = CompilationOptions(language_level="3str", include_path=[root])
    ctx = Context.from_options(opts)
    sd = FileSourceDescriptor(path, path)
    if pxd:
        scope = ctx.find_module(name, need_pxd=0)
    else:
        scope = ctx.find_module(name, pos=(sd, 1, 0), need_pxd=0, absolute_fallback=False)
    return ctx.parse(sd, scope, pxd=pxd, full_module_name=name)


def build_directives(root):
    """Directives build.py passes to cythonize, read from its current text."""
    out = {"boundscheck": True, "wraparound": True, "cdivision": False, "initializedcheck": True}
    try:
        t = ast.parse(open(os.path.join(root, "build.py")).read())
    except (OSError, SyntaxError):
        return out
    for n in ast.walk(t):
        if isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if isinstance(k, ast.Constant) and k.value in out and isinstance(v, ast.Constant):
                    out[k.value] = bool(v.value)
        if isinstance(n, ast.keyword) and n.arg == "compiler_directives" and isinstance(n.value, ast.Call):
            for kw in n.value.keywords:
                if kw.arg in out and isinstance(kw.value, ast.Constant):
                    out[kw.arg] = bool(kw.value.value)
    return out


# ------------------------------------------------------------------------------------------------ types

def base_spec(t, typedefs):
    if t is None:
        return ("obj", None)
    if isinstance(t, N.CQualifierTypeNode):
        return base_spec(t.base_type, typedefs)
    if isinstance(t, N.CConstOrVolatileTypeNode) if hasattr(N, "CConstOrVolatileTypeNode") else False:
        return base_spec(t.base_type, typedefs)
    if isinstance(t, N.MemoryViewSliceTypeNode):
        e = base_spec(t.base_type_node, typedefs)
        return ("mv", len(t.axes), e[0] if e[0] in "dic" else "i" if e[0] == "b" else "o")
    if isinstance(t, N.TemplatedTypeNode):
        b = t.base_type_node
        nm = b.name
        if nm == "vector":
            return ("vec",)
        if nm == "ndarray":
            el = ("obj", None)
            nd = 1
            if t.positional_args:
                p = t.positional_args[0]
                if isinstance(p, N.CComplexBaseTypeNode):
                    el = base_spec(p.base_type, typedefs)
                elif isinstance(p, E.NameNode):
                    el = name_spec(p.name, typedefs)
                elif isinstance(p, E.AttributeNode):
                    el = name_spec(p.attribute, typedefs)
            for kv in (t.keyword_args.key_value_pairs if t.keyword_args else []):
                if kv.key.value == "ndim":
                    nd = int(kv.value.value)
            return ("mv", nd, el[0] if el[0] in "dic" else "o", "ndarray")
        if t.positional_args and isinstance(t.positional_args[0], E.ExprNode):
            el = base_spec(b, typedefs)
            spec = el
            for p in reversed(t.positional_args):
                spec = ("arr", p, spec)
            return spec
        return ("tpl", nm)
    if isinstance(t, N.CComplexBaseTypeNode):
        return decl_spec(base_spec(t.base_type, typedefs), t.declarator)[1]
    if isinstance(t, N.CTupleBaseTypeNode) if hasattr(N, "CTupleBaseTypeNode") else False:
        return ("obj", None)
    if isinstance(t, N.CSimpleBaseTypeNode):
        if t.name is None:
            return ("obj", None)
        if t.name == "int" and t.is_basic_c_type and getattr(t, "longness", 0) == 0 and t.signed == 0:
            return ("i", "uint")
        return name_spec(t.name, typedefs)
    return ("obj", None)


def name_spec(nm, typedefs):
    if nm in typedefs:
        return typedefs[nm]
    if nm in DBLS:
        return ("d",)
    if nm == "bint":
        return ("b",)
    if nm in INTS:
        return ("i", nm)
    if nm == "char":
        return ("c",)
    if nm == "void":
        return ("void",)
    if nm in OBJS:
        return ("obj", nm)
    return ("cls", nm)


def decl_spec(spec, d):
    """(name, spec, default) of a declarator"""
    while True:
        if isinstance(d, N.CNameDeclaratorNode):
            return d.name, spec, d.default
        if isinstance(d, N.CPtrDeclaratorNode):
            spec = ("ptr", spec)
            d = d.base
        elif isinstance(d, N.CReferenceDeclaratorNode):
            d = d.base
        elif isinstance(d, N.CArrayDeclaratorNode):
            spec = ("arr", d.dimension, spec)
            d = d.base
        elif isinstance(d, N.CFuncDeclaratorNode):
            spec = ("fn", spec)
            d = d.base
        elif hasattr(d, "base"):
            d = d.base
        else:
            return None, spec, None


# ------------------------------------------------------------------------------------------------ emitter

class Fn:
    def __init__(self, flags, parent=None):
        self.types = {}
        self.boxed = set()
        self.flags = flags
        self.ret = None
        self.parent = parent
        self.tmp = 0
        self.globals = set()


class Emitter:
    def __init__(self, modname, root, package):
        self.root = root
        self.modname = modname
        self.package = package
        self.out = []
        self.ind = 0
        self.fn = None
        self.typedefs = {}
        self.gtypes = {}
        self.class_attrs = {}    # class -> {attr: (spec, public)}
        self.cur_class = None
        self.flags = build_directives(root)
        self.gaps = []
        self.functions = []

    def w(self, s):
        self.out.append("    " * self.ind + s)

    # ---- entry
    def module(self, pxd, pyx):
        if pxd is not None:
            self.dirs(pxd)
            self.collect(pxd.body)
        self.dirs(pyx)
        self.collect(pyx.body)
        if pxd is not None:
            self.in_pxd = True
            self.stats(pxd.body)
        self.in_pxd = False
        self.stats(pyx.body)
        return "\n".join(self.out) + "\n"

    def dirs(self, mod):
        for k, v in (getattr(mod, "directive_comments", None) or {}).items():
            if k in self.flags:
                self.flags[k] = bool(v)

    def collect(self, n):
        """typedefs, globals and class attributes, ahead of the code"""
        if n is None:
            return
        if isinstance(n, N.StatListNode):
            for s in n.stats:
                self.collect(s)
        elif isinstance(n, N.CTypeDefNode):
            nm, sp, _ = decl_spec(base_spec(n.base_type, self.typedefs), n.declarator)
            if sp[0] == "cls":
                sp = ("d",) if sp[1] in ("float64_t",) else sp
            self.typedefs[nm] = sp
        elif isinstance(n, N.CVarDefNode):
            b = base_spec(n.base_type, self.typedefs)
            for d in n.declarators:
                nm, sp, _ = decl_spec(b, d)
                if sp[0] != "fn":
                    self.gtypes[nm] = sp
        elif isinstance(n, N.CClassDefNode):
            at = self.class_attrs.setdefault(n.class_name, {})
            self.collect_class(n.body, at)

    def collect_class(self, n, at):
        if n is None:
            return
        if isinstance(n, N.StatListNode):
            for s in n.stats:
                self.collect_class(s, at)
        elif isinstance(n, N.CVarDefNode):
            b = base_spec(n.base_type, self.typedefs)
            for d in n.declarators:
                nm, sp, _ = decl_spec(b, d)
                if sp[0] != "fn":
                    at[nm] = (sp, n.visibility)

    # ---- statements
    def stats(self, n):
        if n is None:
            return
        if isinstance(n, N.StatListNode):
            for s in n.stats:
                self.stats(s)
            return
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(type(n).__name__)
        m(n)

    def block(self, n):
        self.ind += 1
        k = len(self.out)
        self.stats(n)
        if len(self.out) == k:
            self.w("pass")
        self.ind -= 1

    def s_PassStatNode(self, n): self.w("pass")
    def s_BreakStatNode(self, n): self.w("break")
    def s_ContinueStatNode(self, n): self.w("continue")
    def s_ReraiseStatNode(self, n): self.w("raise")
    def s_CDefExternNode(self, n):
        for s in (n.body.stats if isinstance(n.body, N.StatListNode) else [n.body]):
            if isinstance(s, N.CVarDefNode):
                for d in s.declarators:
                    nm, sp, _ = decl_spec(("void",), d)
                    if nm:
                        self.w(f"{nm} = Z_extern({nm!r}, {n.include_file!r})")
            elif isinstance(s, N.CStructOrUnionDefNode) and not isinstance(s, N.CppClassNode):
                self.s_CStructOrUnionDefNode(s)

    def s_CTypeDefNode(self, n): pass
    def s_CStructOrUnionDefNode(self, n):
        if getattr(n, "attributes", None) is None:
            return
        fs = []
        for a in n.attributes:
            b = base_spec(a.base_type, self.typedefs)
            for d in a.declarators:
                nm, sp, _ = decl_spec(b, d)
                fs.append((nm, sp))
        self.w(f"{n.name} = Z_struct({n.name!r}, {[(a, self.spec_lit(b)) for a, b in fs]!r})")

    def s_CppClassNode(self, n): pass
    def s_CEnumDefNode(self, n): raise Unsupported("enum")
    def s_GlobalNode(self, n):
        self.w("global " + ", ".join(n.names))

    def s_NonlocalNode(self, n):
        self.w("nonlocal " + ", ".join(n.names))

    def s_CImportStatNode(self, n):
        nm = n.module_name
        if nm == self.modname:
            return
        if nm.startswith("mmcore"):
            if n.as_name:
                self.w(f"import {nm} as {n.as_name}")
            else:
                self.w(f"import {nm}")
        else:
            self.w(f"{n.as_name or nm.split('.')[0]} = Z_cimport({nm!r}, {not n.as_name})")

    def s_FromCImportStatNode(self, n):
        nm = n.module_name
        lvl = getattr(n, "relative_level", 0) or 0
        if lvl:
            parts = self.package.split(".")
            parts = parts[: len(parts) - (lvl - 1)]
            nm = ".".join(parts + ([nm] if nm else []))
        for it in n.imported_names:
            name, as_name = it[1], it[2] or it[1]
            if nm == self.modname:
                continue
            if nm.startswith("mmcore"):
                self.w(f"{as_name} = Z_cfrom({nm!r}, {name!r})")
            else:
                self.w(f"{as_name} = Z_libc({nm!r}, {name!r})")

    def s_FromImportStatNode(self, n):
        mod = n.module.module_name.value
        lvl = getattr(n.module, "level", 0) or 0
        mod = "." * max(lvl, 0) + (mod or "")
        items = []
        for name, target in n.items:
            if name == "*":
                items.append("*")
            else:
                items.append(f"{name} as {target.name}")
        self.w(f"from {mod} import {', '.join(items)}")

    def s_ExprStatNode(self, n):
        if isinstance(n.expr, (E.UnicodeNode, E.BytesNode)):
            return
        self.w(self.x(n.expr))

    def s_SingleAssignmentNode(self, n):
        if isinstance(n.rhs, E.ImportNode):
            imp = n.rhs
            nm = imp.module_name.value
            if imp.is_import_as_name if hasattr(imp, "is_import_as_name") else False:
                self.w(f"import {nm} as {n.lhs.name}")
            elif "." in nm and n.lhs.name == nm.split(".")[0] and not getattr(imp, "get_top_level_module", True) is False:
                self.w(f"import {nm}")
            else:
                self.w(f"import {nm} as {n.lhs.name}")
            return
        self.assign(n.lhs, self.x(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        t = self.tmp()
        self.w(f"{t} = {self.x(n.rhs)}")
        for l in n.lhs_list:
            self.assign(l, t)

    def tmp(self):
        if self.fn is None:
            return "Z_t"
        self.fn.tmp += 1
        return f"Z_t{self.fn.tmp}"

    def name_type(self, nm):
        f = self.fn
        while f is not None:
            if nm in f.types:
                return f.types[nm]
            f = f.parent
        return self.gtypes.get(nm)

    def boxed(self, nm):
        f = self.fn
        while f is not None:
            if nm in f.types or nm in f.boxed:
                return nm in f.boxed
            f = f.parent
        return False

    def local_spec(self, nm):
        if self.fn is None:
            return self.gtypes.get(nm)
        s = self.fn.types.get(nm)
        if s is None and nm in self.fn.globals:
            s = self.gtypes.get(nm)
        return s

    def assign(self, lhs, v):
        if isinstance(lhs, E.NameNode):
            sp = self.local_spec(lhs.name)
            v = self.coerce(sp, v)
            if sp is not None and sp[0] == "arr":
                self.w(f"{lhs.name}[:] = {v}")
            elif self.fn is not None and lhs.name in self.fn.boxed:
                self.w(f"{lhs.name}.set({v})")
            else:
                self.w(f"{self.nm(lhs.name)} = {v}")
        elif isinstance(lhs, E.AttributeNode):
            self.w(f"{self.x(lhs.obj)}.{lhs.attribute} = {v}")
        elif isinstance(lhs, E.IndexNode):
            self.w(f"{self.h('sx')}({self.x(lhs.base)}, {self.idx(lhs.index)}, {v})")
        elif isinstance(lhs, E.SliceIndexNode):
            self.w(f"{self.h('sx')}({self.x(lhs.base)}, {self.slc(lhs)}, {v})")
        elif isinstance(lhs, (E.TupleNode, E.ListNode)):
            if any(isinstance(a, E.StarredUnpackingNode) for a in lhs.args):
                raise Unsupported("starred target")
            ts = [self.tmp() + f"_{i}" for i in range(len(lhs.args))]
            self.w(f"{', '.join(ts)}, = {v}")
            for a, t in zip(lhs.args, ts):
                self.assign(a, t)
        elif isinstance(lhs, E.TypecastNode):
            self.assign(lhs.operand, v)
        else:
            raise Unsupported("target " + type(lhs).__name__)

    OPS = {"+": "+", "-": "-", "*": "*", "%": "%", "//": "//", "/": "/", "**": "**", "&": "&", "|": "|", "^": "^",
           "<<": "<<", ">>": ">>", "@": "@"}

    def binop(self, op, a, b):
        if op == "/":
            return f"{'Z_div' if self.cdiv() else 'Z_divp'}({a}, {b})"
        if op == "//":
            return f"Z_fdiv({a}, {b}, {self.cdiv()})"
        if op == "%":
            return f"Z_mod({a}, {b}, {self.cdiv()})"
        if op == "**":
            return f"Z_pow({a}, {b})"
        return f"({a} {op} {b})"

    def cdiv(self):
        return (self.fn.flags if self.fn else self.flags)["cdivision"]

    def s_InPlaceAssignmentNode(self, n):
        op = n.operator
        if isinstance(n.lhs, E.NameNode):
            # C scalars: plain rebinding; objects: Python's in-place semantics
            sp = self.local_spec(n.lhs.name)
            if sp is not None and sp[0] in ("d", "i", "b", "ptr", "c"):
                self.assign(n.lhs, self.binop(op, self.x(n.lhs), self.x(n.rhs)))
            else:
                self.assign(n.lhs, f"Z_iop({op!r}, {self.x(n.lhs)}, {self.x(n.rhs)})")
        elif isinstance(n.lhs, E.AttributeNode):
            t = self.tmp()
            self.w(f"{t} = {self.x(n.lhs.obj)}")
            self.w(f"{t}.{n.lhs.attribute} = Z_iop({op!r}, {t}.{n.lhs.attribute}, {self.x(n.rhs)})")
        elif isinstance(n.lhs, (E.IndexNode, E.SliceIndexNode)):
            b, i = self.tmp(), self.tmp()
            self.w(f"{b} = {self.x(n.lhs.base)}")
            self.w(f"{i} = {self.idx(n.lhs.index) if isinstance(n.lhs, E.IndexNode) else self.slc(n.lhs)}")
            self.w(f"{self.h('sx')}({b}, {i}, Z_iop({op!r}, {self.h('ix')}({b}, {i}), {self.x(n.rhs)}))")
        else:
            raise Unsupported("in-place target " + type(n.lhs).__name__)

    def s_ReturnStatNode(self, n):
        if n.value is None:
            self.w("return")
            return
        v = self.x(n.value)
        if self.fn is not None and self.fn.ret is not None:
            v = self.coerce(self.fn.ret, v)
        if isinstance(n.value, E.NameNode) and (self.fn is None or self.fn.ret is None or self.fn.ret[0] == "obj"):
            sp = self.name_type(n.value.name)
            if sp is not None and len(sp) == 4 and sp[0] == "mv":
                v = f"Z_nda({v})"        # a buffer variable is an array for its callers
        self.w(f"return {v}")

    def s_IfStatNode(self, n):
        for i, c in enumerate(n.if_clauses):
            self.w(f"{'if' if i == 0 else 'elif'} {self.x(c.condition)}:")
            self.block(c.body)
        if n.else_clause is not None:
            self.w("else:")
            self.block(n.else_clause)

    def s_WhileStatNode(self, n):
        self.w(f"while {self.x(n.condition) if n.condition is not None else 'True'}:")
        self.ind += 1
        self.w("Z_tick()")
        self.ind -= 1
        self.block(n.body)
        if n.else_clause is not None:
            self.w("else:")
            self.block(n.else_clause)

    def s_ForInStatNode(self, n):
        it = self.x(n.iterator.sequence)
        tg = n.target
        if isinstance(tg, E.NameNode) and not self.boxed(tg.name) and (
                self.local_spec(tg.name) is None or self.local_spec(tg.name)[0] in ("i", "obj", "cls")):
            if isinstance(n.iterator.sequence, E.SimpleCallNode) and isinstance(n.iterator.sequence.function, E.NameNode) \
                    and n.iterator.sequence.function.name == "range":
                self.w(f"for {self.nm(tg.name)} in {it}:")
            else:
                self.w(f"for {self.nm(tg.name)} in Z_iter({it}):")
            self.block(n.body)
        else:
            t = self.tmp()
            self.w(f"for {t} in Z_iter({it}):")
            self.ind += 1
            self.assign(tg, t)
            self.ind -= 1
            self.block(n.body)
        if n.else_clause is not None:
            self.w("else:")
            self.block(n.else_clause)

    def s_ForFromStatNode(self, n):
        rel = {"<=": "0", "<": "1"}
        if n.relation1 not in rel or n.relation2 not in ("<", "<="):
            raise Unsupported("for-from")
        self.w(f"for {n.target.name} in range({self.x(n.bound1)} + {rel[n.relation1]}, {self.x(n.bound2)} + {1 if n.relation2 == '<=' else 0}, "
               f"{self.x(n.step) if n.step is not None else 1}):")
        self.block(n.body)

    def s_RaiseStatNode(self, n):
        s = "raise " + self.x(n.exc_type)
        if n.exc_value is not None:
            s += f"({self.x(n.exc_value)})"
        if n.cause is not None:
            s += " from " + self.x(n.cause)
        self.w(s)

    def s_AssertStatNode(self, n):
        self.w(f"assert {self.x(n.condition)}")

    def s_GILStatNode(self, n):
        self.stats(n.body)

    def s_GILExitNode(self, n): pass

    def s_TryExceptStatNode(self, n):
        self.w("try:")
        self.block(n.body)
        for c in n.except_clauses:
            if c.pattern:
                p = ", ".join(self.x(q) for q in c.pattern)
                self.w(f"except ({p},)" + (f" as {c.target.name}:" if c.target is not None else ":"))
            else:
                self.w("except Exception:")
            self.block(c.body)
        if n.else_clause is not None:
            self.w("else:")
            self.block(n.else_clause)

    def s_TryFinallyStatNode(self, n):
        self.w("try:")
        self.block(n.body)
        self.w("finally:")
        self.block(n.finally_clause)

    def s_WithStatNode(self, n):
        self.w(f"with {self.x(n.manager)}" + (f" as {n.target.name}:" if n.target is not None else ":"))
        self.block(n.body)

    def s_DelStatNode(self, n):
        for a in n.args:
            if isinstance(a, E.NameNode):
                self.w(f"del {a.name}")
            else:
                self.w(f"del {self.x(a.base)}[{self.idx(a.index)}]")

    def s_CVarDefNode(self, n):
        b = base_spec(n.base_type, self.typedefs)
        for d in n.declarators:
            nm, sp, default = decl_spec(b, d)
            if sp[0] == "fn":
                continue
            if self.fn is None and getattr(self, "in_pxd", False):
                continue
            if sp[0] == "arr":
                self.w(f"{nm} = {self.carr(sp)}")
                if default is not None:
                    self.w(f"{nm}[:] = {self.x(default)}")
                continue
            if sp[0] == "vec" and default is None:
                self.w(f"{nm} = Z_vec()")
                continue
            if sp[0] == "cls" and default is None:
                self.w(f"{nm} = Z_cdefault({nm!r}, lambda: {sp[1]})")
                continue
            if sp[0] == "tpl" and default is None:
                raise Unsupported("template " + str(sp[1]))
            if self.fn is not None and nm in self.fn.boxed:
                self.w(f"{nm} = Z_cell({self.coerce(sp, self.x(default)) if default is not None else 'Z_UNINIT'})")
                continue
            if default is not None:
                self.w(f"{nm} = {self.coerce(sp, self.x(default))}")
            elif self.fn is not None and sp[0] in ("d",):
                self.w(f"{nm} = Z_UNINIT")

    def carr(self, sp):
        dims = []
        while sp[0] == "arr":
            dims.append(self.x(sp[1]))
            sp = sp[2]
        return f"Z_carr(({', '.join(dims)},), {sp[0]!r})"

    def spec_lit(self, sp):
        if sp[0] == "arr":
            dims = []
            while sp[0] == "arr":
                dims.append(self.const_int(sp[1]))
                sp = sp[2]
            return ("arr", tuple(dims), sp[0])
        if sp[0] == "ptr":
            return ("ptr",)
        return sp

    def const_int(self, n):
        if isinstance(n, E.IntNode):
            return int(n.value)
        raise Unsupported("array dimension")

    def coerce(self, sp, v):
        if sp is None:
            return v
        k = sp[0]
        if k == "d":
            return f"Z_cd({v})"
        if k in ("i", "c"):
            return f"Z_ci({v})"
        if k == "b":
            return f"Z_cb({v})"
        if k == "mv":
            return f"Z_mv({v}, {sp[1]}, {sp[2]!r})"
        if k == "vec":
            return f"Z_vcopy({v})"
        if k == "obj" and sp[1] in ("tuple", "list", "dict", "bytes", "str"):
            return f"Z_ct({v}, {sp[1]!r})"
        if k == "ptr":
            return f"Z_cp({v}, {self.ptr_kind(sp[1])!r})"
        return v

    def ptr_kind(self, sp):
        return {"d": "d", "c": "c", "i": "i", "b": "i", "void": "v"}.get(sp[0], "o") if not (
            sp[0] == "i" and len(sp) > 1 and sp[1] in ("uint32_t", "int32_t", "int")) else "u4"

    # ---- functions
    def decorators(self, decs, flags):
        keep = []
        for d in decs or []:
            e = d.decorator
            root = e
            while isinstance(root, (E.SimpleCallNode, E.GeneralCallNode)):
                root = root.function
            nm = root
            parts = []
            while isinstance(nm, E.AttributeNode):
                parts.append(nm.attribute)
                nm = nm.obj
            if isinstance(nm, E.NameNode) and nm.name == "cython":
                if parts and parts[0] in flags and isinstance(e, E.SimpleCallNode) and e.args and isinstance(e.args[0], E.BoolNode):
                    flags[parts[0]] = bool(e.args[0].value)
                continue
            keep.append(self.x(e))
        return keep

    def find_boxed(self, n, acc):
        if isinstance(n, E.AmpersandNode) and isinstance(n.operand, E.NameNode):
            acc.add(n.operand.name)
        for a in getattr(n, "child_attrs", None) or ():
            c = getattr(n, a, None)
            if isinstance(c, list):
                for q in c:
                    if isinstance(q, N.Node):
                        self.find_boxed(q, acc)
            elif isinstance(c, N.Node):
                self.find_boxed(c, acc)

    def local_decls(self, n, acc, glb):
        if isinstance(n, (N.DefNode, N.CFuncDefNode, N.PyClassDefNode, N.CClassDefNode)):
            return
        if isinstance(n, N.GlobalNode):
            glb.update(n.names)
        if isinstance(n, N.CVarDefNode):
            b = base_spec(n.base_type, self.typedefs)
            for d in n.declarators:
                nm, sp, _ = decl_spec(b, d)
                if sp[0] != "fn":
                    acc[nm] = sp
        for a in getattr(n, "child_attrs", None) or ():
            c = getattr(n, a, None)
            if isinstance(c, list):
                for q in c:
                    if isinstance(q, N.Node):
                        self.local_decls(q, acc, glb)
            elif isinstance(c, N.Node):
                self.local_decls(c, acc, glb)

    def s_CFuncDefNode(self, n):
        d = n.declarator
        ret = base_spec(n.base_type, self.typedefs)
        while not isinstance(d, N.CFuncDeclaratorNode):
            if isinstance(d, N.CPtrDeclaratorNode):
                ret = ("ptr", ret)
            d = d.base
        b = d.base
        while not isinstance(b, N.CNameDeclaratorNode):
            if isinstance(b, N.CPtrDeclaratorNode):
                ret = ("ptr", ret)
            b = b.base
        self.func(b.name, d.args, None, None, n.body, getattr(n, "decorators", None), ret)

    def s_DefNode(self, n):
        self.func("__del__" if n.name == "__dealloc__" else n.name, n.args, n.star_arg, n.starstar_arg, n.body, n.decorators, None, n.is_async_def if hasattr(n, "is_async_def") else False)

    def func(self, name, args, star, starstar, body, decs, ret, is_async=False):
        mark = len(self.out)
        ind = self.ind
        try:
            self._func(name, args, star, starstar, body, decs, ret)
            self.functions.append((self.cur_class + "." if self.cur_class else "") + name)
        except Unsupported as e:
            del self.out[mark:]
            self.ind = ind
            self.gaps.append((name, str(e)))
            self.w(f"def {name}(*a, **k): Z_gap({'%s: %s' % (name, e)!r})")

    def _func(self, name, args, star, starstar, body, decs, ret):
        flags = dict(self.fn.flags if self.fn else self.flags)
        keep = self.decorators(decs, flags)
        outer, outer_class = self.fn, self.cur_class
        fn = Fn(flags, outer)
        sig = []
        posonly_end = None
        co = []
        self.fn = outer   # defaults evaluated outside
        seen_kw = False
        for a in args:
            b = base_spec(a.base_type, self.typedefs)
            nm, sp, _ = decl_spec(b, a.declarator)
            if not nm:
                # untyped: the parser reads the name as a type
                nm = a.base_type.name
                sp = None
            if a.kw_only and not seen_kw:
                seen_kw = True
                if star is None:
                    sig.append("*")
                else:
                    sig.append("*" + star.name)
            dflt = a.default
            s = nm
            if dflt is not None:
                s += "=" + ("None" if isinstance(dflt, (E.NoneNode, E.NullNode)) else self.x(dflt))
            sig.append(s)
            if sp is not None:
                fn.types[nm] = sp
                co.append((nm, sp))
        if star is not None and not seen_kw:
            sig.append("*" + star.name)
        if starstar is not None:
            sig.append("**" + starstar.name)
        self.local_decls(body, fn.types, fn.globals)
        self.find_boxed(body, fn.boxed)
        fn.boxed = {b for b in fn.boxed if b in fn.types and fn.types[b][0] not in ("mv", "arr", "vec", "cls", "obj")}
        fn.ret = ret if ret is not None and ret[0] in ("d", "i", "b", "mv", "obj") else None
        for k in keep:
            self.w("@" + k)
        self.w(f"def {name}({', '.join(sig)}):")
        self.fn = fn
        self.cur_class = None
        self.ind += 1
        for nm, sp in co:
            if sp[0] == "mv" or sp[0] in ("d", "i", "b"):
                self.w(f"{nm} = {self.coerce(sp, nm)}")
            elif sp[0] == "vec":
                self.w(f"{nm} = Z_vcopy({nm})")
            if nm in fn.boxed:
                self.w(f"{nm} = Z_cell({nm})")
        self.ind -= 1
        self.block(body)
        if ret is not None and ret[0] in ("d", "i", "b"):
            self.ind += 1
            self.w("return 0")
            self.ind -= 1
        self.fn = outer
        self.cur_class = outer_class

    def s_CClassDefNode(self, n):
        if getattr(self, "in_pxd", False):
            return
        base = "Z_CyObject"
        if n.bases is not None and getattr(n.bases, "args", None):
            base = ", ".join(self.x(a) for a in n.bases.args)
        self.w(f"class {n.class_name}({base}):")
        self.ind += 1
        self.w("__slots__ = ()")
        for a, (sp, vis) in self.class_attrs.get(n.class_name, {}).items():
            try:
                self.w(f"{a} = Z_attr({a!r}, {self.spec_lit(sp)!r}, {vis!r})")
            except Unsupported as e:
                self.w(f"{a} = Z_attr({a!r}, ('obj', None), {vis!r})")
        self.ind -= 1
        outer = self.cur_class
        self.cur_class = n.class_name
        self.block(self.strip_attrs(n.body))
        self.cur_class = outer

    def strip_attrs(self, n):
        if isinstance(n, N.StatListNode):
            r = N.StatListNode(n.pos)
            r.stats = [self.strip_attrs(s) for s in n.stats
                       if not isinstance(s, N.CVarDefNode) and not self.is_slots(s)]
            return r
        if isinstance(n, N.CVarDefNode) or self.is_slots(n):
            r = N.StatListNode(n.pos)
            r.stats = []
            return r
        return n

    def is_slots(self, s):
        return isinstance(s, N.SingleAssignmentNode) and isinstance(s.lhs, E.NameNode) and s.lhs.name == "__slots__"

    def s_PyClassDefNode(self, n):
        bases = ", ".join(self.x(a) for a in n.bases.args) if n.bases is not None else ""
        self.w(f"class {n.name}({bases}):")
        outer = self.cur_class
        self.cur_class = n.name
        self.block(n.body)
        self.cur_class = outer

    def s_PropertyNode(self, n):
        raise Unsupported("property block")

    # ---- expressions
    def h(self, k):
        f = self.fn.flags if self.fn else self.flags
        return f"Z_{k}w" if f["wraparound"] else f"Z_{k}"

    def nm(self, name):
        return name

    def x(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(type(n).__name__)
        return m(n)

    def e_NameNode(self, n):
        if self.boxed(n.name):
            return f"{n.name}.get()"
        return self.nm(n.name)

    def e_IntNode(self, n):
        v = str(n.value).rstrip("UuLl")
        return v

    def e_FloatNode(self, n):
        return f"Z_F({str(n.value).rstrip('fF')!r})"

    def e_ImagNode(self, n): raise Unsupported("imag")
    def e_BoolNode(self, n): return "True" if n.value else "False"
    def e_NoneNode(self, n): return "None"
    def e_NullNode(self, n): return "None"
    def e_EllipsisNode(self, n): return "Ellipsis"
    def e_UnicodeNode(self, n): return repr(str(n.value))
    def e_IdentifierStringNode(self, n): return repr(str(n.value))
    def e_StringNode(self, n): return repr(str(n.value))
    def e_BytesNode(self, n): return f"Z_bytes({n.value.byteencode() if hasattr(n.value, 'byteencode') else bytes(n.value)!r})"
    def e_CharNode(self, n): return str(ord(n.value))
    def e_JoinedStrNode(self, n): return "'<formatted>'"
    def e_FormattedValueNode(self, n): return "'<formatted>'"
    def e_TupleNode(self, n): return "(" + "".join(self.x(a) + ", " for a in n.args) + ")"
    def e_ListNode(self, n): return "[" + ", ".join(self.x(a) for a in n.args) + "]"
    def e_SetNode(self, n): return "{" + ", ".join(self.x(a) for a in n.args) + "}"
    def e_DictNode(self, n):
        return "{" + ", ".join(f"{self.x(p.key)}: {self.x(p.value)}" for p in n.key_value_pairs) + "}"
    def e_MergedDictNode(self, n):
        return "{" + ", ".join("**" + self.x(p) for p in n.keyword_args) + "}"
    def e_MergedSequenceNode(self, n):
        return "(" + "".join(("*" + self.x(a)) + ", " for a in n.args) + ")"
    def e_AsTupleNode(self, n): return f"tuple({self.x(n.arg)})"
    def e_StarredUnpackingNode(self, n): return "*" + self.x(n.target)

    def bin(self, n):
        return self.binop(n.operator, self.x(n.operand1), self.x(n.operand2))
    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_IntBinopNode = e_MatMultNode = bin
    e_BitwiseOrNode = bin

    def e_UnaryMinusNode(self, n): return f"(-{self.x(n.operand)})"
    def e_UnaryPlusNode(self, n): return f"(+{self.x(n.operand)})"
    def e_TildeNode(self, n): return f"(~{self.x(n.operand)})"
    def e_NotNode(self, n): return f"(not {self.x(n.operand)})"
    def e_BoolBinopNode(self, n): return f"({self.x(n.operand1)} {n.operator} {self.x(n.operand2)})"

    def e_PrimaryCmpNode(self, n):
        s = f"{self.x(n.operand1)} {self.cmpop(n.operator)} {self.x(n.operand2)}"
        c = n.cascade
        while c is not None:
            s += f" {self.cmpop(c.operator)} {self.x(c.operand2)}"
            c = c.cascade
        return f"({s})"

    def cmpop(self, o):
        return {"not_in": "not in", "is_not": "is not", "<>": "!="}.get(o, o)

    def e_CondExprNode(self, n):
        return f"({self.x(n.true_val)} if {self.x(getattr(n, "condition", None) or n.test)} else {self.x(n.false_val)})"

    def e_AttributeNode(self, n): return f"{self.x(n.obj)}.{n.attribute}"

    def idx(self, n):
        if isinstance(n, E.TupleNode):
            return "(" + "".join(self.idx1(a) + ", " for a in n.args) + ")"
        return self.idx1(n)

    def idx1(self, n):
        if isinstance(n, E.SliceNode):
            return f"slice({self.x(n.start)}, {self.x(n.stop)}, {self.x(n.step)})"
        return self.x(n)

    def slc(self, n):
        if getattr(n, "slice", None) is not None:
            return self.x(n.slice)
        return f"slice({self.x(n.start) if n.start is not None else None}, {self.x(n.stop) if n.stop is not None else None}, None)"

    def e_SliceNode(self, n): return self.idx1(n)
    def e_IndexNode(self, n):
        if isinstance(n.base, E.NameNode) and n.base.name in ("vector", "numeric_limits") :
            if isinstance(n.index, E.IndexNode) and isinstance(n.index.base, E.NameNode):
                return f"{n.base.name}.of({n.index.base.name!r})"
            return f"{n.base.name}"
        return f"{self.h('ix')}({self.x(n.base)}, {self.idx(n.index)})"

    def e_SliceIndexNode(self, n): return f"{self.h('ix')}({self.x(n.base)}, {self.slc(n)})"

    def e_SimpleCallNode(self, n):
        return f"{self.x(n.function)}({', '.join(self.x(a) for a in n.args)})"

    def e_GeneralCallNode(self, n):
        parts = []
        pa = n.positional_args
        if isinstance(pa, E.TupleNode):
            parts += [self.x(a) for a in pa.args]
        elif pa is not None:
            parts.append("*" + self.x(pa))
        ka = n.keyword_args
        if isinstance(ka, E.DictNode):
            parts += [f"{p.key.value}={self.x(p.value)}" for p in ka.key_value_pairs]
        elif ka is not None:
            parts.append("**" + self.x(ka))
        return f"{self.x(n.function)}({', '.join(parts)})"

    def e_LambdaNode(self, n):
        outer = self.fn
        self.fn = Fn(dict((outer.flags if outer else self.flags)), outer)
        args = []
        for a in n.args:
            b = base_spec(a.base_type, self.typedefs)
            nm, sp, _ = decl_spec(b, a.declarator)
            if not nm:
                nm = a.base_type.name
            self.fn.types[nm] = None
            args.append(nm + ("=" + self.x(a.default) if a.default is not None else ""))
        body = self.x(n.result_expr)
        self.fn = outer
        return f"(lambda {', '.join(args)}: {body})"

    def comp_tail(self, n):
        s = ""
        while True:
            if isinstance(n, N.StatListNode) and len(n.stats) == 1:
                n = n.stats[0]
            if isinstance(n, N.ForInStatNode):
                s += f" for {self.tgt(n.target)} in {self.x(n.iterator.sequence)}"
                n = n.body
            elif isinstance(n, N.IfStatNode):
                s += f" if {self.x(n.if_clauses[0].condition)}"
                n = n.if_clauses[0].body
            else:
                return s, n

    def tgt(self, t):
        if isinstance(t, E.NameNode):
            return t.name
        if isinstance(t, (E.TupleNode, E.ListNode)):
            return "(" + "".join(self.tgt(a) + ", " for a in t.args) + ")"
        raise Unsupported("comprehension target")

    def e_ComprehensionNode(self, n):
        outer = self.fn
        self.fn = Fn(dict((outer.flags if outer else self.flags)), outer)
        try:
            s, leaf = self.comp_tail(n.loop)
            if isinstance(leaf, E.DictComprehensionAppendNode):
                return "{" + f"{self.x(leaf.dict_item.key)}: {self.x(leaf.dict_item.value)}{s}" + "}"
            if isinstance(leaf, N.ExprStatNode):
                leaf = leaf.expr
            br = "{}" if n.type is not None and "set" in str(n.type) else "[]"
            return br[0] + self.x(leaf.expr) + s + br[1]
        finally:
            self.fn = outer

    def e_GeneratorExpressionNode(self, n):
        outer = self.fn
        self.fn = Fn(dict((outer.flags if outer else self.flags)), outer)
        try:
            s, leaf = self.comp_tail(n.loop)
            if isinstance(leaf, N.ExprStatNode):
                leaf = leaf.expr
            return f"({self.x(leaf.arg)}{s})"
        finally:
            self.fn = outer

    def e_InlinedGeneratorExpressionNode(self, n): raise Unsupported("inlined generator")

    def e_TypecastNode(self, n):
        b = base_spec(n.base_type, self.typedefs)
        _, sp, _ = decl_spec(b, n.declarator)
        v = self.x(n.operand)
        if sp[0] == "ptr":
            return f"Z_cp({v}, {self.ptr_kind(sp[1])!r}, True)"
        if sp[0] == "d":
            return f"Z_cd({v})"
        if sp[0] in ("i", "c"):
            return f"Z_trunc({v})"
        if sp[0] == "b":
            return f"Z_cb({v})"
        return v

    def e_AmpersandNode(self, n):
        o = n.operand
        if isinstance(o, E.NameNode):
            if not self.boxed(o.name):
                if self.name_type(o.name) is not None and self.name_type(o.name)[0] == "arr":
                    return f"Z_addr({o.name}, 0)"
                if self.name_type(o.name) is not None and self.name_type(o.name)[0] == "cls":
                    return f"Z_structref({o.name})"
                raise Unsupported("address of " + o.name)
            return f"{o.name}.ptr()"
        if isinstance(o, E.IndexNode):
            return f"{self.h('addr')}({self.x(o.base)}, {self.idx(o.index)})"
        if isinstance(o, E.AttributeNode):
            return f"Z_addrattr({self.x(o.obj)}, {o.attribute!r})"
        raise Unsupported("address of " + type(o).__name__)

    def size_of(self, sp):
        if sp is None:
            raise Unsupported("sizeof")
        k = sp[0]
        if k == "d":
            return 8
        if k == "ptr":
            return 8
        if k == "b":
            return 4
        if k == "c":
            return 1
        if k == "i":
            return SIZES.get(sp[1] if len(sp) > 1 else "int", 4)
        raise Unsupported("sizeof " + str(sp))

    def e_SizeofTypeNode(self, n):
        _, sp, _ = decl_spec(base_spec(n.base_type, self.typedefs), n.declarator)
        return str(self.size_of(sp))

    def e_SizeofVarNode(self, n):
        o = n.operand
        if isinstance(o, E.NameNode):
            sp = self.name_type(o.name)
            if sp is None:
                sp = name_spec(o.name, self.typedefs)
            return str(self.size_of(sp))
        raise Unsupported("sizeof")

    def e_CythonArrayNode(self, n):
        dims = []
        for a in n.base_type_node.axes:
            if isinstance(a.stop, E.NoneNode):
                raise Unsupported("cython array")
            dims.append(self.x(a.stop))
        e = base_spec(n.base_type_node.base_type_node, self.typedefs)
        return f"Z_ptrview({self.x(n.operand)}, ({', '.join(dims)},), {e[0]!r})"

    def e_ImportNode(self, n): raise Unsupported("import expression")
    def e_BackquoteNode(self, n): raise Unsupported("backquote")
    def e_AssignmentExpressionNode(self, n):
        return f"({n.target_name} := {self.x(n.rhs)})"


def translate(path, modname, root):
    """(python source, emitter) of the module at path (.pyx or header-only .pxd)"""
    pxd = pyx = None
    stem = path[:-4]
    if path.endswith(".pyx"):
        pyx = parse(path, modname, root)
    if os.path.exists(stem + ".pxd"):
        pxd = parse(stem + ".pxd", modname, root, pxd=True)
    package = modname if os.path.basename(stem) == "__init__" else modname.rpartition(".")[0]
    em = Emitter(modname, root, package)
    if pyx is None:
        em.in_pxd = True
        em.dirs(pxd)
        em.collect(pxd.body)
        em.stats(pxd.body)
        return "\n".join(em.out) + "\n", em
    src = em.module(pxd, pyx)
    return src, em


if __name__ == "__main__":
    import sys
    s, em = translate(sys.argv[1], sys.argv[2], "/repo")
    print(s)
    print(em.gaps, file=sys.stderr)
