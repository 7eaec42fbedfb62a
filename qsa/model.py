"""Program model: parses every module of the analysed package afresh and resolves names.

Nothing here imports or executes the analysed code; it is pure `ast`.
"""
from __future__ import annotations

import ast
import copy
import os
import warnings
from dataclasses import dataclass, field
from functools import lru_cache

BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)


class _Eager(ast.NodeTransformer):
    """yield x -> __out.append(x); yield from xs -> __out.extend(xs); return -> return __out"""

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            m = "append" if isinstance(v, ast.Yield) else "extend"
            arg = v.value if v.value is not None else ast.Constant(None)
            return ast.fix_missing_locations(ast.copy_location(ast.Expr(ast.Call(ast.Attribute(ast.Name("__out", ast.Load()), m, ast.Load()), [arg], [])), n))
        return n

    def visit_Return(self, n):
        return ast.fix_missing_locations(ast.copy_location(ast.Return(ast.Name("__out", ast.Load())), n))


@dataclass(eq=False)
class Func:
    qual: str
    name: str
    node: ast.AST  # FunctionDef or Lambda
    module: "Module"
    cls: "Class | None" = None
    decorators: list = field(default_factory=list)  # list of ast
    kind: str = "function"  # function|method|property|setter|classmethod|staticmethod|cached_property

    @property
    def params(self) -> list[str]:
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def kwonly(self) -> list[str]:
        return [x.arg for x in self.node.args.kwonlyargs]

    @property
    def all_params(self) -> list[str]:
        a = self.node.args
        out = self.params + self.kwonly
        return out

    def annotation(self, pname: str):
        a = self.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == pname:
                return x.annotation
        return None

    def default(self, pname: str):
        a = self.node.args
        pos = a.posonlyargs + a.args
        nd = len(a.defaults)
        for i, x in enumerate(pos):
            if x.arg == pname:
                j = i - (len(pos) - nd)
                return a.defaults[j] if j >= 0 else None
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == pname:
                return d
        return None

    @property
    def loc(self) -> str:
        return f"{self.module.relpath}:{getattr(self.node, 'lineno', 0)}"

    @property
    def is_generator(self) -> bool:
        if not hasattr(self, "_gen"):
            self._gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope(self.node))
        return self._gen

    @property
    def eager(self) -> "Func | None":
        """a generator function as the function returning the list of what it yields (None if it yields in expressions or `while` loops)"""
        if not hasattr(self, "_eager"):
            self._eager = None
            if self.is_generator and isinstance(self.node, ast.FunctionDef):
                node = copy.deepcopy(self.node)
                r = _Eager()
                node.body = [ast.copy_location(ast.fix_missing_locations(ast.copy_location(ast.parse("__out = []").body[0], node.body[0])), node.body[0])] + [r.visit(x) for x in node.body]
                node.body.append(ast.copy_location(ast.Return(ast.Name("__out", ast.Load())), node.body[-1]))
                ast.fix_missing_locations(node)
                left = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope(node)) or any(isinstance(n, ast.While) for n in walk_scope(node))
                if not left:
                    self._eager = Func(self.qual, self.name, node, self.module, self.cls, self.decorators, self.kind)
        return self._eager

    @property
    def is_abstract(self) -> bool:
        return any("abstractmethod" in ast.dump(d) for d in self.decorators)

    def __repr__(self):
        return f"<Func {self.qual}>"


def walk_scope(node):
    """Walk a function body without entering nested function/class scopes."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


@dataclass(eq=False)
class Class:
    qual: str
    name: str
    node: ast.ClassDef
    module: "Module"
    methods: dict[str, Func] = field(default_factory=dict)
    setters: dict[str, Func] = field(default_factory=dict)
    attrs: dict[str, ast.AST] = field(default_factory=dict)  # class-level assigned expressions
    anns: dict[str, ast.AST] = field(default_factory=dict)  # class-level annotations, in order
    bases_ast: list = field(default_factory=list)
    prog: "Program | None" = None

    @property
    def loc(self):
        return f"{self.module.relpath}:{self.node.lineno}"

    @property
    def bases(self):
        out = []
        for b in self.bases_ast:
            if isinstance(b, ast.Subscript):
                b = b.value
            r = self.module.resolve_expr(b)
            out.append(r)
        return out

    @property
    def mro(self) -> list:
        if not hasattr(self, "_mro"):
            self._mro = _c3(self)
        return self._mro

    @property
    def base_names(self) -> set[str]:
        return {c.qual if isinstance(c, Class) else str(c) for c in self.mro}

    def is_subclass(self, qual: str) -> bool:
        return any((c.qual if isinstance(c, Class) else c) == qual for c in self.mro)

    def lookup(self, name: str):
        """-> ('method', Func) | ('attr', ast, Class) | None"""
        for c in self.mro:
            if isinstance(c, Class):
                if name in c.methods:
                    return ("method", c.methods[name])
                if name in c.attrs:
                    return ("attr", c.attrs[name], c)
        return None

    def method(self, name):
        r = self.lookup(name)
        return r[1] if r and r[0] == "method" else None

    def setter(self, name):
        for c in self.mro:
            if isinstance(c, Class):
                if name in c.setters:
                    return c.setters[name]
        return None

    @property
    def is_enum(self) -> bool:
        if not hasattr(self, "_enum"):
            self._enum = any(
                isinstance(c, str) and c.split(".")[-1] in ("Enum", "StrEnum", "IntEnum", "Flag")
                for c in self.mro
            )
        return self._enum

    @property
    def is_dataclass(self) -> bool:
        return any("dataclass" in ast.dump(d) for d in self.node.decorator_list)

    def enum_members(self) -> dict[str, ast.AST]:
        return {
            k: v for k, v in self.attrs.items() if not k.startswith("_") and k not in self.methods
        }

    def __repr__(self):
        return f"<Class {self.qual}>"


def _c3(cls: Class) -> list:
    def merge(seqs):
        res = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in o[1:] for o in seqs):
                    break
            else:
                h = seqs[0][0]
            res.append(h)
            seqs = [[x for x in s if x is not h and x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        return res

    bs = []
    for b in cls.bases:
        if isinstance(b, Class):
            if b is cls:
                continue
            bs.append(b)
        else:
            bs.append(b[1] if isinstance(b, tuple) else str(b))
    return [cls] + merge([(b.mro if isinstance(b, Class) else [b]) for b in bs] + [bs])


class Module:
    def __init__(self, prog: "Program", name: str, path: str, relpath: str, src: str):
        self.prog, self.name, self.path, self.relpath, self.src = prog, name, path, relpath, src
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(src, filename=relpath)
        self.is_pkg = path.endswith("__init__.py")
        self.names: dict[str, tuple] = {}
        self.stars: list[str] = []
        self.registrations: list[tuple[ast.AST, Func]] = []
        self.functions: list[Func] = []
        self.classes: list[Class] = []
        self.top_stmts: list[ast.stmt] = []
        self._collect(self.tree.body)

    def _abs(self, level: int, mod: str | None) -> str:
        if level == 0:
            return mod or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts + ([mod] if mod else []))

    def _collect(self, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.names[a.asname] = ("module", a.name)
                    else:
                        self.names[a.name.split(".")[0]] = ("module", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                m = self._abs(st.level, st.module)
                for a in st.names:
                    if a.name == "*":
                        self.stars.append(m)
                    else:
                        self.names[a.asname or a.name] = ("from", m, a.name)
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._mkfunc(st, None)
                reg = None
                for d in st.decorator_list:
                    dd = d.func if isinstance(d, ast.Call) else d
                    if isinstance(dd, ast.Attribute) and dd.attr == "register":
                        reg = d
                if reg is not None:
                    f.qual = f"{self.name}.{st.name}@{len(self.registrations)}"
                    self.registrations.append((reg, f))
                    self.functions.append(f)
                    if st.name != "_":
                        self.names.setdefault(st.name, ("func", f))
                else:
                    self.names[st.name] = ("func", f)
                    self.functions.append(f)
            elif isinstance(st, ast.ClassDef):
                c = self._mkclass(st)
                self.names[st.name] = ("class", c)
                self.classes.append(c)
            elif isinstance(st, ast.Assign):
                self.top_stmts.append(st)
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ("assign", st.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.names[e.id] = (
                                    "assign",
                                    ast.copy_location(
                                        ast.Subscript(st.value, ast.Constant(i), ast.Load()), st
                                    ),
                                )
            elif isinstance(st, ast.AnnAssign):
                self.top_stmts.append(st)
                if isinstance(st.target, ast.Name) and st.value is not None:
                    self.names[st.target.id] = ("assign", st.value)
            elif isinstance(st, (ast.If, ast.Try, ast.With)):
                self.top_stmts.append(st)
                if isinstance(st, ast.Try) and self._optional(st):
                    # `try: import_module("<extension package>") except: <native>`: the extension package is not part of the program
                    for h in st.handlers:
                        self._collect(h.body)
                    self._collect(st.finalbody)
                    continue
                self._collect(getattr(st, "body", []))
                self._collect(getattr(st, "orelse", []))
                for h in getattr(st, "handlers", []):
                    for k, v in list(self.names.items()):
                        pass
                    self._collect_if_absent(h.body)
                self._collect(getattr(st, "finalbody", []))
            else:
                self.top_stmts.append(st)

    def _optional(self, st):
        for n in ast.walk(ast.Module(st.body, [])):
            if isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] == "import_module" and n.args:
                x = n.args[0]
                return bool(st.handlers) and isinstance(x, ast.Constant) and str(x.value).split(".")[0] == "qadence_extensions"
        return False

    def _collect_if_absent(self, body):
        saved = dict(self.names)
        self._collect(body)
        self.names.update(saved)

    def _mkfunc(self, node, cls, prefix=None) -> Func:
        q = f"{cls.qual}.{node.name}" if cls else f"{prefix or self.name}.{node.name}"
        f = Func(q, node.name, node, self, cls, list(node.decorator_list))
        if cls:
            f.kind = "method"
        for d in node.decorator_list:
            s = ast.unparse(d)
            base = s.split("(")[0]
            if base in ("property", "cached_property", "functools.cached_property", "abstractproperty"):
                f.kind = "property"
            elif base.endswith(".setter"):
                f.kind = "setter"
            elif base == "classmethod":
                f.kind = "classmethod"
            elif base == "staticmethod":
                f.kind = "staticmethod"
        return f

    def _mkclass(self, node) -> Class:
        c = Class(f"{self.name}.{node.name}", node.name, node, self, prog=self.prog)
        c.bases_ast = list(node.bases)
        c.keywords = {k.arg: k.value for k in node.keywords}

        def go(body):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = self._mkfunc(st, c)
                    if f.kind == "setter":
                        f.qual += ".setter"
                        c.setters[st.name] = f
                    else:
                        c.methods[st.name] = f
                    self.functions.append(f)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            c.attrs[t.id] = st.value
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    c.anns[st.target.id] = st.annotation
                    if st.value is not None:
                        c.attrs[st.target.id] = st.value
                elif isinstance(st, (ast.If, ast.Try)):
                    go(st.body)
                    go(st.orelse)

        go(node.body)
        return c

    # -- name resolution ------------------------------------------------------------
    def resolve(self, name: str, _seen=None):
        """-> Func | Class | Module | ('ext', dotted) | ('const', module, ast) | None"""
        _seen = _seen or set()
        if (self.name, name) in _seen:
            return None
        _seen.add((self.name, name))
        b = self.names.get(name)
        prog = self.prog
        if b is None:
            for m in self.stars:
                mod = prog.modules.get(m)
                if mod is not None:
                    r = mod.resolve(name, _seen)
                    if r is not None:
                        return r
            if self.is_pkg and f"{self.name}.{name}" in prog.modules:
                return prog.modules[f"{self.name}.{name}"]
            if name in BUILTINS:
                return ("ext", f"builtins.{name}")
            return None
        k = b[0]
        if k in ("func", "class"):
            return b[1]
        if k == "assign":
            return ("const", self, name, b[1])
        if k == "module":
            return prog.modules.get(b[1]) or ("ext", b[1])
        if k == "from":
            mod = prog.modules.get(b[1])
            if mod is not None:
                r = mod.resolve(b[2], _seen)
                if r is not None and not (isinstance(r, tuple) and r[0] == "ext" and r[1].startswith("builtins.")):
                    return r
                sub = prog.modules.get(f"{b[1]}.{b[2]}")
                if sub is not None:
                    return sub
                return ("ext", f"{b[1]}.{b[2]}")
            return ("ext", f"{b[1]}.{b[2]}")
        return None

    def resolve_expr(self, e):
        if isinstance(e, ast.Name):
            return self.resolve(e.id) or ("ext", e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value)
            if isinstance(b, Module):
                return b.resolve(e.attr) or ("ext", f"{b.name}.{e.attr}")
            if isinstance(b, tuple) and b[0] == "ext":
                return ("ext", f"{b[1]}.{e.attr}")
            if isinstance(b, Class):
                r = b.lookup(e.attr)
                if r and r[0] == "method":
                    return r[1]
                return ("clsattr", b, e.attr)
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                return self.resolve_expr(ast.parse(e.value, mode="eval").body)
            except SyntaxError:
                return ("ext", "?")
        return ("ext", "?")


class Program:
    def __init__(self, root: str, package: str = "qadence"):
        self.root = root
        self.package = package
        self.modules: dict[str, Module] = {}
        self.n_lines = 0
        base = os.path.join(root, package)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)
                mod = rel[:-3].replace(os.sep, ".")
                if mod.endswith(".__init__"):
                    mod = mod[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                self.n_lines += src.count("\n")
                self.modules[mod] = Module(self, mod, p, rel, src)
        self._dispatch = None
        self._subs = None

    # -- iteration ---------------------------------------------------------------
    def functions(self):
        for m in self.modules.values():
            yield from m.functions

    def classes(self):
        for m in self.modules.values():
            yield from m.classes

    def find(self, dotted: str):
        """Resolve 'qadence.mod.Class.method' or re-exported names. None if absent."""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            m = self.modules.get(".".join(parts[:i]))
            if m is None:
                continue
            cur = m
            ok = True
            for p in parts[i:]:
                if isinstance(cur, Module):
                    cur = cur.resolve(p)
                elif isinstance(cur, Class):
                    r = cur.lookup(p)
                    cur = r[1] if r and r[0] == "method" else None
                else:
                    cur = None
                if cur is None:
                    ok = False
                    break
            if ok:
                return cur
        return None

    def cls(self, dotted) -> Class | None:
        c = self.find(dotted)
        return c if isinstance(c, Class) else None

    def fn(self, dotted) -> Func | None:
        f = self.find(dotted)
        return f if isinstance(f, Func) else None

    def subclasses(self, qual: str) -> list[Class]:
        if self._subs is None:
            self._subs = {}
            for c in self.classes():
                for b in c.mro[1:]:
                    q = b.qual if isinstance(b, Class) else b
                    self._subs.setdefault(q, []).append(c)
        return self._subs.get(qual, [])

    def impls(self, cls: Class, name: str) -> list[Func]:
        """CHA: every implementation a call `x.name` may reach for x: cls."""
        out = []
        for c in [cls] + self.subclasses(cls.qual):
            f = c.method(name)
            if f is not None and f not in out:
                out.append(f)
        return out

    def dispatch(self) -> dict[str, list[tuple[list, Func]]]:
        """singledispatch tables: qual of generic function -> [(types, impl)]"""
        if self._dispatch is None:
            self._dispatch = {}
            for m in self.modules.values():
                for dec, f in m.registrations:
                    dd = dec.func if isinstance(dec, ast.Call) else dec
                    g = m.resolve_expr(dd.value)
                    if not isinstance(g, Func):
                        continue
                    if isinstance(dec, ast.Call) and dec.args:
                        tys = _types(m, dec.args[0])
                    else:
                        a = f.node.args
                        ps = a.posonlyargs + a.args
                        tys = _types(m, ps[0].annotation) if ps and ps[0].annotation is not None else []
                    self._dispatch.setdefault(g.qual, []).append((tys, f))
        return self._dispatch


def _types(m: Module, e) -> list:
    if e is None:
        return []
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        return _types(m, e.left) + _types(m, e.right)
    if isinstance(e, ast.Subscript):
        h = ast.unparse(e.value).split(".")[-1]
        if h in ("Union", "Optional"):
            els = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            return [t for x in els for t in _types(m, x)]
        return _types(m, e.value)
    if isinstance(e, ast.Constant):
        if e.value is None:
            return []
        if isinstance(e.value, str):
            try:
                return _types(m, ast.parse(e.value, mode="eval").body)
            except SyntaxError:
                return []
        return []
    r = m.resolve_expr(e)
    if isinstance(r, tuple) and r[0] == "const":
        return _types(r[1], r[3])
    return [r]


@lru_cache(maxsize=None)
def load(root: str) -> Program:
    return Program(root)
