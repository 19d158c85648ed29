"""
Whole-program model of /repo: modules, imports, classes (with MRO), functions, and name/callee resolution.

Purely syntactic input (``ast``); nothing of the analysed program is imported or executed.
"""

from __future__ import annotations
import ast
import os
from typing import Dict, List, Optional, Tuple, Union, Iterator, Set

REPO = os.environ.get("SA_REPO", "/repo")


class Module:
    def __init__(self, name: str, path: str, tree: ast.Module, is_pkg: bool, src: str):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.src = src
        self.imports: Dict[str, str] = {}  # local name -> dotted (module-level, incl. within try/if)
        self.star_imports: List[str] = []
        self.functions: Dict[str, "Func"] = {}
        self.classes: Dict[str, "Class"] = {}
        self.assigns: Dict[str, List[ast.expr]] = {}

    def __repr__(self):
        return f"<Module {self.name}>"

    @property
    def relpath(self):
        return os.path.relpath(self.path, REPO)


class Class:
    def __init__(self, name: str, qualname: str, module: Module, node: ast.ClassDef):
        self.name = name
        self.qualname = qualname
        self.module = module
        self.node = node
        self.methods: Dict[str, "Func"] = {}
        self.nested: Dict[str, "Class"] = {}
        self.attrs: Dict[str, ast.expr] = {}  # class-level assigns
        self.bases: List[Union["Class", str]] = []
        self._mro: Optional[List["Class"]] = None
        self._attr_types: Optional[Dict[str, Set["Class"]]] = None

    def __repr__(self):
        return f"<Class {self.module.name}.{self.qualname}>"

    @property
    def full(self):
        return f"{self.module.name}.{self.qualname}"


class Func:
    def __init__(self, name: str, qualname: str, module: Module, node, cls: Optional[Class], parent: Optional["Func"]):
        self.name = name
        self.qualname = qualname
        self.module = module
        self.node = node  # FunctionDef | AsyncFunctionDef | Lambda
        self.cls = cls
        self.parent = parent
        self.nested: Dict[str, "Func"] = {}
        self.nested_classes: Dict[str, Class] = {}
        self.local_imports: Dict[str, str] = {}
        self._decos = None

    def __repr__(self):
        return f"<Func {self.module.name}:{self.qualname}>"

    @property
    def full(self):
        return f"{self.module.name}:{self.qualname}"

    @property
    def where(self):
        return f"{self.module.relpath}:{self.qualname}"

    @property
    def args(self) -> ast.arguments:
        return self.node.args

    def param_names(self) -> List[str]:
        a = self.args
        res = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg:
            res.append(a.vararg.arg)
        res += [x.arg for x in a.kwonlyargs]
        if a.kwarg:
            res.append(a.kwarg.arg)
        return res

    def deco_names(self) -> List[str]:
        if self._decos is None:
            res = []
            for d in getattr(self.node, "decorator_list", []):
                if isinstance(d, ast.Call):
                    d = d.func
                s = dotted_name(d)
                res.append(s or "?")
            self._decos = res
        return self._decos

    @property
    def is_static(self):
        return any(d.split(".")[-1] == "staticmethod" for d in self.deco_names())

    @property
    def is_classmethod(self):
        return any(d.split(".")[-1] == "classmethod" for d in self.deco_names())

    @property
    def is_property(self):
        return any(d.split(".")[-1] in ("property", "cached_property") for d in self.deco_names())

    @property
    def is_contextmanager(self):
        return any(d.split(".")[-1] in ("contextmanager",) for d in self.deco_names())

    @property
    def is_generator(self):
        for n in walk_own(self.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False


def dotted_name(e) -> Optional[str]:
    """a.b.c -> "a.b.c" """
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        parts.append(e.id)
        return ".".join(reversed(parts))
    return None


_walk_cache: Dict[int, Tuple[ast.AST, List[ast.AST]]] = {}


def walk_own(fnode) -> List[ast.AST]:
    """walk the function body, not descending into nested defs / classes / lambdas"""
    c = _walk_cache.get(id(fnode))
    if c is not None and c[0] is fnode:
        return c[1]
    body = fnode.body if isinstance(fnode.body, list) else [fnode.body]
    stack = list(reversed(body))
    res = []
    while stack:
        n = stack.pop()
        res.append(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))
    _walk_cache[id(fnode)] = (fnode, res)
    return res


class Project:
    def __init__(self, root: str = REPO):
        self.root = root
        self.modules: Dict[str, Module] = {}
        self.parse_errors: List[Tuple[str, str]] = []
        self._load()
        for m in self.modules.values():
            self._index_module(m)
        for c in list(self.all_classes()):
            self._resolve_bases(c)
        self._subclasses: Optional[Dict[Class, Set[Class]]] = None

    # --- loading

    def _load(self):
        pkg_root = os.path.join(self.root, "returnn")
        files = []
        for d, dirs, fs in os.walk(pkg_root):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "extern"))
            for f in sorted(fs):
                if f.endswith(".py"):
                    files.append(os.path.join(d, f))
        for path in files:
            rel = os.path.relpath(path, self.root)[:-3].split(os.sep)
            is_pkg = rel[-1] == "__init__"
            if is_pkg:
                rel = rel[:-1]
            name = ".".join(rel)
            with open(path, encoding="utf8") as f:
                src = f.read()
            try:
                tree = ast.parse(src, path, type_comments=True)
            except SyntaxError:
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    self.parse_errors.append((path, str(e)))
                    continue
            self.modules[name] = Module(name, path, tree, is_pkg, src)

    def _abs_import(self, m: Module, node: ast.ImportFrom) -> str:
        if not node.level:
            return node.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[: -(node.level - 1)]
        if node.module:
            parts = parts + node.module.split(".")
        return ".".join(parts)

    def _collect_import(self, m: Module, node, target: Dict[str, str], star: Optional[List[str]] = None):
        if isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    target[a.asname] = a.name
                else:
                    target[a.name.split(".")[0]] = a.name.split(".")[0]
        elif isinstance(node, ast.ImportFrom):
            base = self._abs_import(m, node)
            for a in node.names:
                if a.name == "*":
                    if star is not None:
                        star.append(base)
                else:
                    target[a.asname or a.name] = f"{base}.{a.name}"

    def _index_module(self, m: Module):
        def visit_top(stmts):
            for s in stmts:
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    self._collect_import(m, s, m.imports, m.star_imports)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.functions[s.name] = self._index_func(m, s, s.name, None, None)
                elif isinstance(s, ast.ClassDef):
                    m.classes[s.name] = self._index_class(m, s, s.name)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.assigns.setdefault(t.id, []).append(s.value)
                elif isinstance(s, ast.AnnAssign):
                    if isinstance(s.target, ast.Name) and s.value is not None:
                        m.assigns.setdefault(s.target.id, []).append(s.value)
                elif isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                    for fld in ("body", "orelse", "finalbody"):
                        visit_top(getattr(s, fld, []))
                    for h in getattr(s, "handlers", []):
                        visit_top(h.body)

        visit_top(m.tree.body)

    def _index_class(self, m: Module, node: ast.ClassDef, qualname: str) -> Class:
        c = Class(node.name, qualname, m, node)

        def visit(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = self._index_func(m, s, f"{qualname}.{s.name}", c, None)
                    if any(d.endswith(".setter") for d in f.deco_names()):
                        c.methods[s.name + ".setter"] = f
                    else:
                        c.methods[s.name] = f
                elif isinstance(s, ast.ClassDef):
                    c.nested[s.name] = self._index_class(m, s, f"{qualname}.{s.name}")
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            c.attrs[t.id] = s.value
                elif isinstance(s, ast.AnnAssign):
                    if isinstance(s.target, ast.Name):
                        c.attrs[s.target.id] = s.value
                elif isinstance(s, (ast.If, ast.Try, ast.With)):
                    for fld in ("body", "orelse", "finalbody"):
                        visit(getattr(s, fld, []))

        visit(node.body)
        return c

    def _index_func(self, m, node, qualname, cls, parent) -> Func:
        f = Func(getattr(node, "name", "<lambda>"), qualname, m, node, cls, parent)
        for n in walk_own(node):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self._collect_import(m, n, f.local_imports)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f.nested[n.name] = self._index_func(m, n, f"{qualname}.<locals>.{n.name}", None, f)
            elif isinstance(n, ast.ClassDef):
                f.nested_classes[n.name] = self._index_class(m, n, f"{qualname}.<locals>.{n.name}")
        return f

    def _resolve_bases(self, c: Class):
        for b in c.node.bases:
            while isinstance(b, ast.Subscript):  # Generic[T]
                b = b.value
            d = dotted_name(b)
            r = self.resolve_name_in_module(c.module, d) if d else None
            if isinstance(r, Class):
                c.bases.append(r)
            else:
                c.bases.append(r if isinstance(r, str) else (d or "?"))

    # --- enumeration

    def all_classes(self) -> Iterator[Class]:
        def rec(c: Class):
            yield c
            for n in c.nested.values():
                yield from rec(n)

        for m in self.modules.values():
            for c in m.classes.values():
                yield from rec(c)

    def all_funcs(self, include_nested=True) -> Iterator[Func]:
        def rec(f: Func):
            yield f
            if include_nested:
                for n in f.nested.values():
                    yield from rec(n)
                for c in f.nested_classes.values():
                    for mm in c.methods.values():
                        yield from rec(mm)

        for m in self.modules.values():
            for f in m.functions.values():
                yield from rec(f)
        for c in self.all_classes():
            for f in c.methods.values():
                yield from rec(f)

    # --- resolution

    def get_class(self, full: str) -> Optional[Class]:
        r = self.resolve_dotted(full)
        return r if isinstance(r, Class) else None

    def get_func(self, full: str) -> Optional[Func]:
        """ "mod.path:Qual.name" or dotted"""
        if ":" in full:
            mod, q = full.split(":", 1)
            full = f"{mod}.{q}"
        r = self.resolve_dotted(full)
        return r if isinstance(r, Func) else None

    def get_func_any(self, full: str) -> Optional[Func]:
        """like get_func, by Func.full, including nested functions"""
        if not hasattr(self, "_by_full"):
            self._by_full = {}
            for f in self.all_funcs():
                self._by_full.setdefault(f.full, f)
        return self._by_full.get(full) or self.get_func(full)

    def resolve_dotted(self, dotted: str, _depth=0):
        """-> Module | Class | Func | ("const", Module, name) | str (external dotted)"""
        if _depth > 12:
            return dotted
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            mn = ".".join(parts[:i])
            if mn in self.modules:
                m = self.modules[mn]
                rest = parts[i:]
                if not rest:
                    if i > 1:  # pkg.name where the package re-exports a function of the same name as the submodule
                        pm = self.modules.get(".".join(parts[: i - 1]))
                        if pm is not None and mn in pm.star_imports and parts[i - 1] in m.functions:
                            return m.functions[parts[i - 1]]
                    return m
                return self._resolve_in_module(m, rest, _depth + 1, dotted)
        return dotted

    def _resolve_in_module(self, m: Module, rest: List[str], depth: int, orig: str):
        n = rest[0]
        if n in m.functions and len(rest) == 1:
            return m.functions[n]
        if n in m.classes:
            return self._resolve_in_class(m.classes[n], rest[1:], orig)
        if n in m.imports:
            tgt = m.imports[n]
            if tgt == orig and depth > 3:
                return orig
            return self.resolve_dotted(".".join([tgt] + rest[1:]), depth + 1)
        if n in m.assigns:
            # alias?
            if len(m.assigns[n]) == 1:
                d = dotted_name(m.assigns[n][0])
                if d and d != n:
                    r = self.resolve_name_in_module(m, ".".join([d] + rest[1:]), depth + 1)
                    if isinstance(r, (Class, Func, Module)):
                        return r
            return ("const", m, n) if len(rest) == 1 else orig
        for s in m.star_imports:
            sm = self.modules.get(s)
            if sm is not None and sm is not m and depth < 10:
                r = self._resolve_in_module(sm, rest, depth + 1, orig)
                if not isinstance(r, str):
                    return r
        return orig

    def _resolve_in_class(self, c: Class, rest: List[str], orig: str):
        if not rest:
            return c
        if rest[0] in c.nested:
            return self._resolve_in_class(c.nested[rest[0]], rest[1:], orig)
        if len(rest) == 1:
            f = self.find_method(c, rest[0])
            if f:
                return f
        return orig

    def resolve_name_in_module(self, m: Module, dotted: str, depth=0):
        parts = dotted.split(".")
        r = self._resolve_in_module(m, parts, depth, m.name + "." + dotted)
        if isinstance(r, str) and r == m.name + "." + dotted:
            # builtin or unknown global
            return dotted
        return r

    def resolve_name(self, f: Optional[Func], m: Module, dotted: str):
        """resolve a dotted name in scope of function f (local imports, nested funcs) or module"""
        parts = dotted.split(".")
        g = f
        while g is not None:
            if parts[0] in g.nested and len(parts) == 1:
                return g.nested[parts[0]]
            if parts[0] in g.nested_classes:
                return self._resolve_in_class(g.nested_classes[parts[0]], parts[1:], dotted)
            if parts[0] in g.local_imports:
                return self.resolve_dotted(".".join([g.local_imports[parts[0]]] + parts[1:]))
            if is_local_var(g, parts[0]):
                return None
            g = g.parent
        return self.resolve_name_in_module(m, dotted)

    # --- classes

    def mro(self, c: Class) -> List[Class]:
        if c._mro is None:
            c._mro = [c]  # guard
            seqs = [list(self.mro(b)) for b in c.bases if isinstance(b, Class) and b is not c]
            seqs.append([b for b in c.bases if isinstance(b, Class)])
            res = [c]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                cand = None
                for s in seqs:
                    if not any(s[0] in t[1:] for t in seqs):
                        cand = s[0]
                        break
                if cand is None:
                    cand = seqs[0][0]
                res.append(cand)
                for s in seqs:
                    if s and s[0] is cand:
                        del s[0]
                    elif cand in s:
                        s.remove(cand)
            c._mro = res
        return c._mro

    def find_method(self, c: Class, name: str, after: Optional[Class] = None) -> Optional[Func]:
        mro = self.mro(c)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1 :]
        for k in mro:
            if name in k.methods:
                return k.methods[name]
        return None

    def find_class_attr(self, c: Class, name: str):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def subclasses(self, c: Class, proper=False) -> List[Class]:
        res = [k for k in self.all_classes() if c in self.mro(k)]
        if proper:
            res = [k for k in res if k is not c]
        return res

    # --- simple type inference

    def classes_from_annotation(self, f: Optional[Func], m: Module, ann) -> Set[Class]:
        res: Set[Class] = set()
        if ann is None:
            return res
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return res
        if isinstance(ann, (ast.Name, ast.Attribute)):
            d = dotted_name(ann)
            r = self.resolve_name(f, m, d) if d else None
            if isinstance(r, Class):
                res.add(r)
        elif isinstance(ann, ast.Subscript):
            base = (dotted_name(ann.value) or "").split(".")[-1]
            if base in ("Optional", "Union"):
                elts = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
                for e in elts:
                    res |= self.classes_from_annotation(f, m, e)
        elif isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            res |= self.classes_from_annotation(f, m, ann.left)
            res |= self.classes_from_annotation(f, m, ann.right)
        return res

    def attr_types(self, c: Class) -> Dict[str, Set[Class]]:
        """self.<attr> -> possible repo classes (from annotations and constructor assignments, over the MRO)"""
        if c._attr_types is not None:
            return c._attr_types
        res: Dict[str, Set[Class]] = {}
        c._attr_types = res
        for k in reversed(self.mro(c)):
            for f in k.methods.values():
                for n in walk_own(f.node):
                    tgt = None
                    if isinstance(n, ast.AnnAssign):
                        tgt, val, ann = n.target, n.value, n.annotation
                    elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                        tgt, val, ann = n.targets[0], n.value, None
                        if n.type_comment:
                            ann = ast.Constant(value=n.type_comment)
                    if tgt is None or not isinstance(tgt, ast.Attribute):
                        continue
                    if not (isinstance(tgt.value, ast.Name) and tgt.value.id == "self"):
                        continue
                    ts = self.classes_from_annotation(f, k.module, ann) if ann is not None else set()
                    if isinstance(val, ast.Call):
                        d = dotted_name(val.func)
                        r = self.resolve_name(f, k.module, d) if d else None
                        if isinstance(r, Class):
                            ts.add(r)
                    elif isinstance(val, ast.Name):
                        # parameter with annotation
                        for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs:
                            if a.arg == val.id and a.annotation is not None:
                                ts |= self.classes_from_annotation(f, k.module, a.annotation)
                    if ts:
                        res.setdefault(tgt.attr, set()).update(ts)
            for n in k.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    ts = self.classes_from_annotation(None, k.module, n.annotation)
                    if ts:
                        res.setdefault(n.target.id, set()).update(ts)
        return res


_local_var_cache: Dict[int, Set[str]] = {}


def local_vars(f: Func) -> Set[str]:
    key = id(f.node)
    if key in _local_var_cache:
        return _local_var_cache[key]
    res = set(f.param_names())
    declared_global: Set[str] = set()
    for n in walk_own(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            res.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            res.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            declared_global.update(n.names)
    res -= declared_global
    _local_var_cache[key] = res
    return res


def is_local_var(f: Func, name: str) -> bool:
    return name in local_vars(f)


def names_in_nested(f: Func) -> Set[str]:
    """names read in nested functions / lambdas / classes (possible closure captures), plus the parameters"""
    res = set(f.param_names())
    for n in walk_own(f.node):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            for x in ast.walk(n):
                if isinstance(x, ast.Name):
                    res.add(x.id)
    return res


_project: Optional[Project] = None


def get_project() -> Project:
    global _project
    if _project is None:
        _project = Project()
    return _project
