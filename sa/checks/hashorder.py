"""
Order-sensitivity of iteration over sets (hash order) and directory listings.

classify(expr) tells whether an expression is a set, or a dict/sequence whose order is that of a set.
sensitive(expr) follows the uses of such an expression until the order is
either irrelevant (sorted, keyed store, membership, ...) or becomes observable
(index, random choice, enumeration index, yielded / returned sequence).
"""

from __future__ import annotations
import ast
from typing import Dict, List, Optional
from ..project import Project, Func, Class, dotted_name, walk_own
from .common import self_name

_par: Dict[int, Dict] = {}
SAFE = {
    "sorted", "set", "frozenset", "len", "sum", "any", "all", "min", "max", "dict", "isinstance", "bool", "print", "repr", "str", "format",
    "Counter", "update", "union", "intersection", "difference", "issubset", "issuperset", "isdisjoint", "difference_update",
    "intersection_update", "symmetric_difference", "join", "deepcopy", "type", "hash", "id", "fsum",
}  # fmt: skip
PASS = {"list", "tuple", "iter", "reversed", "map", "filter", "chain", "from_iterable", "copy", "array", "asarray", "deque", "islice", "NumbersDict"}
RNG_DRAW = {"choice", "shuffle", "permutation", "sample", "choices", "permuted"}
RNG_ANY = RNG_DRAW | {"rand", "randint", "randn", "random", "uniform", "normal", "standard_normal", "random_sample"}


def parents(f: Func) -> Dict:
    r = _par.get(id(f.node))
    if r is None:
        r = {}
        for n in ast.walk(f.node):
            for ch in ast.iter_child_nodes(n):
                r[ch] = n
        _par[id(f.node)] = r
    return r


def _is_self(e, s, attr=None):
    return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == s and (attr is None or e.attr == attr)


class HashOrder:
    def __init__(self, p: Project):
        self.p = p
        self._attr: Dict = {}
        self._var: Dict = {}
        self._ix: Dict = {}
        self._fam: Dict = {}

    # --- classification

    def classify(self, f: Func, e, depth=0) -> Optional[str]:
        if depth > 6 or e is None:
            return None
        if isinstance(e, (ast.Set, ast.SetComp)):
            if isinstance(e, ast.Set) and len(e.elts) <= 1:
                return None
            return "set"
        if isinstance(e, ast.DictComp):
            return "dict" if self.classify(f, e.generators[0].iter, depth + 1) else None
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)):
            l, r = self.classify(f, e.left, depth + 1), self.classify(f, e.right, depth + 1)
            if l == "set" or r == "set":
                return "set"
            if isinstance(e.left, ast.Call) and isinstance(e.left.func, ast.Attribute) and e.left.func.attr == "keys":
                return "set"
            return None
        if isinstance(e, ast.Call):
            fn = e.func
            nm = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
            if isinstance(fn, ast.Name) and nm in ("set", "frozenset"):
                return "set" if e.args else None
            if isinstance(fn, ast.Attribute):
                b = self.classify(f, fn.value, depth + 1)
                if b == "set" and nm in ("union", "intersection", "difference", "symmetric_difference", "copy"):
                    return "set"
                if b == "dict" and nm in ("keys", "values", "items", "copy"):
                    return "dict"
            return None
        if isinstance(e, ast.IfExp):
            return self.classify(f, e.body, depth + 1) or self.classify(f, e.orelse, depth + 1)
        if isinstance(e, ast.Name):
            return self.var(f, e.id, depth)
        if f.cls is not None and _is_self(e, self_name(f)):
            return self.attr(f.cls, e.attr, depth)
        return None

    def var(self, f: Func, name: str, depth):
        k = (id(f.node), name)
        if k in self._var:
            return self._var[k]
        self._var[k] = None
        vals = []
        other = False
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        vals.append(n.value)
                    elif any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(t)):
                        other = True
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None:
                vals.append(n.value)
            elif isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
                other = True
        if name in f.param_names():
            other = True
        r = None
        if vals and not other:
            rs = {self.classify(f, v, depth + 1) for v in vals if not (isinstance(v, ast.Constant) and v.value is None)}
            if len(rs) == 1:
                r = rs.pop()
            if r is None and any(self._empty_set(v) for v in vals) and self._added(f, lambda x: isinstance(x, ast.Name) and x.id == name):
                r = "set"
        self._var[k] = r
        return r

    @staticmethod
    def _empty_set(v):
        return isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "set" and not v.args

    @staticmethod
    def _added(f, pred):
        return any(
            isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add", "update") and pred(n.func.value) for n in ast.walk(f.node)
        )

    def family(self, cls: Class) -> List[Class]:
        r = self._fam.get(cls.full)
        if r is None:
            r = self._fam[cls.full] = list(dict.fromkeys(self.p.mro(cls) + self.p.subclasses(cls)))
        return r

    def _index(self, c: Class):
        ix = self._ix.get(c.full)
        if ix is None:
            ix = self._ix[c.full] = ({}, set())
            for f in c.methods.values():
                s = self_name(f)
                if s is None:
                    continue
                for n in walk_own(f.node):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                            if _is_self(t, s):
                                ix[0].setdefault(t.attr, []).append((f, n.value))
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add", "update") and _is_self(n.func.value, s):
                        ix[1].add(n.func.value.attr)
        return ix

    def attr(self, cls: Class, name: str, depth=0):
        k = (cls.full, name)
        if k in self._attr:
            return self._attr[k]
        self._attr[k] = None
        rs = set()
        emp = False
        add = False
        for c in self.family(cls):
            stores, adds = self._index(c)
            for f, v in stores.get(name, ()):
                if isinstance(v, ast.Constant) and v.value is None:
                    continue
                if self._empty_set(v):
                    emp = True
                    continue
                rs.add(self.classify(f, v, depth + 1))
            add = add or name in adds
        r = rs.pop() if len(rs) == 1 else None
        if emp and (add or r == "set"):
            r = "set"
        self._attr[k] = r
        return r

    # --- uses

    def sensitive(self, f: Func, e, kind: str, seen=None, depth=0) -> Optional[str]:
        """reason if the iteration order of e becomes observable"""
        seen = set() if seen is None else seen
        if id(e) in seen or depth > 12:
            return None
        seen.add(id(e))
        par = parents(f)
        P = par.get(e)
        go = lambda x, k=kind: self.sensitive(f, x, k, seen, depth + 1)
        if P is None:
            return None
        if isinstance(P, ast.keyword):
            P = par.get(P)
        if isinstance(P, ast.Call):
            if P.func is e:
                return None
            nm = P.func.attr if isinstance(P.func, ast.Attribute) else P.func.id if isinstance(P.func, ast.Name) else None
            if nm in RNG_DRAW and isinstance(P.func, ast.Attribute):
                return f"line {P.lineno}: random choice over it"
            if nm == "next":
                return None
            if nm == "sort":
                return None
            if nm in SAFE:
                return None
            if nm in ("enumerate", "zip"):
                return self._paired(f, P, nm, seen, depth)
            if nm in PASS:
                return go(P, "list")
            if nm == "extend" and isinstance(P.func, ast.Attribute):
                return self._into(f, P.func.value, seen, depth)
            return None
        if isinstance(P, ast.Attribute):
            C = par.get(P)
            if isinstance(C, ast.Call) and C.func is P:
                if P.attr in ("keys", "values", "items") and kind == "dict":
                    return go(C, "list")
                if P.attr == "copy":
                    return go(C)
                if P.attr == "pop" and kind == "set" and not C.args:
                    return self._popuse(f, C)
                if P.attr in ("union", "intersection", "difference", "symmetric_difference") and kind == "set":
                    return go(C, "set")
            return None
        if isinstance(P, ast.Starred):
            return go(P, "list")
        if isinstance(P, (ast.List, ast.Tuple)):
            return go(P, "list") if isinstance(e, ast.Starred) else None
        if isinstance(P, ast.comprehension) and P.iter is e:
            C = par.get(P)
            tn = _names(P.target)
            if isinstance(C, (ast.ListComp, ast.GeneratorExp)):
                if not _mentions(C.elt, tn):
                    return None
                if any(_draws(x) for x in ast.walk(C.elt)):
                    return f"line {C.lineno}: random draws in this order"
                return go(C, "list")
            return None
        if isinstance(P, (ast.For, ast.AsyncFor)) and P.iter is e:
            return self._loop(f, P, _names(P.target), P.body, seen, depth)
        if isinstance(P, (ast.Assign, ast.AnnAssign)):
            tg = P.targets if isinstance(P, ast.Assign) else [P.target]
            for t in tg:
                if isinstance(t, (ast.Name, ast.Attribute)):
                    if kind in ("set", "dict") and (self.classify(f, t)):
                        continue  # uses are visited on their own
                    r = self._into(f, t, seen, depth, kind)
                    if r:
                        return r
            return None
        if isinstance(P, ast.AugAssign) and P.value is e and kind == "list":
            return self._into(f, P.target, seen, depth)
        if isinstance(P, ast.Subscript) and P.value is e and kind == "list":
            return f"line {P.lineno}: used by position"
        if isinstance(P, ast.BinOp):
            if kind == "list" and isinstance(P.op, (ast.Add, ast.Mult)):
                return go(P)
            if kind == "set":
                return go(P)
            return None
        if isinstance(P, ast.IfExp) and P.test is not e:
            return go(P)
        if isinstance(P, ast.BoolOp):
            return None if _is_test(par, P) else go(P)
        if isinstance(P, ast.Return) and kind == "list":
            return f"line {P.lineno}: returned as a sequence"
        if isinstance(P, ast.YieldFrom):
            return f"line {P.lineno}: yielded in this order"
        return None

    def _popuse(self, f, call):
        P = parents(f).get(call)
        if isinstance(P, ast.Expr):
            return None
        # single-element sets are usual: pop after a length check
        for n in ast.walk(f.node):
            if isinstance(n, ast.Compare) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" for x in ast.walk(n)):
                return None
        return f"line {call.lineno}: arbitrary element taken"

    def _paired(self, f, P, nm, seen, depth):
        """enumerate/zip over a hash ordered iterable"""
        par = parents(f)
        Q = par.get(P)
        tgt = None
        scope = []
        if isinstance(Q, (ast.For, ast.AsyncFor)) and Q.iter is P:
            tgt, scope = Q.target, Q.body
        elif isinstance(Q, ast.comprehension) and Q.iter is P:
            C = par.get(Q)
            tgt = Q.target
            scope = [C.key, C.value] if isinstance(C, ast.DictComp) else [C.elt]
        elif isinstance(Q, ast.Call) and isinstance(Q.func, ast.Name) and Q.func.id in ("dict", "list"):
            return f"line {P.lineno}: positions assigned in this order ({nm})"
        if isinstance(tgt, ast.Tuple) and len(tgt.elts) >= 2:
            used = [any(_mentions(s, _names(t)) for s in scope) for t in tgt.elts]
            if sum(used) >= 2:
                return f"line {P.lineno}: positions assigned in this order ({nm})"
        return None

    def _loop(self, f, loop, tn, body, seen, depth):
        # names derived from the loop variables
        tn = set(tn)
        for _ in range(3):
            for st in body:
                for n in ast.walk(st):
                    if isinstance(n, ast.Assign) and _mentions(n.value, tn):
                        for t in n.targets:
                            if isinstance(t, (ast.Name, ast.Tuple)):
                                tn |= _names(t)
                    elif isinstance(n, (ast.For, ast.comprehension)) and _mentions(n.iter, tn):
                        tn |= _names(n.target)
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    if n.func.attr in ("append", "extend", "insert", "appendleft") and any(_mentions(a, tn) for a in n.args):
                        r = self._into(f, n.func.value, seen, depth)
                        if r:
                            return r
                    if _draws(n) and not _mentions(n.func, tn):
                        return f"line {n.lineno}: random draws in this order"
                if isinstance(n, (ast.Yield, ast.YieldFrom)) and n.value is not None and _mentions(n.value, tn):
                    return f"line {n.lineno}: yielded in this order"
                if isinstance(n, ast.AugAssign) and isinstance(n.value, (ast.List, ast.ListComp)) and _mentions(n.value, tn):
                    r = self._into(f, n.target, seen, depth)
                    if r:
                        return r
        return None

    def _into(self, f: Func, t, seen, depth, kind="list") -> Optional[str]:
        """a sequence in hash order is stored in / appended to t"""
        if isinstance(t, ast.Name):
            if self._sorted_later([f], lambda x, g: isinstance(x, ast.Name) and x.id == t.id):
                return None
            for n in walk_own(f.node):
                if isinstance(n, ast.Name) and n.id == t.id and isinstance(n.ctx, ast.Load):
                    r = self.sensitive(f, n, kind, seen, depth + 1)
                    if r:
                        return r
            return None
        s = self_name(f)
        if f.cls is not None and _is_self(t, s):
            fs = [g for c in self.family(f.cls) for g in c.methods.values()]
            if self._sorted_later(fs, lambda x, g: _is_self(x, self_name(g), t.attr)):
                return None
            for g in fs:
                for n in walk_own(g.node):
                    if _is_self(n, self_name(g), t.attr) and isinstance(n.ctx, ast.Load):
                        r = self.sensitive(g, n, kind, seen, depth + 1)
                        if r:
                            return f"{g.qualname} {r}"
        return None

    @staticmethod
    def _sorted_later(fs, pred):
        for g in fs:
            for n in walk_own(g.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "sort" and pred(n.func.value, g):
                    return True
        return False


def _draws(n) -> bool:
    return (
        isinstance(n, ast.Call)
        and isinstance(n.func, ast.Attribute)
        and n.func.attr in RNG_ANY
        and ("rng" in ast.unparse(n.func.value).lower() or "rnd" in ast.unparse(n.func.value).lower() or "rand" in ast.unparse(n.func.value).lower())
    )


def _is_test(par, e) -> bool:
    P = par.get(e)
    return isinstance(P, (ast.If, ast.While, ast.IfExp, ast.Assert)) and getattr(P, "test", None) is e


def _names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def _mentions(e, names) -> bool:
    return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(e))


_inst = None


def inst(p) -> HashOrder:
    global _inst
    if _inst is None or _inst.p is not p:
        _inst = HashOrder(p)
    return _inst


def order_sensitive(p, f, e) -> Optional[str]:
    """e: expression yielding items in arbitrary order (e.g. a directory listing)"""
    return inst(p).sensitive(f, e, "list")


def check(p, rep, rule, funcs):
    h = inst(p)
    for f in funcs:
        for n in walk_own(f.node):
            if not isinstance(n, ast.expr) or isinstance(getattr(n, "ctx", None), ast.Store):
                continue
            k = h.classify(f, n)
            if k is None:
                continue
            why = h.sensitive(f, n, k)
            if why is None:
                rep.ok(rule, f"{f.where}: {ast.unparse(n)[:60]}")
            else:
                rep.bad(rule, f.where, ast.unparse(n)[:80], f"the iteration order of a set becomes visible ({why})", n.lineno)
