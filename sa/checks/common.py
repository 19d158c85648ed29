"""small helpers shared by the checks"""

from __future__ import annotations
import ast
from typing import Iterator, List, Tuple
from ..flow import Flow, alts, subterms, static_callees
from ..project import walk_own, dotted_name, Func, Class, Project


def return_terms(fl: Flow) -> List[Tuple[tuple, tuple]]:
    """(node key, term) of all return statements of the entry function (and of inlined functions not included)"""
    res = []
    for nk in fl.env:
        if nk[0] is fl.root and nk[1].kind == "return":
            v = nk[1].d.get("value")
            res.append((nk, fl.term(nk, v) if v is not None else ("c", None)))
    return res


def strings_in(node) -> List[str]:
    return [x.value for x in ast.walk(node) if isinstance(x, ast.Constant) and isinstance(x.value, str)]


def self_name(f: Func):
    a = f.node.args
    ps = a.posonlyargs + a.args
    return ps[0].arg if ps else None


def self_attr_stores(f: Func) -> Iterator[Tuple[str, ast.Attribute]]:
    s = self_name(f)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == s:
            yield n.attr, n


def self_attr_loads(f: Func) -> Iterator[Tuple[str, ast.Attribute]]:
    s = self_name(f)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == s:
            yield n.attr, n


def method_closure(p: Project, cls: Class, names) -> List[Func]:
    """methods of cls (as resolved for this class) reachable from the named ones via self.x / super().x"""
    res: List[Func] = []
    todo = [p.find_method(cls, n) for n in names]
    while todo:
        f = todo.pop()
        if f is None or f in res:
            continue
        res.append(f)
        s = self_name(f)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                if isinstance(n.value, ast.Name) and n.value.id in (s, cls.name):
                    todo.append(p.find_method(cls, n.attr))
                elif isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "super":
                    todo.append(p.find_method(cls, n.attr, after=f.cls))
    return res


def conds_hold(fl: Flow, nk):
    return fl.cond_term(nk)


def is_call_to(t, *names) -> bool:
    """term is a call whose function name (last component) is one of names"""
    return t[0] == "call" and str(t[1][-1]).replace(":", ".").split(".")[-1] in names


MUTATORS = ("append", "add", "update", "extend", "insert", "setdefault", "appendleft", "put", "put_nowait", "__setitem__")


def content_map(fl: Flow):
    """container term -> set of terms put into it (subscript stores and mutating method calls), flow-insensitive"""
    m = fl.__dict__.get("_content_map")
    if m is None:
        m = fl._content_map = {}
        for nk in fl.env:
            n = nk[1]
            if n.kind == "assign" and n.d["target"][0] == "sub":
                b = fl.term(nk, n.d["target"][1])
                for x in alts(b):
                    m.setdefault(x, set()).update([fl.term(nk, n.d["value"]), fl.term(nk, n.d["target"][2])])
            c = fl.calls.get(nk)
            if c is not None and c.recv is not None and c.name in MUTATORS:
                for x in alts(c.recv):
                    m.setdefault(x, set()).update(list(c.args) + list(c.kwargs.values()))
    return m


def deep_subterms(fl: Flow, t, limit=3000):
    """all subterms of t, also of everything put into containers that are subterms"""
    cm = content_map(fl)
    seen = set()
    todo = [t]
    while todo and len(seen) < limit:
        x = todo.pop()
        for s in subterms(x):
            if s in seen:
                continue
            seen.add(s)
            if s in cm:
                todo.extend(cm[s])
    return seen
