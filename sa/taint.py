"""
Forward taint dataflow over the inlined interprocedural graph of a Flow, with explicit and implicit flows, and
control-dependence regions (branch -> nodes before its immediate post-dominator, exceptional ends ignored).

keys: (frame, ("n", name)), (frame, ("t", k)), ("attr", name), (frame, "$ret")
"""

from __future__ import annotations
from typing import Callable, Dict, Set
from .flow import Flow, _uses


def root_vars(e, acc):
    """names/temps at the root of an access path"""
    while isinstance(e, tuple) and e and e[0] in ("a", "sub", "star"):
        e = e[1]
    if isinstance(e, tuple) and e and e[0] in ("n", "t"):
        acc.add(e)


class Graph:
    def __init__(self, fl: Flow, drop: Callable = None):
        """:param drop: (nk, label, nk2) -> True: this edge is not considered"""
        self.fl = fl
        start = (fl.root, None)
        from .ir import get_ir

        self.entry = (fl.root, get_ir(fl.root.func).entry)
        self.succ: Dict = {}
        todo = [self.entry]
        while todo:
            nk = todo.pop()
            if nk in self.succ:
                continue
            out = []
            for nk2, lab in fl.successors(nk):
                if drop is not None and drop(nk, lab, nk2):
                    continue
                out.append((nk2, lab))
                todo.append(nk2)
            self.succ[nk] = out
        # only nodes which can reach the normal exit
        self.exits = {nk for nk in self.succ if nk[1].kind == "exit" and nk[0].parent is None}
        pred: Dict = {}
        for a, bs in self.succ.items():
            for b, _ in bs:
                pred.setdefault(b, []).append(a)
        self.pred = pred
        live = set(self.exits)
        todo = list(live)
        while todo:
            x = todo.pop()
            for y in pred.get(x, ()):
                if y not in live:
                    live.add(y)
                    todo.append(y)
        self.live = live
        self._pdom = None

    def lsucc(self, nk):
        return [(b, l) for b, l in self.succ.get(nk, ()) if b in self.live]

    def ipdom(self, nk):
        if self._pdom is None:
            self._calc()
        return self._ip.get(nk)

    def _calc(self):
        # Cooper/Harvey/Kennedy on the reversed graph
        order = []
        seen = set()
        EXIT = "EXIT"
        rsucc = {n: [p for p in self.pred.get(n, ()) if p in self.live] for n in self.live}
        rsucc[EXIT] = list(self.exits)
        stack = [(EXIT, iter(rsucc[EXIT]))]
        seen.add(EXIT)
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    stack.append((m, iter(rsucc[m])))
                    break
            else:
                order.append(n)
                stack.pop()
        num = {n: i for i, n in enumerate(order)}  # EXIT highest
        ip = {EXIT: EXIT}
        changed = True
        rev = list(reversed(order))[1:]
        while changed:
            changed = False
            for n in rev:
                ps = [b for b, _ in self.lsucc(n)]
                if n in self.exits:
                    ps = ps + [EXIT]
                new = None
                for q in ps:
                    if q in ip:
                        if new is None:
                            new = q
                        else:
                            a, b = q, new
                            while a != b:
                                while num[a] < num[b]:
                                    a = ip[a]
                                while num[b] < num[a]:
                                    b = ip[b]
                            new = a
                if new is not None and ip.get(n) != new:
                    ip[n] = new
                    changed = True
        self._ip = ip
        self._pdom = True

    def region(self, nk) -> Set:
        """nodes executed or not depending on the decision at nk"""
        stop = self.ipdom(nk)
        res = set()
        todo = [b for b, _ in self.lsucc(nk)]
        while todo:
            x = todo.pop()
            if x in res or x == stop:
                continue
            res.add(x)
            todo.extend(b for b, _ in self.lsucc(x))
        return res


class Taint:
    def __init__(self, g: Graph, source: Callable, sanitize: Callable = None, implicit=True, branchy: Callable = None, source_term: Callable = None, no_implicit: Callable = None):
        """
        :param source: (nk, call or None) -> True if the value produced by this node is a source
        :param sanitize: (nk, call) -> IR expressions whose root variables become clean after the call
        :param source_term: IR attribute name -> True if reading this attribute is a source
        """
        self.g, self.fl = g, g.fl
        self.source, self.sanitize = source, sanitize
        self.source_term = source_term
        self.branchy = branchy
        self.implicit_keys: Set = set()
        self.IN: Dict = {}
        while True:
            self._run()
            if not implicit:
                break
            add = set()
            for b in self.tainted_branches():
                if no_implicit is not None and no_implicit(b):
                    continue
                for x in g.region(b):
                    if x[1].kind == "assign" and x not in self.implicit_keys:
                        add.add(x)
                    if x[1].kind == "return" and x not in self.implicit_keys:
                        add.add(x)
            if not add:
                break
            self.implicit_keys |= add

    def keys_of(self, nk, e):
        acc = set()
        _uses(e, acc)
        res = set()
        for x in acc:
            k = ("n", x) if isinstance(x, str) else x
            res.add((nk[0], k))
            # closure variables
            if k[0] == "n" and nk[0].closure is not None:
                fr = nk[0].closure
                while fr is not None:
                    res.add((fr, k))
                    fr = fr.closure
        for a in _attrs(e):
            res.add(("attr", a))
        return res

    def tainted(self, nk, e, state=None) -> bool:
        st = self.IN.get(nk, frozenset()) if state is None else state
        ks = self.keys_of(nk, e)
        if self.source_term is not None and any(k[0] == "attr" and self.source_term(k[1]) for k in ks):
            return True
        return bool(ks & st)

    def _target(self, nk, t):
        if t[0] in ("n", "t"):
            return (nk[0], t)
        if t[0] == "a":
            return ("attr", t[2])
        if t[0] == "sub":
            acc = set()
            root_vars(t, acc)
            for x in acc:
                return (nk[0], x)
        return None

    def _transfer(self, nk, st):
        fl = self.fl
        n = nk[1]
        out = set(st)
        if n.kind == "assign":
            k = self._target(nk, n.d["target"])
            if k is not None:
                v = nk in self.implicit_keys or self.tainted(nk, n.d["value"], st) or self.source(nk, None)
                if n.d.get("aug"):
                    v = v or k in st
                strong = n.d["target"][0] in ("n", "t", "a")
                if v:
                    out.add(k)
                elif strong:
                    out.discard(k)
        elif n.kind == "call":
            c = fl.calls.get(nk)
            if nk not in fl.inlined:
                exprs = list(n.d["args"]) + [v for _, v in n.d["kwargs"]] + [n.d["func"]]
                v = any(self.tainted(nk, e, st) for e in exprs) or (c is not None and self.source(nk, c))
                dk = (nk[0], ("t", n.d["dest"]))
                (out.add if v else out.discard)(dk)
                if self.sanitize is not None and c is not None:
                    for e in self.sanitize(nk, c) or ():
                        acc = set()
                        root_vars(e, acc)
                        for x in acc:
                            out.discard((nk[0], x))
        elif n.kind == "return":
            v = nk in self.implicit_keys or (n.d.get("value") is not None and self.tainted(nk, n.d["value"], st))
            if v:
                out.add((nk[0], "$ret"))
        return out

    def _enter(self, nk, fr2, st):
        """parameters of the callee"""
        out = set(st)
        call = nk[1]
        ps = fr2.func.param_names()
        args = list(call.d.get("args", ()))
        kw = dict(call.d.get("kwargs", ()))
        off = 1 if (fr2.func.cls is not None and not fr2.func.is_static) else 0
        for i, pn in enumerate(ps):
            e = kw.get(pn)
            if e is None and 0 <= i - off < len(args):
                e = args[i - off]
            if e is not None and self.tainted(nk, e, st):
                out.add((fr2, ("n", pn)))
        if any(self.tainted(nk, a, st) for a in args if a and a[0] == "star") or ("**" in kw and self.tainted(nk, kw["**"], st)):
            for pn in ps:
                out.add((fr2, ("n", pn)))
        return out

    def _run(self):
        self.IN = {self.g.entry: frozenset()}
        todo = [self.g.entry]
        while todo:
            nk = todo.pop()
            st = self.IN[nk]
            out = self._transfer(nk, st)
            for b, lab in self.g.succ.get(nk, ()):
                o = out
                if lab == "call":
                    o = self._enter(nk, b[0], out)
                elif nk[1].kind == "exit" and nk[0].parent is not None:
                    o = {k for k in out if k[0] is not nk[0] or k[0] == "attr"}
                    if (nk[0], "$ret") in out:
                        o.add((nk[0].parent, ("t", nk[0].call.d.get("dest"))))
                old = self.IN.get(b)
                new = frozenset(o) if old is None else old | o
                if old is None or new != old:
                    self.IN[b] = frozenset(new)
                    todo.append(b)

    def tainted_branches(self):
        for nk in self.g.live:
            if len(self.g.lsucc(nk)) < 2:
                continue
            n = nk[1]
            if n.kind == "branch":
                if self.tainted(nk, n.d["cond"]):
                    yield nk
            elif n.kind == "iter":
                if self.tainted(nk, n.d["iter"]) or self.source(nk, None):
                    yield nk
            elif self.branchy is not None and self.branchy(nk):
                yield nk


def _attrs(e):
    out = []

    def rec(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == "a" and isinstance(x[2], str):
                out.append(x[2])
            for y in x:
                rec(y)

    rec(e)
    return out
