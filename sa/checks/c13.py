"""
C13 explicit sequence lists / orders are honoured or rejected, never ignored.

For every dataset class, ``init_seq_order`` is analysed twice, specialised (by partial evaluation of the dataflow) to "an explicit
seq_list is given" and "an explicit seq_order is given".
"""

from __future__ import annotations
import ast
from typing import Dict, Optional
from ..flow import Flow, alts, fmt, subterms, contains
from ..project import Project, Func, Class
from .common import content_map, self_name

DATASET = "returnn.datasets.basic.Dataset"
SCOPE = "returnn.datasets"
BASES = ("returnn.datasets.basic.Dataset", "returnn.datasets.cached2.CachedDataset2")
KINDS = ("seq_list", "seq_order")

OBSERVE = {"len", "isinstance", "print", "bool", "str", "repr", "type", "id", "all", "any", "sum", "max", "min", "format", "hasattr", "set", "hash"}
CONVERT = {"list", "tuple", "iter", "numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "copy.copy", "copy.deepcopy", "numpy.copy"}
LOSSY = {"sorted", "set", "frozenset", "reversed", "filter", "numpy.unique", "numpy.sort", "numpy.flip", "numpy.random.permutation"}
LOSSY_M = {"permutation", "filter", "filter_epoch", "get_seq_order_for_epoch", "sample", "intersection", "difference", "choice", "fromkeys"}
INPLACE_M = {"sort", "reverse", "pop", "remove", "clear", "insert"}
INPLACE_ARG = {"shuffle"}
EQUALITY = {"array_equal", "array_equiv"}


def check(p: Project, rep):
    rep.rule("R1", "with an explicit seq_list/seq_order, every normal return of init_seq_order has taken it over (or forwarded it); otherwise it raises")
    rep.rule("R2", "the order taken over is exactly the given one: not filtered, sorted, cut, shuffled or overwritten")
    rep.rule("R3", "the attribute which holds the explicit order is what the dataset iterates over")
    rep.rule("R4", "sub datasets get the explicit list under the right name")
    rep.rule("R5", "the number of sequences follows the explicit order; an empty list is not treated as no list")
    base = p.get_class(DATASET)
    if base is None:
        rep.errors.append("Dataset class not found")
        return
    n = 0
    for cls in sorted(p.subclasses(base), key=lambda c: c.full):
        if not cls.full.startswith(SCOPE + ".") or cls.full in BASES:
            continue
        f = p.find_method(cls, "init_seq_order")
        if f is None:
            continue
        if f.cls.full in BASES:
            if p.subclasses(cls, proper=True):
                continue  # abstract helper
            rep.bad("R1", f"{cls.module.path}:{cls.name}" if hasattr(cls.module, "path") else cls.full, "no-override", f"{cls.name} does not handle seq_list/seq_order at all")
            continue
        n += 1
        for kind in KINDS:
            _Scen(p, rep, cls, f, kind).run()
    rep.need("R1", n, 10, "dataset classes with init_seq_order")


class _Scen:
    def __init__(self, p, rep, cls: Class, f: Func, kind: str):
        self.p, self.rep, self.cls, self.f, self.kind = p, rep, cls, f, kind
        self.X = ("nn", kind)
        other = [k for k in KINDS if k != kind][0]
        mro = set(p.mro(cls))
        skip = {"get_seq_order_for_epoch", "_get_random_seed_for_epoch", "_lazy_init", "get_current_seq_order"}

        def inline(g):
            if g.name == "__init__" or g.cls is None or g.cls not in mro or g.name in skip:
                return False
            if g.name == "init_seq_order":
                return True
            return g.cls.full not in BASES and sum(isinstance(x, ast.stmt) for x in ast.walk(g.node)) <= 40

        def mk(a, b):
            names = f.param_names()
            pt = {"epoch": ("nn", "epoch"), kind: a, other: b}
            return Flow(f, cls=cls, inline=inline, max_depth=4, param_terms={k: v for k, v in pt.items() if k in names})

        self.fl = mk(self.X, ("c", None))
        self.dfl = mk(("c", None), ("c", None))
        self.cm = content_map(self.fl)
        self._dep: Dict = {}
        self._ex: Dict = {}

    # --- value classification

    def dep(self, t, depth=0) -> bool:
        """content of t comes from the explicit list (more than just its length / presence)"""
        if t in self._dep:
            return self._dep[t]
        self._dep[t] = False
        r = self._dep0(t)
        self._dep[t] = r
        return r

    def _dep0(self, t):
        if t == self.X:
            return True
        if t[0] in ("c", "self", "param", "g", "cmp", "nn", "star", "lam", "undef", "top") and not (t[0] == "star" and isinstance(t[1], tuple) and self.dep(t[1])):
            return False
        if t[0] == "u" and t[1] == "Not":
            return False
        if t in self.cm and any(self.dep(x) for x in self.cm[t]):
            return True
        if t[0] == "call":
            if t[1][0] == "ext" and t[1][1].split(".")[-1] in OBSERVE and t[1][1] != "set":
                return False
            if t[1][0] == "m" and self.dep(t[1][1]):
                return True
            return any(self.dep(x) for x in t[2]) or any(self.dep(v[1]) for v in _kw(t) if isinstance(v[1], tuple))
        if t[0] == "attr":
            return self.dep(t[1])
        if t[0] == "phi":
            return any(self.dep(x) for x in alts(t))
        return any(self.dep(x) for x in _children(t))

    def lossy(self, t) -> Optional[str]:
        """description of an operation by which t differs from the explicit order, else None"""
        if t in self._ex:
            return self._ex[t]
        self._ex[t] = None
        self._ex[t] = r = self._lossy0(t)
        return r

    def _lossy0(self, t):
        if t == self.X or not self.dep(t):
            return None
        if t[0] == "phi":
            for x in alts(t):
                if not self.dep(x):
                    return f"replaced by {fmt(x)[:60]} on some paths"
                r = self.lossy(x)
                if r:
                    return r
            return None
        if t[0] == "call":
            name = str(t[1][-1]).replace(":", ".").split(".")[-1]
            if t[1][0] == "ext":
                if t[1][1] in LOSSY or "numpy." + t[1][1].split(".")[-1] in LOSSY and t[1][1].split(".")[0] in ("np", "numpy"):
                    return name
                for x in t[2]:
                    r = self.lossy(x)
                    if r:
                        return r
                return None
            if t[1][0] == "m":
                if name in LOSSY_M:
                    return name
                return self.lossy(t[1][1]) if self.dep(t[1][1]) else None
            if name in LOSSY_M:
                return name
            return None
        if t[0] == "comp":
            carrying = [v for v in t[2] if self.dep(v)]
            if t[1] in ("set",):
                return "set"
            if t[3] and any(self.carries_elem(v) for v in carrying):
                return "filtered"
            if t[1] == "dict":
                for v in carrying:
                    r = self.lossy(v)
                    if r:
                        return r
                return None
            for v in carrying:
                for s in subterms(v):
                    if s[0] == "elem" and self.dep(s[1]):
                        r = self.lossy(s[1])
                        if r:
                            return r
            return None
        if t[0] == "sub":
            if t[2][0] == "slice" and self.dep(t[1]) and not self.is_elem(t[1]):
                if t[2][1:4] in ((("c", None),) * 3,):
                    return self.lossy(t[1])
                if self.partition(t):
                    return self.lossy(t[1])
                return "slice"
            if self.dep(t[1]):
                return self.lossy(t[1])
            return None
        if t[0] == "new" or t in self.cm:
            for x in self.cm.get(t, ()):
                r = self.lossy(x)
                if r:
                    return r
            return None
        if t[0] == "b":
            for x in t[2:]:
                if isinstance(x, tuple) and self.dep(x):
                    r = self.lossy(x)
                    if r:
                        return r
            return None
        return None

    def is_elem(self, t) -> bool:
        return any(s[0] in ("elem", "val", "item") for s in subterms(t) if s[0] == "elem" and self.dep(s[1])) and t[0] != "phi"

    def carries_elem(self, v) -> bool:
        return any(s[0] == "elem" and self.dep(s[1]) for s in subterms(v))

    def partition(self, t) -> bool:
        """X[:n] together with X[n:]"""
        sl = t[2]
        lo, hi = sl[1], sl[2]
        none = ("c", None)
        if len(sl) > 3 and sl[3] != none:
            return False
        for s in self.slices():
            if s[0] == "slice" and s[1:3] == ((hi, none) if lo == none else (none, lo)):
                return True
        # consecutive parts with a running offset
        return lo != none and hi != none and (self.dep(hi) or contains(hi, lo) or lo[0] == "phi" and hi[0] in ("lin", "phi"))

    def slices(self):
        if not hasattr(self, "_sl"):
            self._sl = set()
            for nk in self.fl.env:
                n = nk[1]
                if n.kind in ("assign", "return"):
                    for s in subterms(self.fl.term(nk, n.d["value"])):
                        if s[0] == "slice":
                            self._sl.add(s)
                c = self.fl.calls.get(nk)
                if c is not None:
                    for a in list(c.args) + list(c.kwargs.values()):
                        for s in subterms(a):
                            if s[0] == "slice":
                                self._sl.add(s)
        return self._sl

    # --- default scenario: what normally holds the order

    def primary(self):
        """(attrs which hold the order without explicit list, whether sub datasets are initialised)"""
        attrs = set()
        sub = False
        fl = self.dfl
        for nk in fl.env:
            n = nk[1]
            c = fl.calls.get(nk)
            if c is not None and self.delegation(fl, c):
                sub = True
            if n.kind == "assign" and n.d["target"][0] == "a" and fl.term(nk, n.d["target"][1])[0] == "self":
                v = fl.term(nk, n.d["value"])
                if _order_spine(fl, v):
                    attrs.add(n.d["target"][2])
        return attrs, sub

    @staticmethod
    def delegation(fl, c) -> bool:
        if c.name == "init_seq_order" and c.recv is not None and c.recv[0] != "self" and not _is_super(c.recv):
            return True
        if c.name in ("send", "put") and any(s == ("c", "init_seq_order") for a in c.args for s in subterms(a)):
            return True
        return False

    # --- run

    def run(self):
        fl, rep = self.fl, self.rep
        where = self.f.where
        tag = f"{self.cls.name}.{self.kind}"
        prim, psub = self.primary()
        if fl.truncated or self.dfl.truncated:
            rep.errors.append(f"{where}: analysis exceeded its budget")
        stores, sinks, loops = {}, {}, {}
        seen = set()

        def bad(rule, construct, msg, nk, wit=None):
            if (rule, construct) not in seen:
                seen.add((rule, construct))
                rep.bad(rule, nk[0].func.where, f"{tag}-{construct}", f"{self.cls.name}: {msg}", nk[1].line, wit)

        for nk in fl.env:
            n = nk[1]
            if n.kind == "assign" and n.d["target"][0] == "a" and fl.term(nk, n.d["target"][1])[0] == "self":
                attr = n.d["target"][2]
                v = fl.term(nk, n.d["value"])
                d = self.dep(v)
                stores[nk] = (attr, d)
                if d:
                    r = self.lossy(v)
                    if r and (attr in prim or not prim):
                        bad("R2", f"lossy-{attr}", f"self.{attr} is not exactly the explicit {self.kind}: {r}", nk)
                elif self.truthiness(v):
                    bad("R5", f"truth-{attr}", f"self.{attr} depends on the truth value of {self.kind}: an empty list is treated as no list", nk)
                if attr == "_num_seqs" and v[0] == "call" and v[1] == ("ext", "len") and not self.dep(v[2][0]) and self.own(v[2][0]):
                    stores[nk] = (attr, d)
                    sinks[nk] = ("num", v)
            c = fl.calls.get(nk)
            if c is None:
                continue
            allargs = list(c.args) + list(c.kwargs.values())
            if self.delegation(fl, c):
                d = any(self.dep(a) for a in allargs)
                sinks[nk] = ("sub", d)
                if d:
                    for a in allargs:
                        r = self.lossy(a)
                        if r:
                            bad("R2", f"sub-lossy", f"the explicit {self.kind} handed on is not exactly the given one: {r}", nk)
                if c.name == "init_seq_order":
                    if not d:
                        bad("R4", "sub-without", f"a sub dataset is initialised without the explicit {self.kind}", nk)
                    for k in KINDS:
                        if k != self.kind and c.kwargs.get(k) == self.X:
                            bad("R4", "swapped", f"{self.kind} is handed on as {k}", nk)
                    if len(c.args) > 1 and self.kind == "seq_order" and c.args[1] == self.X or len(c.args) > 2 and self.kind == "seq_list" and c.args[2] == self.X:
                        bad("R4", "swapped", f"{self.kind} is handed on under the wrong name", nk)
                else:
                    for a in c.args:
                        for s in subterms(a):
                            if s[0] == "dict":
                                for k, v in s[1]:
                                    if k[0] == "c" and k[1] in KINDS and k[1] != self.kind and v == self.X:
                                        bad("R4", "swapped", f"{self.kind} is handed on as {k[1]}", nk)
            elif nk not in fl.inlined:
                if c.recv is not None and c.name in INPLACE_M and self.dep(c.recv) and not (c.recv[0] == "new" and c.name == "insert") and not self.is_elem(c.recv):
                    bad("R2", f"inplace-{c.name}", f"the explicit order is modified in place by {c.name}", nk)
                elif c.name in INPLACE_ARG and any(self.dep(a) for a in c.args):
                    bad("R2", f"inplace-{c.name}", f"the explicit order is modified in place by {c.name}", nk)
        for nk in fl.env:
            n = nk[1]
            if n.kind == "iter":
                t = fl.term(nk, n.d["iter"])
                d = self.dep(t)
                loops[nk] = d
        appends = self.appends()
        holders_ok = prim

        def counts(attr):
            if prim or psub:
                return attr in prim
            return self.read_elsewhere(attr)

        def step(nk, st, lab):
            hold, it, num = st
            if lab == "exc":
                return st
            n = nk[1]
            s = stores.get(nk)
            if s is not None:
                attr, d = s
                if d and counts(attr):
                    hold = hold | {attr}
                elif not d and attr in hold:
                    hold = hold - {attr}
                if attr == "_num_seqs":
                    num = nk if nk in sinks else None
            k = sinks.get(nk)
            if k is not None and k[0] == "sub" and k[1]:
                hold = hold | {"*"}
            if nk in loops:
                if lab == "iter":
                    it = it | {nk}
                elif lab == "done":
                    if nk not in it and self.loop_has_sink(nk, sinks):
                        return None  # at least one sub dataset / worker
                    it = it - {nk}
            return (hold, it, num)

        def hook(nk, st, t, val):
            hold, it, num = st
            if val and self.equality(t):
                return (hold | {"="}, it, num)
            return st

        def end(nk, st, kind):
            hold, it, num = st
            if kind != "exit":
                return
            if not hold:
                bad("R1", "ignored", f"an explicit {self.kind} can be ignored: init_seq_order returns normally without taking it over", nk, fl.witness())
            elif num is not None and "=" not in hold:
                bad("R5", "num-seqs", f"with an explicit {self.kind}, _num_seqs is the size of the whole corpus", num)

        states = fl.simulate((frozenset(), frozenset(), None), step, on_end=end, cond_hook=hook)
        rep.flow(fl, states)
        self.loop_appends(appends, bad)
        # R3
        for attr in {a for a, d in stores.values() if d and counts(a)}:
            if not self.read_elsewhere(attr):
                bad("R3", f"unread-{attr}", f"self.{attr} is never used to select the sequences", (fl.root, _entry(fl)))
            else:
                rep.ok("R3", f"{tag}: self.{attr}")
        for r in ("R1", "R2", "R4", "R5"):
            if not any(x[0] == r for x in seen):
                rep.ok(r, f"{where} {tag}")

    def own(self, t) -> bool:
        """data of the object itself (not derived from a call)"""
        return all(x[0] == "attr" and x[1][0] == "self" for x in alts(t))

    def truthiness(self, v) -> bool:
        for s in subterms(v):
            if s[0] == "call" and s[1] == ("ext", "bool") and any(x == self.X or x[0] == "bool" and self.X in x[2] for x in s[2]):
                return True
            if s[0] == "u" and s[1] == "Not" and (s[2] == self.X or s[2][0] == "u" and s[2][2] == self.X):
                return True
        return False

    def equality(self, t) -> bool:
        if t[0] == "phi":
            return all(self.equality(x) for x in alts(t))
        if t[0] == "cmp" and t[1] == "Eq":
            return any(self.dep(x) for x in t[2:4])
        if t[0] == "call":
            n = str(t[1][-1]).split(".")[-1]
            if n in EQUALITY:
                return any(self.dep(x) for x in t[2])
        return False

    def loop_has_sink(self, nk, sinks) -> bool:
        line0 = nk[1].ast
        par = _for_of(nk)
        if par is None:
            return False
        inside = {id(x) for x in ast.walk(par)}
        return any(k[0] is nk[0] and s[0] == "sub" and id(k[1].ast) in inside for k, s in sinks.items())

    def read_elsewhere(self, attr) -> bool:
        c = self.cls
        todo = [c] + [k for k in self.p.subclasses(c, proper=True)]
        names = {"init_seq_order"}
        for k in todo:
            for m in self.p.mro(k):
                for f in m.methods.values():
                    if f.name in names:
                        continue
                    s = self_name(f)
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Load):
                            return True
        return False

    # element-wise copies in loops

    def appends(self):
        res = {}
        for nk, c in self.fl.calls.items():
            if c.recv is not None and c.name in ("append", "extend") and c.args and self.carries_elem(c.args[0]) and nk in self.fl.env:
                res[nk] = c
        return res

    def loop_appends(self, appends, bad):
        """a loop over the explicit list which copies its elements must copy each of them once"""
        fl = self.fl
        for nk in fl.env:
            n = nk[1]
            if n.kind != "iter" or n.d.get("comp"):
                continue
            t = fl.term(nk, n.d["iter"])
            if not self.dep(t):
                continue
            el = fl.elem(t)
            mine = {}
            for k, c in appends.items():
                if k[0] is nk[0] and any(contains(c.args[0], s) for s in ([el] if el[0] != "tup" else [x for x in el[1] if x[0] == "elem"])):
                    mine.setdefault(c.recv, set()).add(k)
            for recv, ks in mine.items():
                def step(k, st, lab, ks=ks):
                    if lab == "exc":
                        return st
                    if k == nk:
                        if st == "in":
                            bad("R2", "skips", "elements of the explicit list can be skipped", nk)
                        return "in" if lab == "iter" else "out"
                    if k in ks:
                        if st == "got":
                            bad("R2", "twice", "elements of the explicit list can be used twice", nk)
                        return "got" if st in ("in", "got") else st
                    if st == "in" and k[1].kind == "nop":
                        return st
                    return st

                fl.simulate("out", step)


def _order_spine(fl, v) -> bool:
    """the elements of v are those of a sequence order chosen by the dataset"""
    cm = content_map(fl)
    todo, seen = [v], set()
    while todo:
        x = todo.pop()
        if x in seen or not isinstance(x, tuple) or not x:
            continue
        seen.add(x)
        todo.extend(cm.get(x, ()))
        if x[0] == "call":
            name = str(x[1][-1]).replace(":", ".").split(".")[-1]
            if name in ("get_seq_order_for_epoch", "get_seq_order", "get_current_seq_order"):
                return True
            if x[1][0] == "ext" and (x[1][1] in CONVERT or x[1][1] in ("zip", "enumerate", "dict", "sorted", "reversed")) or name in LOSSY_M:
                todo.extend(x[2])
                todo.extend(k[1] for k in _kw(x))
        elif x[0] in ("phi", "comp", "sub", "elem", "item", "tup", "list", "dict", "val", "idx"):
            todo.extend(_children(x))
    return False


def _for_of(nk):
    f = nk[0].func
    for x in ast.walk(f.node):
        if isinstance(x, (ast.For, ast.AsyncFor)) and x.iter is nk[1].ast:
            return x
        if isinstance(x, (ast.For, ast.AsyncFor)) and x is nk[1].ast:
            return x
    return None


def _entry(fl):
    from ..ir import get_ir

    return get_ir(fl.entry).entry


def _is_super(t) -> bool:
    return t[0] == "super" or t[0] == "call" and t[1] == ("ext", "super")


def _kw(t):
    return t[3] if len(t) > 3 and isinstance(t[3], tuple) else ()


def _children(t):
    todo = list(t[1:])
    while todo:
        x = todo.pop()
        if isinstance(x, frozenset):
            todo.extend(x)
        elif isinstance(x, tuple) and x:
            if isinstance(x[0], str):
                yield x
            else:
                todo.extend(x)
