"""
C12 worker-process protocols agree between parent and worker.

Worker side: for every request kind, all paths from the receive to the next receive are simulated; the result is the set
of answer sequences. Parent side: typestate simulation of all methods (fixpoint over all method orders) with the pending
answers per worker.
"""

from __future__ import annotations
import ast
import time
from typing import Dict, FrozenSet, List, NamedTuple, Optional, Set, Tuple
from ..flow import Flow, fmt, alts, subterms, relevance_by_names, names_used
from ..ir import get_ir
from ..project import Project, Func, Class

UNKNOWN = "<unknown>"
DATA_METHODS = {"_collect_single_seq", "get_data_seq", "load_seqs", "_load_seqs", "get_data"}
MAXQ = 6


def check(p: Project, rep):
    rep.rule("R1", "every kind of request which the parent sends is handled by the worker it is sent to, with all arguments the worker reads")
    rep.rule("R2", "each receive of the parent has a pending answer of the expected kind; no answer stays unread, in any order of method calls")
    rep.rule("R3", "the worker answers each request in the same way on all paths, also after a caught error")
    rep.rule("R4", "requests of unknown kind raise an error in the worker")
    rep.rule("R5", "a closed pipe ends the worker; the parent closes its copy of the worker's end after the start")
    rep.rule("R6", "no order of requests makes the worker use an object it has freed or not created yet")
    rep.rule("R7", "after a new sequence order, the worker starts with empty prefetch state")
    rep.rule("R8", "the parent sends only to started workers, in any order of method calls")
    rep.rule("R9", "seqs are requested from the worker which has them: same divisor for worker index and index within worker")
    rep.rule("R10", "optional fields of an answer are only computed with after a test for None")
    sites = _find_sites(p)
    rep.need("R1", len(sites), 2, "worker processes with a request loop")
    for s in sites:
        _Protocol(p, rep, s).run()


class Site(NamedTuple):
    func: Func  # creates the process
    cls: Optional[Class]
    nk: tuple
    fl: Flow
    call: object
    worker: Func
    conn_param: str


def _find_sites(p: Project) -> List[Site]:
    res = []
    for f in p.all_funcs():
        if not f.module.name.startswith("returnn.datasets"):
            continue
        nu = names_used(f)
        if "Process" not in nu:
            continue
        fl = Flow(f, cls=f.cls, inline=lambda g: False, max_depth=0)
        for nk, c in fl.calls.items():
            if c.name != "Process" and not str(c.ext() or "").endswith(".Process"):
                continue
            tgt = c.kwargs.get("target")
            if tgt is None:
                continue
            w = None
            for x in alts(tgt):
                if x[0] == "attr" and x[1][0] in ("self", "cls") and f.cls is not None:
                    w = p.find_method(f.cls, x[2])
                elif x[0] in ("fn", "func"):
                    w = p.get_func_any(str(x[1]).replace(":", "."))
            if w is None:
                for n in ast.walk(nk[1].d.get("ast") or f.node):
                    if isinstance(n, ast.keyword) and n.arg == "target":
                        nm = n.value.id if isinstance(n.value, ast.Name) else n.value.attr if isinstance(n.value, ast.Attribute) else None
                        if nm:
                            w = (p.find_method(f.cls, nm) if f.cls is not None else None) or p.get_func_any(f.module.name + "." + nm)
            if w is None or "recv" not in names_used(w) and not _transitive_recv(p, w):
                continue
            cp = _conn_param(p, w)
            if cp is None:
                continue
            res.append(Site(f, f.cls, nk, fl, c, w, cp))
    return res


def _transitive_recv(p, w):
    return relevance_by_names(p, {"recv"}, 3)(w)


def _conn_param(p, w: Func) -> Optional[str]:
    """the parameter from which the worker receives requests in its loop, i.e. on which it also sends"""
    fl = Flow(w, inline=_inl(p, w), max_depth=3)
    snd, rcv = set(), set()
    for nk, c in fl.calls.items():
        if c.recv is not None and c.name in ("send", "recv"):
            for x in alts(c.recv):
                if x[0] == "param":
                    (snd if c.name == "send" else rcv).add(x[2])
    both = snd & rcv
    if len(both) == 1:
        return both.pop()
    return None


def _inl(p, w):
    r = relevance_by_names(p, {"send", "recv"}, 4)
    return lambda g: g.module is w.module and not g.is_generator and r(g)


class Alt(NamedTuple):
    facts: FrozenSet  # ((param, const), bool)
    replies: Tuple
    ss: int
    sr: int
    ends: bool
    req: FrozenSet
    forb: FrozenSet
    exc: bool
    line: int


class WS(NamedTuple):
    facts: FrozenSet
    replies: Tuple
    ss: FrozenSet
    sr: FrozenSet
    req: FrozenSet
    own: FrozenSet
    forb: FrozenSet
    exc: bool
    ini: bool
    res: FrozenSet
    it: FrozenSet


class PS(NamedTuple):
    q: Tuple[Tuple, Tuple]
    shard: int
    dead: FrozenSet
    attrs: FrozenSet  # (name, "none"/"false"/"set") current value
    entry: FrozenSet  # (name, val): value at entry of those not yet reassigned are the same; kept for tests on entry values
    assigned: FrozenSet
    pf: FrozenSet
    it: FrozenSet
    last: FrozenSet
    one: FrozenSet
    nn: FrozenSet
    broken: bool


class _Protocol:
    def __init__(self, p: Project, rep, site: Site):
        self.p, self.rep, self.s = p, rep, site
        self.w = site.worker
        self.where = self.w.where
        self.wfl = Flow(self.w, inline=_inl(p, self.w), max_depth=3)
        rep.flow(self.wfl, 0)
        self.conn = [("param", f"{self.w.module.name}:{self.w.qualname}", site.conn_param)]

    def run(self):
        self._args()
        self._worker_nodes()
        if not self.recvs:
            self.rep.errors.append(f"{self.where}: no receive found")
            return
        self.alphabet = self._parent_alphabet()
        self.rep.need("R1", len(self.alphabet), 2, f"request kinds for {self.where}")
        wk = self._worker_kinds()
        self.summary: Dict[str, List[Alt]] = {}
        self.prefetch = self._prefetch_names()
        for k in sorted(self.alphabet | wk):
            self.summary[k] = self._summarise(k)
        unk = self._summarise(UNKNOWN)
        self.rep.check(
            "R4", not [a for a in unk if not a.ends], self.where, "unknown-kind", "a request of unknown kind is ignored silently", unk[0].line if unk else 0
        )
        self._consistent()
        self._eof()
        self._closed()
        self._freed()
        self._parent()
        self._round_robin()

    # --- worker

    def _args(self):
        """worker parameter -> term in the parent"""
        self.param_term: Dict[str, List[tuple]] = {}
        a = self.s.call.kwargs.get("args")
        pn = self.w.param_names()
        if self.w.cls is not None and not self.w.is_static:
            pn = pn[1:]
        for t in alts(a) if a is not None else []:
            if t[0] in ("tup", "list"):
                for n, x in zip(pn, t[1]):
                    self.param_term.setdefault(n, []).extend(alts(x))
        kw = self.s.call.kwargs.get("kwargs")
        for t in alts(kw) if kw is not None else []:
            if t[0] == "dict":
                for k, x in t[1]:
                    if k[0] == "c":
                        self.param_term.setdefault(k[1], []).extend(alts(x))
        self.index_params = {n for n, ts in self.param_term.items() if ts and all(self._is_index(x) for x in ts)}
        self.attr_params = {}
        for n, ts in self.param_term.items():
            if len(set(ts)) == 1 and ts[0][0] == "attr" and ts[0][1][0] == "self":
                self.attr_params[n] = ts[0][2]

    @staticmethod
    def _is_index(x):
        return x[0] == "idx" or x[0] == "elem" and x[1][0] == "call" and x[1][1] == ("ext", "range") and len(x[1][2]) == 1

    def _is_conn(self, t):
        return t is not None and all(x[0] == "param" and x[2] == self.s.conn_param for x in alts(t))

    def _worker_nodes(self):
        self.recvs, self.sends, self.side_s, self.side_r = {}, {}, {}, {}
        for nk, c in self.wfl.calls.items():
            if c.recv is None or c.name not in ("send", "recv"):
                continue
            if self._is_conn(c.recv):
                (self.sends if c.name == "send" else self.recvs)[nk] = c
            else:
                (self.side_s if c.name == "send" else self.side_r)[nk] = c
        self.side_iters = set()
        for nk in self.wfl.env:
            if nk[1].kind == "iter":
                t = self.wfl.term(nk, nk[1].d["iter"])
                sub = set(subterms(t))
                if any(x[0] == "elem" and x[1] in sub for c in list(self.side_s.values()) + list(self.side_r.values()) for x in subterms(c.recv)):
                    self.side_iters.add(nk[1].id)
        self.msg_terms = {self.wfl._call_value(c, self.wfl.call_key(c)) for c in self.recvs.values()}

    def _is_msg(self, t):
        return t[0] in ("item", "sub") and t[1] in self.msg_terms and t[2] in (0, ("c", 0))

    def _is_args(self, t):
        return t[0] in ("item", "sub") and t[1] in self.msg_terms and t[2] in (1, ("c", 1))

    def _kind_cmp(self, atom):
        """(consts, is_eq) if the atom compares the request kind"""
        if atom[0] != "cmp":
            return None
        op, a, b = atom[1:4]
        if op in ("Eq", "Is"):
            for x, y in ((a, b), (b, a)):
                if x[0] == "c" and any(self._is_msg(z) for z in alts(y)):
                    return {x[1]}
        if op == "In" and any(self._is_msg(z) for z in alts(a)):
            if b[0] in ("tup", "list", "set"):
                cs = {y[1] for y in b[1] if y[0] == "c"}
                if len(cs) == len(b[1]):
                    return cs
            if b[0] == "c" and isinstance(b[1], (tuple, frozenset)):
                return set(b[1])
        return None

    def _worker_kinds(self):
        res = set()
        for nk in self.wfl.env:
            if nk[1].kind == "branch":
                t, _ = self.wfl.cond_term(nk)
                for x in subterms(t):
                    if x and x[0] == "cmp":
                        r = self._kind_cmp(x)
                        if r:
                            res |= {k for k in r if isinstance(k, str)}
        return res

    def _prefetch_names(self):
        """state of the worker which is filled by its nested functions"""
        res = set()
        own = {a.arg for a in ast.walk(self.w.node) if isinstance(a, ast.arg)}
        for n in ast.walk(self.w.node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not self.w.node:
                loc = {x.arg for x in ast.walk(n.args) if isinstance(x, ast.arg)}
                nl = {y for x in ast.walk(n) if isinstance(x, ast.Nonlocal) for y in x.names}
                loc |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - nl
                for x in ast.walk(n):
                    if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id in nl:
                        res.add(x.target.id)
                    if (
                        isinstance(x, ast.Call)
                        and isinstance(x.func, ast.Attribute)
                        and x.func.attr in ("append", "appendleft", "extend", "add")
                        and isinstance(x.func.value, ast.Name)
                        and x.func.value.id not in loc
                    ):
                        res.add(x.func.value.id)
        return res - own

    def _resets_of(self, g: Func) -> Set[str]:
        res = set()
        for x in ast.walk(g.node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    for t1, v1 in _pairs(t, x.value):
                        if isinstance(t1, ast.Name) and _is_empty(v1):
                            res.add(t1.id)
                        if isinstance(t1, ast.Subscript) and isinstance(t1.value, ast.Name) and isinstance(t1.slice, ast.Slice):
                            res.add(t1.value.id)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "clear" and isinstance(x.func.value, ast.Name):
                res.add(x.func.value.id)
            elif isinstance(x, ast.Delete):
                for t in x.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(t.slice, ast.Slice):
                        res.add(t.value.id)
        return res

    def _summarise(self, kind) -> List[Alt]:
        fl = self.wfl
        out: Dict[tuple, Alt] = {}
        reset_bad = []

        def hook(nk, st, atom, val):
            r = self._kind_cmp(atom)
            if r is not None:
                return st if (kind in r) == val else None
            if atom[0] == "cmp" and atom[1] == "Eq":
                for x, y in ((atom[2], atom[3]), (atom[3], atom[2])):
                    if x[0] == "c" and y[0] == "param" and y[2] in self.param_term:
                        f = ((y[2], x[1]), val)
                        for (pc, v) in st.facts:
                            if pc == f[0] and v != val:
                                return None
                            if pc[0] == y[2] and v and val and pc[1] != x[1]:
                                return None
                        return st._replace(facts=st.facts | {f})
            return st

        def step(nk, st, lab):
            n = nk[1]
            if nk in self.recvs:
                emit(nk, st, False)
                return None
            c = fl.calls.get(nk) if n.kind == "call" else None
            if lab.startswith("exc") or n.kind == "raise":
                return st._replace(exc=True)
            if n.kind == "iter" and n.id in self.side_iters:
                if lab == "done":
                    if n.id not in st.it:
                        return None
                else:
                    return st._replace(it=st.it | {n.id})
            # reads of request arguments
            req, own, forb = st.req, st.own, st.forb
            for e in _exprs(n):
                t = fl.term(nk, e)
                for x in subterms(t):
                    if x[0] == "sub" and self._is_args(x[1]) and x[2][0] == "c" and x[2][1] not in own:
                        req = req | {x[2][1]}
            if n.kind == "assign" and n.d["target"][0] == "sub" and self._is_args(fl.term(nk, n.d["target"][1])):
                k = fl.term(nk, n.d["target"][2])
                if k[0] == "c":
                    own = own | {k[1]}
            if c is not None:
                if c.recv is not None and self._is_args(c.recv):
                    if c.name == "pop" and c.args and c.args[0][0] == "c":
                        if len(c.args) == 1 and c.args[0][1] not in own:
                            req = req | {c.args[0][1]}
                        own = own | {c.args[0][1]}
                    elif c.name == "setdefault" and c.args and c.args[0][0] == "c":
                        own = own | {c.args[0][1]}
                ss = c.kwargs.get("**")
                if ss is not None and self._is_args(ss):
                    forb = forb | ({k for k in c.kwargs if k != "**"} - own)
            st = st._replace(req=req, own=own, forb=forb)
            if nk in self.sends:
                a = c.args[0] if c.args else ("c", None)
                rs = []
                for x in alts(a):
                    k = x[1][0][1] if x[0] in ("tup", "list") and x[1] and x[1][0][0] == "c" else None
                    if len(st.replies) < MAXQ:
                        rs.append(st._replace(replies=st.replies + (k,)))
                return rs
            if nk in self.side_s:
                return st._replace(ss=st.ss | {n.id})
            if nk in self.side_r:
                return st._replace(sr=st.sr | {n.id})
            if c is not None and c.name == "init_seq_order":
                st = st._replace(ini=True)
            if c is not None and not (nk in fl.inlined):
                for g in c.funcs():
                    if g.parent_func is self.w if hasattr(g, "parent_func") else g.qualname.startswith(self.w.qualname + "."):
                        rs = self._resets_of(g) & self.prefetch
                        if rs:
                            st = st._replace(res=st.res | rs)
                if c.name == "clear" and n.d["func"][0] == "a" and n.d["func"][1][0] == "n":
                    st = st._replace(res=st.res | {n.d["func"][1][1]})
            if n.kind == "assign":
                tg = n.d["target"]
                if tg[0] == "n" and not n.d.get("aug") and (n.d["value"][0] in ("c", "new", "list", "t", "call") or tg[1] in self.prefetch and n.d["value"][0] != "b"):
                    st = st._replace(res=st.res | {tg[1]})
                if tg[0] == "sub" and tg[1][0] == "n" and tg[2][0] == "slice":
                    st = st._replace(res=st.res | {tg[1][1]})
            if n.kind == "del":
                for e in _exprs(n):
                    if e[0] == "sub" and e[1][0] == "n" and e[2][0] == "slice":
                        st = st._replace(res=st.res | {e[1][1]})
            return st

        def emit(nk, st, ends):
            if ends and st.exc:
                return
            a = Alt(st.facts, st.replies, len(st.ss), len(st.sr), ends, st.req, st.forb, st.exc, nk[1].line)
            out.setdefault(a[:-1], a)
            if st.ini and not ends and not st.exc and self.prefetch - st.res:
                reset_bad.append(sorted(self.prefetch - st.res))

        def end(nk, st, how):
            if how == "exit":
                emit(nk, st, True)

        n = 0
        for rk in self.recvs:
            for nk2, lab in fl.successors(rk):
                if lab.startswith("exc"):
                    continue
                st0 = WS(frozenset(), (), frozenset(), frozenset(), frozenset(), frozenset(), frozenset(), False, False, frozenset(), frozenset())
                n += fl.simulate(st0, step, on_end=end, cond_hook=hook, start=nk2)
        self.rep.flow(fl, n)
        if self.prefetch and kind != UNKNOWN:
            if reset_bad:
                self.rep.bad("R7", self.where, f"{kind}-reset", f"after a new sequence order by {kind!r}, the worker keeps the old {', '.join(reset_bad[0])}", self.w.node.lineno)
            elif kind in self.alphabet:
                self.rep.ok("R7", f"{self.where} {kind}")
        return list(out.values())

    def _consistent(self):
        for k, al in self.summary.items():
            if k not in self.alphabet:
                continue
            groups: Dict[FrozenSet, Set[tuple]] = {}
            for a in al:
                groups.setdefault(a.facts, set()).add(a.replies)
            if any(None in a.replies for a in al):
                continue
            for fa, rs in groups.items():
                self.rep.check("R3", len(rs) == 1, self.where, f"{k}-answers", f"request {k!r} is answered differently depending on the path: {sorted(rs)}", al[0].line)

    def _eof(self):
        """a closed pipe must end the worker"""
        fl = self.wfl
        bad = []

        def step(nk, st, lab):
            if nk in self.recvs and st != "start":
                bad.append(nk)
                return None
            n = nk[1]
            if st == "start":
                return "thrown" if lab.startswith("exc") else None
            if n.kind == "dispatch" and st == "thrown":
                m = _match(nk, fl)
                return st if lab == m or (m == "exc" and lab == "exc") else None
            if n.kind == "except":
                return "caught"
            if n.kind == "raise":
                return "thrown"
            if st == "caught" and lab.startswith("exc"):
                return "thrown"
            return st

        for rk in self.recvs:
            fl.simulate("start", step, start=rk)
            self.rep.check("R5", not bad, self.where, "eof", "when the parent has closed the pipe, the worker goes back to its loop instead of ending", rk[1].line)

    def _closed(self):
        """the parent must close its copy of the worker's end"""
        s = self.s
        fl = s.fl
        ends = self.param_term.get(s.conn_param, [])
        roots = {x[1] if x[0] in ("sub", "elem") else x for x in ends}
        for x in list(roots):
            if x[0] == "item" and x[1][0] == "elem":  # enumerate/zip
                roots |= {y for y in subterms(x) if y[0] == "new"}
        if not ends or not roots:
            return
        closes = set()
        for nk, c in fl.calls.items():
            if c.name == "close" and c.recv is not None:
                for x in alts(c.recv):
                    r = x[1] if x[0] in ("sub", "elem") else x
                    if x in ends or r in roots or any(y in roots for y in subterms(x)):
                        closes.add(nk)
        starts = {nk for nk, c in fl.calls.items() if c.name == "start" and not c.args}
        bad = []

        def step(nk, st, lab):
            started, closed, it = st
            if lab.startswith("exc"):
                return None
            if nk in starts:
                started, closed = True, False
            if nk in closes and started:
                closed = True
            if nk[1].kind == "iter":
                if lab == "iter":
                    it = it | {nk[1].id}
                elif lab == "done" and nk[1].id not in it:
                    return None
            return (started, closed, it)

        def end(nk, st, how):
            if how == "exit" and st[0] and not st[1]:
                bad.append(nk)

        fl.simulate((False, False, frozenset()), step, on_end=end)
        if starts:
            self.rep.check("R5", not bad, s.func.where, "child-end", "the parent keeps its copy of the worker's end of the pipe open: it would wait forever for a worker which died", s.call.line)

    def _freed(self):
        fl = self.wfl
        root = fl.root
        ir = get_ir(self.w)
        nullable = set()
        consts = set()
        for n in ir.nodes:
            if n.kind == "assign" and n.d["target"][0] == "n":
                v = n.d["value"]
                if v == ("c", None):
                    nullable.add(n.d["target"][1])
                if v[0] == "c" and (v[1] is None or isinstance(v[1], bool)):
                    consts.add(n.d["target"][1])
        derefs = self._nested_derefs(nullable)
        data_kinds = {k for k, fs in self.senders.items() if fs and all(f.name in DATA_METHODS for f in fs)}
        kinds = sorted(self.alphabet)
        ini = {k for k in kinds if self._handler_calls(k, "init_seq_order")}
        fin = {k for k in kinds if self._handler_calls(k, "finish_epoch")}
        bad: Dict[str, tuple] = {}

        # state: kind, ordered, vals (frozenset of (name, v)), lastnull
        def val_of(cond, vals):
            """truth of IR cond if known -> (truth, name)"""
            pol = True
            while cond[:2] == ("u", "Not"):
                cond, pol = cond[2], not pol
            d = dict(vals)
            if cond[0] == "n" and cond[1] in d:
                v = d[cond[1]]
                if v in ("none", "false"):
                    return (not pol), cond[1]
                if v in ("nn", "true"):
                    return (None if v == "nn" and cond[1] not in nullable else pol), cond[1]
            if cond[0] == "cmp" and cond[1] in ("Is", "IsNot", "Eq", "NotEq"):
                for x, y in ((cond[2], cond[3]), (cond[3], cond[2])):
                    if x == ("c", None) and y[0] == "n" and y[1] in d:
                        t = d[y[1]] == "none"
                        if cond[1] in ("IsNot", "NotEq"):
                            t = not t
                        return t == pol, y[1]
            return None, None

        def report(nk, st, name, why):
            bad.setdefault(f"{st[0]}:{name}", (nk, st[0], name, why))

        def hook(nk, st, atom, val):
            r = self._kind_cmp(atom)
            if r is not None:
                return st if (st[0] in r) == val else None
            return st

        def step(nk, st, lab):
            kind, ordered, vals, ln = st
            n = nk[1]
            if lab.startswith("exc") and n.kind != "raise":
                return None
            if nk in self.recvs:
                if kind in ini:
                    ordered = True
                if kind in fin:
                    ordered = False
                return [(k, ordered, vals, None) for k in kinds if k not in data_kinds or ordered]
            if nk[0] is not root:
                return st
            if n.kind == "raise":
                if n.d.get("is_assert") and ln:
                    report(nk, st, ln, "assertion fails")
                return None
            d = dict(vals)
            nulls = {x for x in nullable if d.get(x) == "none"}
            if nulls:
                for e in _exprs(n):
                    for x in _iter_ir(e):
                        if x[0] in ("a", "sub") and isinstance(x[1], tuple) and x[1][0] == "n" and x[1][1] in nulls:
                            report(nk, st, x[1][1], "used")
                            return None
                if n.kind == "call":
                    c = fl.calls.get(nk)
                    for g in c.funcs() if c is not None else []:
                        asg = _nonlocal_assigned(g.node)
                        if asg & nulls:
                            vals = frozenset((a, b) for a, b in vals if a not in asg)
                        for x in derefs.get(g.node, set()) & nulls:
                            report(nk, st, x, f"used in {g.name}")
                            return None
            if n.kind == "branch":
                t, name = val_of(n.d["cond"], vals)
                if t is not None and t != (lab == "T"):
                    return None
                ln = name if name in nulls else None
                if name is None:
                    cond, pol = n.d["cond"], lab == "T"
                    while cond[:2] == ("u", "Not"):
                        cond, pol = cond[2], not pol
                    if cond[0] == "n" and cond[1] in consts and cond[1] not in nullable:
                        vals = vals | {(cond[1], "true" if pol else "false")}
            elif n.kind == "assign" and n.d["target"][0] == "n" and n.d["target"][1] in consts:
                x, v = n.d["target"][1], n.d["value"]
                nv = "none" if v == ("c", None) else "true" if v == ("c", True) else "false" if v == ("c", False) else "nn" if x in nullable else None
                vals = frozenset((a, b) for a, b in vals if a != x)
                if nv:
                    vals = vals | {(x, nv)}
                ln = None
            elif n.kind != "nop":
                ln = None
            return (kind, ordered, vals, ln)

        n = fl.simulate(("<start>", False, frozenset(), None), step, cond_hook=hook)
        self.rep.flow(fl, n)
        for key, (nk, kind, name, why) in sorted(bad.items()):
            self.rep.bad("R6", self.where, f"freed-{key}", f"some order of requests makes the worker fail at {kind!r}: {name} is None there ({why})", nk[1].line)
        if not bad:
            self.rep.ok("R6", f"{self.where}: {len(kinds)} request kinds in any order, nullable {sorted(nullable)}")

    def _handler_calls(self, kind, name):
        """does the handler of this kind call .name()?"""
        fl = self.wfl
        found = []

        def hook(nk, st, atom, val):
            r = self._kind_cmp(atom)
            return st if r is None or (kind in r) == val else None

        def step(nk, st, lab):
            if nk in self.recvs or lab.startswith("exc"):
                return None
            c = fl.calls.get(nk) if nk[1].kind == "call" else None
            if c is not None and c.name == name:
                found.append(nk)
            return st

        for rk in self.recvs:
            for nk2, lab in fl.successors(rk):
                if not lab.startswith("exc"):
                    fl.simulate(0, step, cond_hook=hook, start=nk2, correlate=False)
        return bool(found)

    def _nested_derefs(self, nullable):
        fns = {}
        for n in ast.walk(self.w.node):
            if isinstance(n, ast.FunctionDef) and n is not self.w.node:
                loc = {x.arg for x in ast.walk(n.args) if isinstance(x, ast.arg)}
                d = {
                    x.value.id
                    for x in ast.walk(n)
                    if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.value, ast.Name) and x.value.id in nullable - loc
                }
                tested = {
                    x.id
                    for y in ast.walk(n)
                    if isinstance(y, (ast.If, ast.IfExp, ast.While))
                    for x in ast.walk(y.test)
                    if isinstance(x, ast.Name)
                    and isinstance(y.test, (ast.Name, ast.UnaryOp, ast.Compare, ast.BoolOp))
                    and not any(isinstance(z, ast.Attribute) and z.value is x for z in ast.walk(y.test))
                }
                calls = {x.func.id for x in ast.walk(n) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)}
                fns[n] = (n.name, d - tested, calls)
        by = {v[0]: k for k, v in fns.items()}
        res = {k: set(v[1]) for k, v in fns.items()}
        for _ in range(4):
            for k, v in fns.items():
                for c in v[2]:
                    if c in by:
                        res[k] |= res[by[c]]
        return res

    # --- parent

    def _parent_funcs(self) -> List[Func]:
        s = self.s
        if s.cls is None:
            return [s.func]
        return [f for f in s.cls.methods.values() if f is not self.w]

    def _parent_alphabet(self) -> Set[str]:
        res = set()
        self.senders: Dict[str, List[Func]] = {}
        for f in self._parent_funcs():
            if "send" not in names_used(f):
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "send" and n.args:
                    a = n.args[0]
                    if isinstance(a, (ast.Tuple, ast.List)) and a.elts and isinstance(a.elts[0], ast.Constant):
                        res.add(a.elts[0].value)
                        self.senders.setdefault(a.elts[0].value, []).append(f)
        # helper methods: kinds given as arguments
        pfl = self._flows()
        for m, fl in pfl.items():
            for nk, c in fl.calls.items():
                if c.name == "send" and c.recv is not None and c.args:
                    for x in alts(c.args[0]):
                        if x[0] in ("tup", "list") and x[1] and x[1][0][0] == "c" and isinstance(x[1][0][1], str):
                            res.add(x[1][0][1])
                            if m not in self.senders.setdefault(x[1][0][1], []):
                                self.senders[x[1][0][1]].append(m)
        return res

    def _flows(self) -> Dict[Func, Flow]:
        if hasattr(self, "_pfl"):
            return self._pfl
        s = self.s
        p = self.p
        self._pfl = {}
        if s.cls is None:
            return self._pfl
        r = relevance_by_names(p, {"send", "recv"}, 5)
        meths = [f for f in self._parent_funcs()]
        rel = {f for f in meths if r(f)}
        referenced = set()
        for f in meths:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    referenced.add(n.attr)
        inl = lambda g: g in rel or (g.module is s.func.module and g is not self.w and not g.is_generator and (g.cls is None or g.cls is s.cls) and "send" in names_used(g) | {""} | ({"send"} if "recv" in names_used(g) else set()))
        for f in meths:
            if f.name == "__init__" or (f in rel and (not f.name.startswith("_") or f.name.startswith("__") or f.name not in referenced)):
                self._pfl[f] = Flow(f, cls=s.cls, inline=inl, max_depth=4)
        return self._pfl

    def _first_attrs(self):
        """attributes which hold the connection to the first worker"""
        res = set()
        for f in self._parent_funcs():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) or isinstance(n, ast.AnnAssign) and n.value is not None:
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(t, ast.Attribute) and isinstance(n.value, ast.Subscript) and isinstance(n.value.slice, ast.Constant) and n.value.slice.value == 0:
                            res.add(t.attr)
        return res

    def _group(self, t) -> Optional[str]:
        gs = {self._group1(x) for x in alts(t)}
        return gs.pop() if len(gs) == 1 else None

    def _group1(self, x):
        if x[0] == "sub":
            i = x[2]
            if i == ("c", 0):
                return "first"
            if i[0] == "c":
                return "rest"
            if i[0] == "slice":
                return None
            if i[0] == "idx":
                return "all"
            if i[0] == "elem" and i[1][0] == "call" and i[1][1] == ("ext", "range"):
                return self._coll(i[1])
            return "one"
        if x[0] == "item" and x[1][0] == "elem":
            it = x[1][1]
            if it[0] == "call" and it[1] == ("ext", "enumerate") and x[2] == 1:
                return self._coll(it[2][0])
            if it[0] == "call" and it[1] == ("ext", "zip"):
                return self._coll(it[2][x[2]]) if isinstance(x[2], int) and x[2] < len(it[2]) else "all"
        if x[0] == "elem":
            return self._coll(x[1])
        if x[0] == "item" and x[1][0] == "call":
            return "first"
        if x[0] == "attr":
            return "first"
        return None

    def _coll(self, c):
        gs = set()
        for x in alts(c):
            if x[0] == "sub" and x[2][0] == "slice":
                lo, hi, st = x[2][1:4]
                if lo in (("c", 1),) and hi == ("c", None):
                    gs.add("rest")
                elif lo in (("c", None), ("c", 0)) and hi == ("c", None):
                    gs.add("all")
                elif lo in (("c", None), ("c", 0)) and hi == ("c", 1):
                    gs.add("first")
                else:
                    gs.add(None)
            elif x[0] == "call" and x[1] == ("ext", "range"):
                if len(x[2]) == 1 or x[2][0] == ("c", 0):
                    gs.add("all")
                elif x[2][0][0] == "c":
                    gs.add("rest")
                else:
                    gs.add(None)
            elif x[0] == "call" and x[1] == ("ext", "zip") and x[2]:
                gs.add(self._coll(x[2][0]))
            elif x[0] == "call" and x[1] in (("ext", "enumerate"), ("ext", "reversed"), ("ext", "list"), ("ext", "tuple")) and x[2]:
                gs.add(self._coll(x[2][0]))
            else:
                gs.add("all")
        return gs.pop() if len(gs) == 1 else None

    def _parent(self):
        flows = self._flows()
        if not flows:
            return
        multi = bool(self.index_params)
        self.workers = (0, 1) if multi else (0,)
        self.viol: Dict[tuple, tuple] = {}
        ctor = next((f for f in flows if f.name == "__init__"), None)
        init = PS(((), ()), 0, *[frozenset()] * 9, False)
        states = set()
        if ctor is not None:
            states |= self._run(ctor, flows[ctor], init)
        else:
            states.add(init)
        todo = list(states)
        seen = set(states)
        n = 0
        t0 = time.time()
        while todo and n < 3000 and time.time() - t0 < 120:
            st = todo.pop()
            for f, fl in flows.items():
                if f is ctor:
                    continue
                n += 1
                for s2 in self._run(f, fl, st):
                    if s2 not in seen:
                        seen.add(s2)
                        if f.name != "__del__":
                            todo.append(s2)
        for f, fl in flows.items():
            self.rep.flow(fl, 0)
        self.rep.paths += n
        for (rule, where, con), (msg, line, wit) in sorted(self.viol.items()):
            self.rep.bad(rule, where, con, msg, line, wit)
        for f in flows:
            self.rep.ok("R2", f"{f.where}: from {len(seen)} abstract states")
        if not any(k[0] == "R8" for k in self.viol):
            self.rep.ok("R8", f"{self.s.cls.full if hasattr(self.s.cls, 'full') else self.s.cls.name}")
        for k in sorted(self.alphabet):
            if not any(v[0] == "R1" and k in v[2] for v in self.viol):
                self.rep.ok("R1", f"{self.where}: {k}")

    def _v(self, rule, where, con, msg, line, fl):
        self.viol.setdefault((rule, where, con), (msg, line, fl.witness()))

    def _run(self, f: Func, fl: Flow, st0: PS) -> Set[PS]:
        ends = set()
        selfattrs = self._attr_names()

        def attr_of(t):
            return {x[2] for x in alts(t) if x[0] == "attr" and x[1][0] == "self"}

        def conn_attrs(t):
            """attributes from which this connection is read"""
            return {x[2] for x in subterms(t) if x and x[0] == "attr" and x[1][0] == "self"} - {
                x[2] for i in subterms(t) if i and i[0] == "sub" for x in subterms(i[2]) if x and x[0] == "attr"
            }

        def get(fs, n):
            for a, b in fs:
                if a == n:
                    return b
            return None

        def hook(nk, st: PS, atom, val):
            # test of an attribute (value at entry of the method)
            t = atom
            truth = val
            isnone = None
            if t[0] == "attr" and t[1][0] == "self":
                name = t[2]
                cur = get(st.entry, name)
                if cur in ("none", "false"):
                    return None if truth else st
                if cur == "set":
                    return st if truth else None
                if cur is None and name in selfattrs and truth:
                    return learn(st, name, "set")
                return st
            if t[0] == "cmp" and t[1] in ("Is", "Eq"):
                for x, y in ((t[2], t[3]), (t[3], t[2])):
                    if x == ("c", None) and y[0] == "attr" and y[1][0] == "self":
                        cur = get(st.entry, y[2])
                        if cur == "none":
                            return st if val else None
                        if cur in ("set", "false"):
                            return None if val else st
                        if y[2] in selfattrs:
                            return learn(st, y[2], "none" if val else "set")
                        return st
                    if x == ("c", None) and not val:
                        return st._replace(nn=st.nn | {y})
                    if x[0] == "c" and y[0] == "attr" and y[1][0] == "self" and y[2] in self.attr_params.values():
                        return fact(st, y[2], x[1], val)
                    if x[0] == "c" and y[0] in ("item", "sub") and y[2] in (0, ("c", 0)):
                        k = get(st.last, y[1])
                        if k is None:
                            return st
                        if (k == x[1]) != val:
                            if val:
                                self._v("R2", nk[0].func.where, f"expects-{x[1]}", f"the parent expects {x[1]!r} here, but the worker sends {k!r}", nk[1].line, fl)
                            return None
                        return st
                    if x == ("c", 0) and y[0] in ("idx", "elem"):
                        w = get(st.one, ("elem", y[1]))
                        if w is not None and (w == 0) != val:
                            return None
            if t[0] == "cmp" and t[1] == "Lt" and t[2] == ("c", 0) and t[3][0] in ("idx", "elem"):
                w = get(st.one, ("elem", t[3][1]))
                if w is not None and (w > 0) != val:
                    return None
            if t[0] == "cmp" and t[1] == "Lt" and t[3] == ("c", 1) and t[2][0] in ("idx", "elem"):
                w = get(st.one, ("elem", t[2][1]))
                if w is not None and (w == 0) != val:
                    return None
            return st

        def learn(st, name, v):
            en = frozenset((a, b) for a, b in st.entry if a != name) | {(name, v)}
            at = st.attrs
            if name not in st.assigned:
                at = frozenset((a, b) for a, b in at if a != name) | {(name, v)}
            return st._replace(entry=en, attrs=at)

        def fact(st, name, const, val):
            for (n, c), v in st.pf:
                if n == name:
                    if c == const and v != val:
                        return None
                    if v and val and c != const:
                        return None
                    if v and not val and c == const:
                        return None
            return st._replace(pf=st.pf | {((name, const), val)})

        def targets(st: PS, c, nk):
            """list of (state, workers)"""
            if len(self.workers) == 1:
                return [(st, (0,))]
            for y in subterms(c.recv):
                if y and y[0] in ("elem", "idx"):
                    w = get(st.one, ("elem", y[1]))
                    if w is not None:
                        return [(st, (w,))]
            g = self._group(c.recv)
            if g == "first":
                return [(st, (0,))]
            if g == "rest":
                return [(st, (1,))]
            if g == "all":
                return [(st, (0, 1))]
            if g == "one":
                w = get(st.one, c.recv)
                if w is not None:
                    return [(st, (w,))]
                return [(st._replace(one=st.one | {(c.recv, w)}), (w,)) for w in self.workers]
            return []

        def step(nk, st: PS, lab):
            n = nk[1]
            if n.kind == "iter":
                t = fl.term(nk, n.d["iter"])
                if t[0] == "call" and t[1] == ("ext", "enumerate") and t[2]:
                    t = t[2][0]
                if not self._iter_conns(t):
                    return st
                key = (n.id, id(nk[0]))
                ws = {"first": (0,), "rest": (1,)}.get(self._coll(t), (0, 1)) if len(self.workers) == 2 else (0,)
                had = {w for k, w in st.it if k == key}
                if lab == "iter":
                    for a in conn_attrs(t):
                        if get(st.attrs, a) == "none" and any(x[0] == "attr" for x in alts(t)):
                            self._v("R8", nk[0].func.where, f"unstarted-{a}", f"{f.name}() uses {a} although the workers may not be started yet", n.line, fl)
                            return None
                    todo = [w for w in ws if w not in had]
                    if not todo:
                        return None
                    w = todo[0]
                    one = frozenset(x for x in st.one if x[0] != ("elem", t)) | {(("elem", t), w)}
                    return st._replace(it=st.it | {(key, w)}, one=one)
                if lab == "done":
                    if set(ws) - had:
                        return None
                    return st._replace(
                        it=frozenset(x for x in st.it if x[0] != key), one=frozenset(x for x in st.one if x[0] != ("elem", t))
                    )
                return st
            if n.kind == "assign" and n.d["target"][0] == "a" and lab == "":
                base = fl.term(nk, n.d["target"][1])
                if base[0] == "self" and n.d["target"][2] in selfattrs:
                    name = n.d["target"][2]
                    v = fl.term(nk, n.d["value"])
                    val = _absval(v)
                    at = frozenset((a, b) for a, b in st.attrs if a != name)
                    if val:
                        at = at | {(name, val)}
                    return st._replace(attrs=at, assigned=st.assigned | {name})
                return st
            c = fl.calls.get(nk) if n.kind == "call" else None
            if c is not None and c.recv is not None and c.name in ("send", "recv") and nk not in fl.inlined:
                if self._group(c.recv) is None:
                    return st
                if lab.startswith("exc"):
                    return st._replace(broken=True)
                for a in conn_attrs(c.recv):
                    if get(st.attrs, a) == "none" and f.name in DATA_METHODS:
                        return None  # only called after init_seq_order
                    if get(st.attrs, a) == "none":
                        self._v("R8", nk[0].func.where, f"unstarted-{a}", f"{f.name}() uses {a} although the workers may not be started yet", n.line, fl)
                        return None
                return do_send(nk, st, c) if c.name == "send" else do_recv(nk, st, c)
            if lab.startswith("exc"):
                return st._replace(broken=True)
            # optional fields
            self._optional(fl, nk, st, f)
            return st

        def do_send(nk, st, c):
            n = nk[1]
            where = nk[0].func.where
            out = []
            for s1, todo in targets(st, c, nk):
                cur = [s1]
                a = c.args[0] if c.args else ("c", None)
                for w in todo:
                    nxt = []
                    for s2 in cur:
                        for x in alts(a):
                            if not (x[0] in ("tup", "list") and x[1] and x[1][0][0] == "c"):
                                nxt.append(s2._replace(broken=True))
                                continue
                            kind = x[1][0][1]
                            keys = self._keys(fl, x[1][1]) if len(x[1]) > 1 else set()
                            nxt += send1(nk, s2, w, kind, keys, where, n)
                    cur = nxt
                out += cur
            return out

        def send1(nk, st, w, kind, keys, where, n):
            if w in st.dead:
                return []
            al = self.summary.get(kind)
            good = [a for a in al or [] if self._fits(a, w, st)]
            if not good:
                self._v("R1", where, f"send-{kind}", f"the worker does not handle the request {kind!r} sent here", n.line, fl)
                return []
            res = []
            for a in good:
                if keys is not None and a.req - keys:
                    self._v("R1", where, f"args-{kind}", f"the worker reads {sorted(a.req - keys)} of the request {kind!r}, which is not sent", n.line, fl)
                if keys is not None and a.forb & keys:
                    self._v("R1", where, f"args2-{kind}", f"the worker sets {sorted(a.forb & keys)} itself for the request {kind!r}, and it is also sent", n.line, fl)
                s2 = st
                for (pn, cv), v in a.facts:
                    if pn in self.attr_params:
                        s2 = fact(s2, self.attr_params[pn], cv, v)
                        if s2 is None:
                            break
                if s2 is None:
                    continue
                q = list(s2.q)
                q[w] = q[w] + a.replies
                if len(q[w]) > MAXQ:
                    self._v("R2", where, f"unread-{kind}", f"answers to {kind!r} are never read", n.line, fl)
                    continue
                sh = s2.shard
                if len(self.workers) == 2:
                    if w == 0 and a.ss:
                        sh += 1
                    if w == 1 and a.sr:
                        sh -= 1
                res.append(s2._replace(q=tuple(q), shard=sh, dead=s2.dead | ({w} if a.ends else set())))
            return res

        def do_recv(nk, st, c):
            n = nk[1]
            where = nk[0].func.where
            term = fl._call_value(c, fl.call_key(c))
            out = []
            for s1, todo in targets(st, c, nk):
                kinds = set()
                q = list(s1.q)
                dead = False
                for w in todo:
                    if not q[w]:
                        if w in s1.dead:
                            dead = True
                            break
                        self._v("R2", where, "recv-hang", f"{f.name}() waits for an answer although no request is pending: hangs", n.line, fl)
                        dead = True
                        break
                    kinds.add(q[w][0])
                    q[w] = q[w][1:]
                if dead:
                    continue
                for k in kinds:
                    last = frozenset(x for x in s1.last if x[0] != term)
                    if k is not None:
                        last = last | {(term, k)}
                    nn = frozenset(x for x in s1.nn if not any(y == term for y in subterms(x)))
                    out.append(s1._replace(q=tuple(q), last=last, nn=nn))
            return out

        def end(nk, st: PS, how):
            if how != "exit" or st.broken:
                return
            if st.shard != 0:
                self._v("R2", f.where, "shard", f"after {f.name}(), some worker waits forever for its share of the sequences, or reads an old one" , f.node.lineno, fl)
                return
            e = frozenset()
            ends.add(PS(st.q, 0, st.dead, st.attrs, st.attrs, e, st.pf, e, e, e, e, False))

        fl.simulate(st0, step, on_end=end, cond_hook=hook)
        if fl.truncated:
            self.rep.errors.append(f"{f.where}: too many states")
        return ends

    def _fits(self, a: Alt, w, st):
        for (pn, cv), v in a.facts:
            if pn in self.index_params and isinstance(cv, int):
                if cv == 0 and (w == 0) != v:
                    return False
            elif pn in self.attr_params:
                for (n, c), v2 in st.pf:
                    if n == self.attr_params[pn] and ((c == cv and v != v2) or (c != cv and v and v2)):
                        return False
        return True

    def _keys(self, fl, t) -> Optional[Set[str]]:
        ks = None
        for x in alts(t):
            if x[0] == "dict":
                k1 = set()
                for k, _ in x[1]:
                    if k[0] != "c" or k[1] == "**":
                        return None
                    k1.add(k[1])
            elif x[0] == "new" and x[1] == "dict":
                k1 = set()
                for nk in fl.env:
                    n = nk[1]
                    if n.kind == "assign" and n.d["target"][0] == "sub" and x in alts(fl.term(nk, n.d["target"][1])):
                        return None
                    c = fl.calls.get(nk)
                    if c is not None and c.recv is not None and x in alts(c.recv):
                        return None
            else:
                return None
            if ks is not None and k1 != ks:
                return None
            ks = k1
        return ks

    def _attr_names(self):
        if not hasattr(self, "_an"):
            res = set()
            for fl in self._flows().values():
                for nk in fl.env:
                    n = nk[1]
                    if n.kind == "branch":
                        t, _ = fl.cond_term(nk)
                        res |= {x[2] for x in subterms(t) if x and x[0] == "attr" and x[1][0] == "self"}
                    c = fl.calls.get(nk)
                    if c is not None and c.recv is not None and c.name in ("send", "recv"):
                        res |= {x[2] for x in subterms(c.recv) if x and x[0] == "attr" and x[1][0] == "self"}
            # only those which are set to a constant somewhere
            cs = set()
            for f in self._parent_funcs():
                for n in ast.walk(f.node):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Constant) and (n.value.value is None or isinstance(n.value.value, bool)):
                        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                            if isinstance(t, ast.Attribute):
                                cs.add(t.attr)
            self._an = res & cs
        return self._an

    def _iter_conns(self, t):
        if not hasattr(self, "_ct"):
            self._ct = set()
            for fl in self._flows().values():
                for c in fl.calls.values():
                    if c.name in ("send", "recv") and c.recv is not None:
                        for x in subterms(c.recv):
                            if x and x[0] in ("elem", "idx"):
                                self._ct |= set(alts(x[1])) | {x[1]}
        return t in self._ct or any(x in self._ct for x in alts(t))

    def _optional(self, fl, nk, st, f):
        n = nk[1]
        c = fl.calls.get(nk) if n.kind == "call" else None
        if c is None or c.ext() not in ("max", "min", "float", "int", "round", "abs"):
            return
        for a in c.args:
            for x in alts(a):
                if x[0] == "attr" and x[1][0] in ("item", "sub") and x[1][1][0] == "call" and str(x[1][1][1][-1]) == "recv":
                    ann = self._field_optional(x[2])
                    if ann is None:
                        continue
                    if ann and x not in st.nn:
                        self.viol.setdefault(
                            ("R10", nk[0].func.where, f"optional-{x[2]}"),
                            (f"the field {x[2]} of an answer can be None, and is used in {c.ext()}() without a test", n.line, fl.witness()),
                        )
                    else:
                        self.rep.ok("R10") if ("R10", nk) not in self.__dict__.setdefault("_seen10", set()) else None
                        self._seen10.add(("R10", nk))

    def _field_optional(self, field) -> Optional[bool]:
        """is the field of the class of the answers declared as optional?"""
        for nk, c in self.wfl.calls.items():
            pass
        for n in ast.walk(self.w.node):
            if isinstance(n, ast.Call) and any(k.arg == field for k in n.keywords) and isinstance(n.func, ast.Name):
                cl = None
                r = self.p.resolve(self.w.module, n.func.id) if hasattr(self.p, "resolve") else None
                if isinstance(r, Class):
                    cl = r
                if cl is None:
                    for k in self.p.all_classes():
                        if k.name == n.func.id:
                            cl = k
                            break
                if cl is None:
                    return None
                ini = self.p.find_method(cl, "__init__")
                if ini is None:
                    return None
                a = ini.node.args
                for x in a.posonlyargs + a.args + a.kwonlyargs:
                    if x.arg == field:
                        s = ast.unparse(x.annotation) if x.annotation is not None else ""
                        if "Optional" in s or "None" in s:
                            return True
                        d = dict(zip([y.arg for y in a.args[len(a.args) - len(a.defaults):]], a.defaults))
                        d.update({y.arg: v for y, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
                        dv = d.get(field)
                        return isinstance(dv, ast.Constant) and dv.value is None
        return None

    def _round_robin(self):
        for f, fl in self._flows().items():
            for nk, c in fl.calls.items():
                if c.name != "send" or c.recv is None or self._group(c.recv) != "one":
                    continue
                mods = {x for x in subterms(c.recv) if x and x[0] == "b" and x[1] == "Mod"}
                divs = {x for a in c.args for x in subterms(a) if x and x[0] == "b" and x[1] == "FloorDiv"}
                if not mods and not divs:
                    continue
                ok = len(mods) == 1 and len(divs) == 1 and next(iter(mods))[2:] == next(iter(divs))[2:]
                self.rep.check("R9", ok, nk[0].func.where, "round-robin", "worker index and index within the worker do not belong to the same seq", c.line)


def _absval(v):
    if v == ("c", None):
        return "none"
    if v == ("c", False):
        return "false"
    if v == ("c", True):
        return "set"
    if v[0] in ("new", "list", "tup", "dict", "item", "sub", "call", "comp"):
        for x in subterms(v):
            if x and x[0] == "call" and str(x[1][-1]) == "recv":
                return None
        if v[0] in ("sub", "item") and not any(x and x[0] in ("new", "call") for x in subterms(v)):
            return None
        return "set"
    return None


def _pairs(t, v):
    if isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (ast.Tuple, ast.List)) and len(t.elts) == len(v.elts):
        for a, b in zip(t.elts, v.elts):
            yield from _pairs(a, b)
    else:
        yield t, v


def _nonlocal_assigned(node):
    nl = {y for x in ast.walk(node) if isinstance(x, ast.Nonlocal) for y in x.names}
    return nl & {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def _is_empty(v):
    return isinstance(v, ast.Constant) or isinstance(v, (ast.List, ast.Dict, ast.Tuple)) and not getattr(v, "elts", getattr(v, "keys", None)) or isinstance(v, ast.Call) and not v.args


def _iter_ir(e):
    if isinstance(e, tuple):
        if e and isinstance(e[0], str):
            yield e
        for x in e:
            if isinstance(x, tuple):
                yield from _iter_ir(x)


def _exprs(n):
    d = n.d
    if n.kind == "call":
        return [d["func"]] + list(d["args"]) + [v for _, v in d["kwargs"]]
    if n.kind == "assign":
        r = [d["value"]]
        if d["target"][0] == "sub":
            r += [d["target"][1], d["target"][2]] if d["target"][2][0] != "slice" else [d["target"][1]]
        return r
    if n.kind == "branch":
        return [d["cond"]]
    if n.kind == "iter":
        return [d["iter"]]
    if n.kind == "return" and d.get("value"):
        return [d["value"]]
    if n.kind == "compadd":
        return [v for v in d.values() if isinstance(v, tuple) and v and isinstance(v[0], str)]
    if n.kind == "del":
        return [v for v in d.values() if isinstance(v, tuple) and v and isinstance(v[0], str)]
    return []


def _match(nk, fl):
    """label of the handler which catches an EOFError here"""
    for nk2, lab in fl.successors(nk):
        if lab.startswith("exc:"):
            ts = set(lab[4:].replace("(", "").replace(")", "").split(","))
            if ts & {"EOFError", "Exception", "BaseException", "", "*"}:
                return lab
    return "exc"
