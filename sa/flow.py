"""
Inter-procedural flow analysis on the implicit (context-cloned) supergraph of an entry function.

1. :class:`Flow` computes, for each (frame, node), an abstract environment mapping variables / heap locations to
   canonical terms (value numbering by reaching definitions; joins become phi terms, loops widen).
   In-repo callees selected by a relevance predicate are analysed in place (helper extraction is transparent);
   other calls are opaque terms.
2. :meth:`Flow.simulate` runs a property automaton over all paths (property simulation), tracking the outcome of
   correlated branch conditions syntactically by canonical condition term (no solver).
"""

from __future__ import annotations
import ast
import heapq
from typing import Dict, List, Optional, Tuple, Any, Callable, Set, Iterable
from .project import Project, Func, Class, Module, get_project, dotted_name, local_vars, walk_own
from .ir import get_ir, live_in, Node, FuncIR, _uses

PHI_CAP = 6
DEPTH_CAP = 28
VISIT_CAP = 12


class Frame:
    __slots__ = ("func", "parent", "call", "depth", "cls", "closure", "id", "path", "lam")
    _ctr = 0

    def __init__(self, func: Func, parent: Optional["Frame"], call: Optional[Node], cls, closure=None):
        self.func = func
        self.parent = parent
        self.call = call
        self.depth = 0 if parent is None else parent.depth + 1
        self.cls = cls  # dynamic class of self
        self.closure = closure  # Frame of lexical parent
        self.lam = None
        self.path = () if parent is None else parent.path + (call.rpo,)
        Frame._ctr += 1
        self.id = Frame._ctr

    def __repr__(self):
        return f"<Frame {self.func.qualname}>"

    def stack_funcs(self):
        f = self
        while f is not None:
            yield f.func
            f = f.parent


NKey = Tuple[Frame, Node]


def tdepth(t, limit=40) -> int:
    if not isinstance(t, tuple) or limit <= 0:
        return 0
    m = 0
    for x in t:
        if isinstance(x, (tuple, frozenset)):
            if isinstance(x, frozenset):
                x = tuple(x)
            d = tdepth(x, limit - 1)
            if d > m:
                m = d
    return m + 1


_depth_cache: Dict[tuple, int] = {}


def cap(t: tuple) -> tuple:
    d = _depth_cache.get(t)
    if d is None:
        d = tdepth(t)
        _depth_cache[t] = d
    if d > DEPTH_CAP:
        r = _prune_cache.get(t)
        if r is None:
            r = _prune_cache[t] = _prune(t, DEPTH_CAP // 2)
        return r
    return t


_prune_cache: Dict[tuple, tuple] = {}


def _prune(t, budget):
    """replace what is nested too deeply by an opaque token (keeps the outer structure)"""
    if isinstance(t, frozenset):
        return frozenset(_prune(x, budget - 1) for x in t)
    if not isinstance(t, tuple):
        return t
    if budget <= 0 and t and isinstance(t[0], str) and t[0] not in ("c", "deep") and tdepth(t) > 2:
        return ("deep", hash(t))
    return tuple(_prune(x, budget - 1) for x in t)


def subterms(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, frozenset):
            stack.extend(x)
        elif isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            stack.extend(y for y in x if isinstance(y, (tuple, frozenset)))


def contains(t, sub) -> bool:
    return any(x == sub for x in subterms(t))


def phi(ts: Iterable[tuple]) -> tuple:
    s = set()
    for t in ts:
        if t[0] == "phi":
            s |= t[1]
        else:
            s.add(t)
    if len(s) == 1:
        return next(iter(s))
    return ("phi", frozenset(s))


def alts(t) -> List[tuple]:
    """alternatives of a (phi) term"""
    return sorted(t[1], key=repr) if t[0] == "phi" else [t]


def lin_parts(t) -> Tuple[Any, Dict[tuple, Any]]:
    if t[0] == "lin":
        return t[1], dict(t[2])
    if t[0] == "c" and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return t[1], {}
    return 0, {t: 1}


def mk_lin(c, d: Dict[tuple, Any]) -> tuple:
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return ("c", c)
    if c == 0 and len(d) == 1 and next(iter(d.values())) == 1:
        return next(iter(d))
    return ("lin", c, tuple(sorted(d.items(), key=repr)))


def cat_parts(t) -> List[tuple]:
    if t[0] == "cat":
        return list(t[1])
    return [t]


def mk_cat(parts: List[tuple]) -> tuple:
    res: List[tuple] = []
    for p in parts:
        for q in cat_parts(p):
            if q[0] == "c" and res and res[-1][0] == "c":
                res[-1] = ("c", str(res[-1][1]) + str(q[1]))
            else:
                if q[0] == "c":
                    q = ("c", str(q[1]))
                    if q[1] == "":
                        continue
                res.append(q)
    if len(res) == 1:
        return res[0]
    return ("cat", tuple(res))


def path_prefix(d, s) -> bool:
    """string term s = d + something"""
    a, b = cat_parts(d), cat_parts(s)
    if len(a) > len(b):
        return False
    for i, x in enumerate(a):
        if x == b[i]:
            continue
        if i == len(a) - 1 and x[0] == "c" and b[i][0] == "c" and str(b[i][1]).startswith(str(x[1])):
            continue
        return False
    return True


def is_strish(t):
    return (t[0] == "c" and isinstance(t[1], str)) or t[0] == "cat"


def mk_percent(fmt: str, arg: tuple) -> Optional[tuple]:
    import re

    args = list(arg[1]) if arg[0] == "tup" else [arg]
    parts: List[tuple] = []
    pos = 0
    i = 0
    for m in re.finditer(r"%(?:\((\w+)\))?([-#0 +]*\d*(?:\.\d+)?)([sdirfge%])", fmt):
        parts.append(("c", fmt[pos : m.start()]))
        pos = m.end()
        if m.group(3) == "%":
            parts.append(("c", "%"))
            continue
        if m.group(1) or i >= len(args):
            return None
        a = args[i]
        i += 1
        if m.group(2) or m.group(3) in "rfge":
            a = ("fmtspec", a, m.group(2) + m.group(3), "")
        parts.append(a)
    if i != len(args):
        return None
    parts.append(("c", fmt[pos:]))
    return mk_cat(parts)


def norm_cond(t) -> Tuple[tuple, bool]:
    """canonical (term, polarity)"""
    pol = True
    while True:
        if t[0] == "u" and t[1] == "Not":
            t = t[2]
            pol = not pol
            continue
        if t[0] == "call" and t[1] == ("ext", "bool") and len(t[2]) == 1:
            t = t[2][0]
            continue
        if t[0] == "cmp":
            op, a, b = t[1], t[2], t[3]
            if op == "IsNot":
                t = ("cmp", "Is", a, b)
                pol = not pol
            elif op == "NotEq":
                t = ("cmp", "Eq", a, b)
                pol = not pol
            elif op == "NotIn":
                t = ("cmp", "In", a, b)
                pol = not pol
            elif op == "Gt":
                t = ("cmp", "Lt", b, a)
            elif op == "GtE":
                t = ("cmp", "Lt", a, b)
                pol = not pol
            elif op == "LtE":
                t = ("cmp", "Lt", b, a)
                pol = not pol
            op, a, b = t[1], t[2], t[3]
            if op in ("Eq", "Is"):
                if op == "Is" and (a[0] == "c" and a[1] in (True, False) and isinstance(a[1], bool)):
                    t, pol = b, (pol if a[1] else not pol)
                    continue
                if op == "Is" and (b[0] == "c" and isinstance(b[1], bool)):
                    t, pol = a, (pol if b[1] else not pol)
                    continue
                if repr(b) < repr(a):
                    t = ("cmp", op, b, a)
        return t, pol


def const_truth(t) -> Optional[bool]:
    if t == ("falsy",):
        return False
    """statically known truth value of a term"""
    if t[0] == "c":
        return bool(t[1])
    if t[0] in ("fn", "lam", "func", "cls", "mod"):
        return True
    if t[0] == "tup":
        return bool(t[1])
    if t[0] in ("list", "dict", "setlit") and t[1]:
        return True
    if t[0] == "bool":
        vs = [const_truth(x) for x in t[2]]
        if t[1] == "Or":
            return True if True in vs else False if all(v is False for v in vs) else None
        return False if False in vs else True if all(v is True for v in vs) else None
    if t[0] == "cmp" and t[1] in ("Is", "Eq", "In", "Lt"):
        a, b = t[2], t[3]
        if a[0] == "c" and b[0] == "c":
            try:
                if t[1] == "Is":
                    return a[1] is b[1] or (a[1] == b[1] and type(a[1]) is type(b[1]))
                if t[1] == "Eq":
                    return a[1] == b[1]
                if t[1] == "Lt":
                    return a[1] < b[1]
                if t[1] == "In":
                    return a[1] in b[1]
            except Exception:
                return None
        if t[1] == "Is":
            nn = [x for x in (a, b) if not (x[0] == "c" and x[1] is None)]
            if len(nn) == 1 and never_none(nn[0]):
                return False
        if t[1] == "In" and a[0] == "c" and b[0] in ("tup", "list", "setlit") and all(x[0] == "c" for x in b[1]):
            return any(a[1] == x[1] for x in b[1])
    return None


def never_none(t) -> bool:
    if t[0] in ("fn", "lam", "func", "cls", "mod", "tup", "list", "dict", "setlit", "cat", "lin", "comp", "self", "exc", "nn", "new"):
        return True
    if t[0] == "call" and t[1][0] == "cls":
        return True
    if t[0] == "c":
        return t[1] is not None
    return False


MUTATORS = {
    "append", "extend", "insert", "add", "update", "pop", "popleft", "popitem", "clear", "remove", "discard", "setdefault",
    "difference_update", "intersection_update", "symmetric_difference_update", "appendleft", "sort", "reverse",
}
NEW_CALLS = {"set", "list", "dict", "collections.deque", "deque", "collections.OrderedDict", "bytearray"}
UNSTABLE = ("phi", "top", "elem", "fresh", "yieldval", "exc")


class Call:
    """a resolved call event"""

    __slots__ = ("frame", "node", "func", "args", "kwargs", "targets", "recv", "name", "flow")

    def __init__(self, flow, frame, node, func, args, kwargs, targets, recv, name):
        self.flow = flow
        self.frame = frame
        self.node = node
        self.func = func  # term
        self.args = args
        self.kwargs = kwargs  # dict
        self.targets = targets  # list of Func|Class|("ext", dotted)|("m", name)
        self.recv = recv  # receiver term or None
        self.name = name  # last name component

    def ext(self) -> Optional[str]:
        for t in self.targets:
            if isinstance(t, tuple) and t[0] == "ext":
                return t[1]
        return None

    def funcs(self) -> List[Func]:
        return [t for t in self.targets if isinstance(t, Func)]

    def classes(self) -> List[Class]:
        return [t for t in self.targets if isinstance(t, Class)]

    def is_func(self, *fulls: str) -> bool:
        return any(isinstance(t, Func) and (t.full in fulls or t.full.replace(":", ".") in fulls) for t in self.targets)

    def arg(self, i: int, name: Optional[str] = None, default=None):
        if name is not None and name in self.kwargs:
            return self.kwargs[name]
        if i is not None and i < len(self.args):
            return self.args[i]
        return default

    def bound(self, name: str, default=None):
        """argument bound to the named parameter of the (first) resolved in-repo target"""
        for t in self.targets:
            f = t
            if isinstance(t, Class):
                f = self.flow.project.find_method(t, "__init__")
            if not isinstance(f, Func):
                continue
            b = self.flow.bind(f, self, self.targets[0] is t)
            if name in b:
                return b[name]
        return default

    @property
    def line(self):
        return self.node.line

    def __repr__(self):
        return f"<Call {self.name} L{self.line} in {self.frame.func.qualname}>"


class Flow:
    def __init__(
        self,
        entry: Func,
        *,
        cls: Optional[Class] = None,
        inline: Callable[[Func], bool] = lambda f: False,
        max_depth: int = 6,
        project: Optional[Project] = None,
        param_terms: Optional[Dict[str, tuple]] = None,
        assume: Optional[Callable[[tuple], Optional[bool]]] = None,
        max_nodes: int = 60000,
    ):
        self.carry_terms = True
        self.opaque_cmp: Callable[[NKey], bool] = lambda nk: False
        self.project = project or get_project()
        self.entry = entry
        self.cls = cls or entry.cls
        self.inline = inline
        self.max_depth = max_depth
        self.assume = assume
        self.root = Frame(entry, None, None, self.cls)
        self.env: Dict[NKey, Dict] = {}
        self.visits: Dict[NKey, int] = {}
        self._reads = self._read_names()
        self.frames: Dict[tuple, Frame] = {}
        self.calls: Dict[NKey, Call] = {}
        self.inlined: Dict[NKey, List[Frame]] = {}
        self.modset_cache: Dict[Func, Set[str]] = {}
        self.max_nodes = max_nodes
        self.truncated = False
        self._typecache: Dict[tuple, frozenset] = {}
        self._run(param_terms or {})

    # ------------------------------------------------------------------ terms

    def lookup_var(self, env, frame: Frame, name: str) -> tuple:
        fr = frame
        while fr is not None:
            if name in local_vars(fr.func) or "@" in name or (fr, name) in env:
                if (fr, name) in env:
                    return env[(fr, name)]
                if "@" in name:
                    fr = fr.closure
                    continue
                return ("undef", fr.func.qualname, name)
            fn = fr.func
            if name in fn.nested:
                return ("func", fn.nested[name].full)
            if name in fn.local_imports:
                return self.dotted_term(fn.local_imports[name], env)
            if fr.closure is None and fn.parent is not None:
                # analysed without its lexical parent
                p = fn.parent
                while p is not None:
                    if name in p.nested:
                        return ("func", p.nested[name].full)
                    if name in p.local_imports:
                        return self.dotted_term(p.local_imports[name], env)
                    if name in local_vars(p):
                        return ("freevar", p.full, name)
                    p = p.parent
            fr = fr.closure
        m = frame.func.module
        return self._global(m, name, env)

    def _global(self, m: Module, dotted: str, env) -> tuple:
        r = self.project.resolve_name_in_module(m, dotted)
        return self._ent(r, env)

    def dotted_term(self, dotted: str, env) -> tuple:
        return self._ent(self.project.resolve_dotted(dotted), env)

    def _ent(self, r, env) -> tuple:
        if isinstance(r, Func):
            return ("func", r.full)
        if isinstance(r, Class):
            return ("cls", r.full)
        if isinstance(r, Module):
            return ("mod", r.name)
        if isinstance(r, tuple) and r[0] == "const":
            key = ("gv", f"{r[1].name}.{r[2]}")
            if env is not None and key in env:
                return env[key]
            vals = r[1].assigns.get(r[2], [])
            if len(vals) == 1 and isinstance(vals[0], ast.Constant) and not self._global_reassigned(r[1], r[2]):
                return ("c", vals[0].value)
            return key
        return ("g", r)

    _greassign: Dict[str, Set[str]] = {}

    def _global_reassigned(self, m: Module, name: str) -> bool:
        s = Flow._greassign.get(m.name)
        if s is None:
            s = set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    s.update(n.names)
            Flow._greassign[m.name] = s
        return name in s

    def ev(self, e: tuple, env: Dict, frame: Frame) -> tuple:
        return cap(self._ev(e, env, frame))

    def _ev(self, e, env, frame) -> tuple:
        k = e[0]
        if k == "c":
            return e
        if k == "n":
            return self.lookup_var(env, frame, e[1])
        if k == "t":
            return env.get((frame, ("t", e[1])), ("undef", "tmp", e[1]))
        if k == "g":
            return ("g", e[1])
        if k == "new":
            return ("new", e[1], frame.id, e[2])
        if k == "a":
            base = self.ev(e[1], env, frame)
            return self.attr(base, e[2], env)
        if k == "sub":
            b = self.ev(e[1], env, frame)
            i = self.ev(e[2], env, frame)
            return self.subscript(b, i, env)
        if k == "snap":
            v = self.ev(e[1], env, frame)
            if v[0] in ("tup", "list"):
                return v[1][e[2]]
            return ("item", v, e[2])
        if k == "item":
            v = self.ev(e[1], env, frame)
            if v[0] in ("tup", "list") and e[2] < len(v[1]) and not any(x[0] == "star" for x in v[1]):
                return v[1][e[2]]
            if v[0] == "phi":
                return phi([self._item(x, e[2]) for x in v[1]])
            return self._item(v, e[2])
        if k == "item*":
            return ("item*", self.ev(e[1], env, frame), e[2])
        if k == "elem":
            it = self.ev(e[1], env, frame)
            return self.elem(it)
        if k in ("tup", "list", "setlit"):
            return (k, tuple(self.ev(x, env, frame) for x in e[1]))
        if k == "dict":
            return ("dict", tuple((self.ev(a, env, frame), self.ev(b, env, frame)) for a, b in e[1]))
        if k == "star":
            return ("star", self.ev(e[1], env, frame))
        if k == "slice":
            return ("slice",) + tuple(self.ev(x, env, frame) for x in e[1:])
        if k == "fstr":
            return mk_cat([self.ev(x, env, frame) for x in e[1]])
        if k == "fmtspec":
            return ("fmtspec", self.ev(e[1], env, frame), e[2], e[3])
        if k == "b":
            return self.binop(e[1], self.ev(e[2], env, frame), self.ev(e[3], env, frame))
        if k == "u":
            x = self.ev(e[2], env, frame)
            if e[1] == "USub":
                c, d = lin_parts(x)
                return mk_lin(-c, {kk: -v for kk, v in d.items()})
            if e[1] == "Not":
                ct = const_truth(x)
                if ct is not None:
                    return ("c", not ct)
                if x[0] == "u" and x[1] == "Not":
                    return x[2] if x[2][0] in ("cmp",) else ("u", "Not", ("u", "Not", x[2]))
            return ("u", e[1], x)
        if k == "cmp":
            t = ("cmp", e[1], self.ev(e[2], env, frame), self.ev(e[3], env, frame))
            n, pol = norm_cond(t)
            ct = const_truth(n)
            if ct is not None:
                return ("c", ct if pol else not ct)
            return n if pol else ("u", "Not", n)
        if k == "bool":
            vals = [self.ev(x, env, frame) for x in e[2]]
            res = []
            for i, v in enumerate(vals):
                ct = const_truth(v)
                if ct is not None:
                    if e[1] == "And":
                        if ct:
                            if i < len(vals) - 1:
                                continue
                        else:
                            res.append(v)
                            break
                    else:
                        if not ct:
                            if i < len(vals) - 1:
                                continue
                        else:
                            res.append(v)
                            break
                res.append(v)
            if len(res) == 1:
                return res[0]
            return ("bool", e[1], tuple(res))
        if k == "comp":
            return ("comp", e[1], tuple(self.ev(x, env, frame) for x in e[2]), e[3])
        if k == "fn":
            f = frame.func.nested.get(e[1])
            return ("func", f.full) if f else ("fn", e[1])
        if k == "clsdef":
            return ("g", "<local class>." + e[1])
        if k == "lam":
            return ("lam", e[1])
        if k == "exc":
            return ("exc", e[1])
        return ("?",) + tuple(str(x) for x in e[1:])

    @staticmethod
    def _item(v, i):
        if v[0] in ("tup", "list") and i < len(v[1]):
            return v[1][i]
        return ("item", v, i)

    @staticmethod
    def elem(it):
        if it[0] == "call":
            key, args = it[1], it[2]
            if key == ("ext", "list") or key == ("ext", "tuple") or key == ("ext", "iter"):
                if len(args) == 1:
                    return Flow.elem(args[0])
            if key[0] == "ext" and key[1] == "enumerate" and args:
                return ("tup", (("idx", args[0]), Flow.elem(args[0])))
            if key[0] == "m" and key[2] == "items" and not args:
                return ("tup", (("key", key[1]), ("val", key[1])))
            if key[0] == "m" and key[2] == "values" and not args:
                return ("val", key[1])
            if key[0] == "m" and key[2] == "keys" and not args:
                return ("key", key[1])
            if key[0] == "ext" and key[1] == "zip":
                return ("tup", tuple(Flow.elem(a) for a in args))
        return ("elem", it)

    def binop(self, op, a, b) -> tuple:
        if op == "Add":
            if is_strish(a) or is_strish(b):
                return mk_cat([a, b])
            if a[0] in ("tup", "list") and b[0] == a[0]:
                return (a[0], a[1] + b[1])
            if a[0] in ("tup", "list", "comp") or b[0] in ("tup", "list", "comp"):
                return ("b", "Add", a, b)
            c1, d1 = lin_parts(a)
            c2, d2 = lin_parts(b)
            d = dict(d1)
            for k, v in d2.items():
                d[k] = d.get(k, 0) + v
            return mk_lin(c1 + c2, d)
        if op == "Sub":
            c1, d1 = lin_parts(a)
            c2, d2 = lin_parts(b)
            d = dict(d1)
            for k, v in d2.items():
                d[k] = d.get(k, 0) - v
            return mk_lin(c1 - c2, d)
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if x[0] == "c" and isinstance(x[1], (int, float)) and not isinstance(x[1], bool):
                    if y[0] in ("lin",) or not is_strish(y) and y[0] not in ("tup", "list"):
                        c, d = lin_parts(y)
                        return mk_lin(c * x[1], {k: v * x[1] for k, v in d.items()})
            if repr(b) < repr(a):
                a, b = b, a
            return ("b", "Mult", a, b)
        if op == "Mod" and a[0] == "c" and isinstance(a[1], str):
            r = mk_percent(a[1], b)
            if r is not None:
                return r
        return ("b", op, a, b)

    def attr(self, base, name, env) -> tuple:
        if base[0] == "phi":
            return phi([self.attr(b, name, env) for b in base[1]])
        if base[0] == "mod":
            m = self.project.modules.get(base[1])
            return self._ent(self.project.resolve_dotted(f"{base[1]}.{name}"), env) if m else ("g", f"{base[1]}.{name}")
        if base[0] == "g":
            return self._ent(self.project.resolve_dotted(f"{base[1]}.{name}"), env)
        if base[0] == "cls":
            key = ("h", base, name)
            if env is not None and key in env:
                return env[key]
            r = self.project.resolve_dotted(f"{base[1]}.{name}")
            if isinstance(r, (Func, Class)):
                return self._ent(r, env)
            return ("attr", base, name)
        key = ("h", base, name)
        if env is not None and key in env:
            return env[key]
        # trivial property getters: return self._x
        for c in self.types(base):
            f = self.project.find_method(c, name)
            if f is not None and f.is_property:
                body = [
                    s
                    for s in f.node.body
                    if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))
                ]
                if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute):
                    v = body[0].value
                    if isinstance(v.value, ast.Name) and v.value.id == "self" and v.attr != name:
                        return self.attr(base, v.attr, env)
        return ("attr", base, name)

    def subscript(self, b, i, env) -> tuple:
        if b[0] == "phi":
            return phi([self.subscript(x, i, env) for x in b[1]])
        key = ("hs", b, i)
        if env is not None and key in env:
            return env[key]
        if b[0] == "dict":
            for k, v in reversed(b[1]):
                if k == i:
                    return v
        if b[0] in ("tup", "list") and i[0] == "c" and isinstance(i[1], int) and -len(b[1]) <= i[1] < len(b[1]):
            return b[1][i[1]]
        return ("sub", b, i)

    # types

    def types(self, t) -> frozenset:
        r = self._typecache.get(t)
        if r is None:
            self._typecache[t] = frozenset()
            r = frozenset(self._types(t))
            self._typecache[t] = r
        return r

    def _types(self, t) -> Set[Class]:
        k = t[0]
        p = self.project
        if k == "self":
            c = p.get_class(t[1])
            return {c} if c else set()
        if k == "phi":
            res = set()
            for x in t[1]:
                res |= self.types(x)
            return res
        if k == "param":
            f = p.get_func(t[1])
            if f is None:
                return set()
            for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs:
                if a.arg == t[2]:
                    return p.classes_from_annotation(f, f.module, a.annotation)
            return set()
        if k == "attr":
            res = set()
            for c in self.types(t[1]):
                at = p.attr_types(c).get(t[2])
                if at:
                    res |= at
                f = p.find_method(c, t[2])
                if f is not None and f.is_property:
                    res |= p.classes_from_annotation(f, f.module, getattr(f.node, "returns", None))
            return res
        if k == "call":
            key = t[1]
            if key[0] == "cls":
                c = p.get_class(key[1])
                return {c} if c else set()
            if key[0] == "f":
                f = p.get_func(key[1])
                if f is not None:
                    return p.classes_from_annotation(f, f.module, getattr(f.node, "returns", None))
            if key[0] == "m":
                res = set()
                for c in self.types(key[1]):
                    f = p.find_method(c, key[2])
                    if f is not None:
                        res |= p.classes_from_annotation(f, f.module, getattr(f.node, "returns", None))
                return res
        if k == "gv":
            parts = t[1].rsplit(".", 1)
            m = p.modules.get(parts[0])
            if m:
                res = set()
                for s in m.tree.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == parts[1]:
                        res |= p.classes_from_annotation(None, m, s.annotation)
                for v in m.assigns.get(parts[1], []):
                    if isinstance(v, ast.Call) and dotted_name(v.func):
                        r = p.resolve_name_in_module(m, dotted_name(v.func))
                        if isinstance(r, Class):
                            res.add(r)
                return res
        return set()

    # ------------------------------------------------------------------ calls

    def resolve_call(self, node: Node, env, frame) -> Call:
        fe = node.d["func"]
        p = self.project
        args = tuple(self.ev(a, env, frame) for a in node.d["args"])
        kwargs = {k: self.ev(v, env, frame) for k, v in node.d["kwargs"]}
        targets: List[Any] = []
        recv = None
        name = None
        fterm = None
        # super().m
        if fe[0] == "a" and fe[1][0] == "t":
            st = env.get((frame, ("t", fe[1][1])))
            if st is not None and st[0] == "super":
                name = fe[2]
                recv = st[1]
                dyn = p.get_class(st[2])
                after = p.get_class(st[3])
                f = p.find_method(dyn, name, after=after) if dyn and after else None
                if f:
                    targets.append(f)
                else:
                    targets.append(("m", name))
                fterm = ("superattr", st[3], name)
        if fterm is None:
            if fe[0] == "a":
                recv = self.ev(fe[1], env, frame)
                name = fe[2]
                fterm = self.attr(recv, name, env)
            else:
                fterm = self.ev(fe, env, frame)
                name = fe[1] if fe[0] == "n" else None
            for ft in alts(fterm):
                if ft[0] == "func":
                    f = p.get_func_any(ft[1])
                    if f:
                        targets.append(f)
                        name = name or f.name
                elif ft[0] == "cls":
                    c = p.get_class(ft[1])
                    if c:
                        targets.append(c)
                elif ft[0] == "g":
                    targets.append(("ext", ft[1]))
                elif ft[0] == "attr":
                    found = False
                    for c in sorted(self.types(ft[1]), key=lambda c: c.full):
                        f = p.find_method(c, ft[2])
                        if f is not None and f not in targets:
                            targets.append(f)
                            found = True
                    if not found:
                        targets.append(("m", ft[2]))
                elif ft[0] == "lam":
                    targets.append(("lam", ft[1]))
                elif ft[0] == "call" and ft[1] == ("ext", "functools.partial") and ft[2]:
                    targets.append(("m", "partial"))
                else:
                    targets.append(("m", name or "?"))
        return Call(self, frame, node, fterm, args, kwargs, targets, recv, name)

    def call_key(self, c: Call):
        if len(c.targets) == 1:
            t = c.targets[0]
            if isinstance(t, Func):
                if c.recv is not None and t.cls is not None and not t.is_static:
                    return ("m", c.recv, t.name)
                return ("f", t.full)
            if isinstance(t, Class):
                return ("cls", t.full)
            if t[0] == "ext":
                return ("ext", t[1])
        if c.recv is not None:
            return ("m", c.recv, c.name)
        return ("v", c.func)

    def bind(self, f: Func, c: Call, first=True) -> Dict[str, tuple]:
        """param name -> arg term"""
        a = f.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        res: Dict[str, tuple] = {}
        args = list(c.args)
        if f.cls is not None and not f.is_static and f.name != "<lambda>":
            # bound?
            is_ctor = any(isinstance(t, Class) for t in c.targets)
            if is_ctor:
                args = [("newobj", c.node.id)] + args
            elif c.func[0] == "func" and c.recv is not None and c.recv[0] == "cls" and not f.is_classmethod:
                pass  # explicit Class.method(self, ...)
            elif c.func[0] == "func" and c.recv is None:
                pass
            else:
                args = [c.recv if c.recv is not None else ("undef", "self", f.full)] + args
        i = 0
        star_seen = False
        extra = []
        for t in args:
            if t[0] == "star":
                if t[1][0] in ("tup", "list"):
                    for x in t[1][1]:
                        if i < len(pos):
                            res[pos[i]] = x
                            i += 1
                        else:
                            extra.append(x)
                    continue
                star_seen = True
                break
            if i < len(pos):
                res[pos[i]] = t
                i += 1
            else:
                extra.append(t)
        if a.vararg:
            res[a.vararg.arg] = ("tup", tuple(extra)) if not star_seen else ("opaqueargs", c.node.id)
        kwextra = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        has_unknown_kw = False
        for k, v in c.kwargs.items():
            if k == "**":
                if v[0] == "dict" and all(kk[0] == "c" for kk, _ in v[1]):
                    for kk, vv in v[1]:
                        if kk[1] in names:
                            res.setdefault(kk[1], vv)
                        else:
                            kwextra[kk[1]] = vv
                else:
                    has_unknown_kw = True
                    kwextra["**"] = v
            elif k in names:
                res[k] = v
            else:
                kwextra[k] = v
        if a.kwarg:
            res[a.kwarg.arg] = ("dict", tuple((("c", k), v) for k, v in sorted(kwextra.items(), key=lambda x: x[0])))
        defaults = list(a.defaults)
        for nme, d in zip(pos[len(pos) - len(defaults) :], defaults):
            if nme not in res and not star_seen and not has_unknown_kw:
                res[nme] = self._default_term(f, d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None and x.arg not in res and not has_unknown_kw:
                res[x.arg] = self._default_term(f, d)
        for nme in names:
            if nme not in res:
                res[nme] = ("param", f.full, nme)
        return res

    def _default_term(self, f: Func, d) -> tuple:
        if isinstance(d, ast.Constant):
            return ("c", d.value)
        if isinstance(d, (ast.Tuple, ast.List)) and not d.elts:
            return ("tup" if isinstance(d, ast.Tuple) else "list", ())
        dn = dotted_name(d)
        if dn:
            return self._ent(self.project.resolve_name_in_module(f.module, dn), None)
        return ("default", f.full, ast.dump(d))

    def modset(self, f: Func, _stack=()) -> Set[str]:
        """attr names possibly assigned by f (transitively via statically resolvable calls)"""
        if f in self.modset_cache:
            return self.modset_cache[f]
        if f in _stack or len(_stack) > 6:
            return set()
        res = set()
        for n in walk_own(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                res.add(n.attr)
        for g in static_callees(self.project, f):
            res |= self.modset(g, _stack + (f,))
        if not _stack:
            self.modset_cache[f] = res
        return res

    def _read_names(self) -> Set[str]:
        seen = {self.entry}
        frontier = [self.entry]
        res: Set[str] = set()
        for _ in range(self.max_depth + 1):
            nxt = []
            for g in frontier:
                res |= names_used(g)
                for h in static_callees(self.project, g):
                    if h not in seen and self.inline(h):
                        seen.add(h)
                        nxt.append(h)
            frontier = nxt
        return res

    # ------------------------------------------------------------------ fixpoint

    def _run(self, param_terms):
        f = self.entry
        env: Dict = {}
        pn = f.param_names()
        for i, n in enumerate(pn):
            if n in param_terms:
                env[(self.root, n)] = param_terms[n]
            elif i == 0 and f.cls is not None and not f.is_static and not f.is_classmethod:
                env[(self.root, n)] = ("self", self.cls.full)
            elif i == 0 and f.is_classmethod:
                env[(self.root, n)] = ("cls", self.cls.full)
            else:
                env[(self.root, n)] = ("param", f.full, n)
        ir = get_ir(f)
        self.work: List = []
        self.joincnt: Dict = {}
        self._workctr = 0
        self.inwork: Set[NKey] = set()
        self._prop(None, (self.root, ir.entry), env)
        steps = 0
        while self.work:
            nk = heapq.heappop(self.work)[2]
            self.inwork.discard(nk)
            steps += 1
            if steps > self.max_nodes * VISIT_CAP or len(self.env) > self.max_nodes:
                self.truncated = True
                break
            self._step(nk)

    def _prop(self, src, nk: NKey, env):
        old = self.env.get(nk)
        fr = nk[0]
        live = live_in(get_ir(fr.func))[nk[1].id]
        env = {k: v for k, v in env.items() if k[0] is not fr or k[1] in live}
        if old is None:
            self.env[nk] = env
            changed = True
        else:
            changed = False
            cnt = self.visits.get(nk, 0)
            for k, v in env.items():
                if k in old:
                    ov = old[k]
                    if ov == v:
                        continue
                    nv = self._join(nk, k, ov, v, cnt)
                else:
                    if k[0] == "h":
                        dv = ("attr", k[1], k[2])
                        nv = self._join(nk, k, dv, v, cnt)
                        if nv == dv:
                            continue
                    elif k[0] == "hs":
                        dv = ("sub", k[1], k[2])
                        nv = self._join(nk, k, dv, v, cnt)
                    elif k[0] == "gv":
                        nv = self._join(nk, k, k, v, cnt)
                    else:
                        nv = v
                if nv != old.get(k):
                    old[k] = nv
                    changed = True
            for k in list(old.keys()):
                if k not in env and k[0] in ("h", "hs", "gv"):
                    dv = ("attr", k[1], k[2]) if k[0] == "h" else ("sub", k[1], k[2]) if k[0] == "hs" else k
                    nv = self._join(nk, k, old[k], dv, cnt)
                    if nv != old[k]:
                        old[k] = nv
                        changed = True
        if changed:
            self.visits[nk] = self.visits.get(nk, 0) + 1
            if nk not in self.inwork:
                self.inwork.add(nk)
                self._workctr += 1
                heapq.heappush(self.work, (nk[0].path + (nk[1].rpo,), self._workctr, nk))

    def _join(self, nk, key, a, b, cnt):
        if a == b:
            return a
        top = ("top", nk[0].id, nk[1].id, str(key[1]) if key[0] not in ("h", "hs") else str(key[2]))
        if a == top or b == top:
            return top
        # undefined values
        if a[0] == "undef":
            return b
        if b[0] == "undef":
            return a
        r = phi([a, b])
        if r == a:
            return a
        jk = (nk, key)
        cnt = self.joincnt.get(jk, 0) + 1
        self.joincnt[jk] = cnt
        if cnt > (2 if nk[1].kind in ("loophead", "iter") else 5):
            return top
        if r[0] == "phi" and len(r[1]) > PHI_CAP:
            return top
        return cap(r)

    def _frame_for(self, frame: Frame, node: Node, f: Func, cls) -> Frame:
        key = (frame, node.id, f.full, cls)
        fr = self.frames.get(key)
        if fr is None:
            closure = None
            if f.parent is not None:
                x = frame
                while x is not None:
                    if x.func is f.parent:
                        closure = x
                        break
                    x = x.parent
            fr = Frame(f, frame, node, cls, closure)
            self.frames[key] = fr
        return fr

    def _inlinable(self, c: Call) -> List[Tuple[Func, Optional[Class]]]:
        fr = c.frame
        if fr.depth >= self.max_depth:
            return []
        res = []
        for t in c.targets:
            if isinstance(t, Class):
                init = self.project.find_method(t, "__init__")
                if init is not None and self.inline(init):
                    res.append((init, t))
                continue
            if not isinstance(t, Func):
                return []  # mixed with unknown: opaque
            if t.is_generator or isinstance(t.node, ast.AsyncFunctionDef):
                return []
            if t in set(fr.stack_funcs()):
                return []
            if not self.inline(t):
                return [] if len(c.targets) == 1 else []
            cls = None
            if t.cls is not None and c.recv is not None:
                ts = self.types(c.recv)
                cands = [k for k in ts if t.cls in self.project.mro(k)]
                cls = cands[0] if len(cands) == 1 else t.cls
            elif t.cls is not None:
                cls = t.cls
            res.append((t, cls))
        return res

    def _step(self, nk: NKey):
        frame, node = nk
        env = self.env[nk]
        kind = node.kind
        if kind == "call":
            self._step_call(nk, env)
            return
        if kind == "branch":
            ct = self.branch_truth(nk)
            for t, lab in node.succ:
                if ct is not None and lab in ("T", "F") and (lab == "T") != ct:
                    continue
                self._prop(nk, (frame, t), env)
            return
        if kind in ("exit", "excexit"):
            self._return_to_caller(nk, env)
            return
        if kind == "yieldfrom":
            v = self.ev(node.d["value"], env, frame)
            gens = self._yieldfrom_targets(nk, env)
            if gens:
                self.inlined[nk] = []
                for fr2, e2 in gens:
                    self.inlined[nk].append(fr2)
                    self._prop(nk, (fr2, get_ir(fr2.func).entry), e2)
                return
        if kind == "exitwith" or kind == "enter":
            pass
        new = self.transfer(nk, env)
        for t, lab in node.succ:
            if kind == "iter" and lab == "done":
                self._prop(nk, (frame, t), env)
            elif lab == "exc" and kind == "assign":
                self._prop(nk, (frame, t), env)
            else:
                self._prop(nk, (frame, t), new)

    def branch_truth(self, nk) -> Optional[bool]:
        frame, node = nk
        v = self.ev(node.d["cond"], self.env[nk], frame)
        t, pol = norm_cond(v)
        ct = const_truth(t)
        if ct is None and self.assume is not None:
            ct = self.assume(t)
        if ct is None:
            return None
        return ct if pol else not ct

    def transfer(self, nk, env) -> Dict:
        frame, node = nk
        kind = node.kind
        if kind == "assign":
            v = self.ev(node.d["value"], env, frame)
            return self.store(node.d["target"], v, env, frame, nk)
        if kind == "return":
            v = self.ev(node.d["value"], env, frame)
            new = dict(env)
            new[(frame, "$ret")] = v
            return new
        if kind == "yield":
            new = dict(env)
            new[(frame, ("t", node.d["dest"]))] = ("yieldval", node.id)
            return new
        if kind == "yieldfrom":
            new = dict(env)
            new[(frame, ("t", node.d["dest"]))] = ("yieldval", node.id)
            return new
        if kind == "enter":
            v = self.ev(node.d["value"], env, frame)
            new = dict(env)
            new[(frame, ("t", node.d["dest"]))] = self._enter_value(v)
            return new
        if kind == "del":
            t = node.d["target"]
            if t[0] == "n":
                new = dict(env)
                new.pop((frame, t[1]), None)
                return new
        return env

    def _enter_value(self, v):
        if v[0] == "call" and v[1][0] == "ext" and v[1][1] in ("open", "gzip.open"):
            return v
        for c in self.types(v):
            f = self.project.find_method(c, "__enter__")
            if f is not None:
                for s in f.node.body:
                    if isinstance(s, ast.Return) and isinstance(s.value, ast.Name) and s.value.id == "self":
                        return v
        return ("entered", v)

    def store(self, tgt, v, env, frame, nk) -> Dict:
        k = tgt[0]
        new = dict(env)
        if k == "n":
            fr = frame
            name = tgt[1]
            while fr is not None:
                if name in local_vars(fr.func) or "@" in name:
                    new[(fr, name)] = v
                    return new
                # declared nonlocal/global
                if fr.closure is None:
                    break
                fr = fr.closure
            # global
            m = frame.func.module
            new[("gv", f"{m.name}.{name}")] = v
            return new
        if k == "t":
            new[(frame, ("t", tgt[1]))] = v
            return new
        if k == "a":
            base = self.ev(tgt[1], env, frame)
            if base[0] == "mod":
                new[("gv", f"{base[1]}.{tgt[2]}")] = v
                return new
            if base[0] == "g":
                new[("gv", f"{base[1]}.{tgt[2]}")] = v
                return new
            # property setter aliasing: trivial setters self._x = value
            name = tgt[2]
            for c in self.types(base):
                f = self.project.find_method(c, name + ".setter")
                if f is not None:
                    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                    if len(body) == 1 and isinstance(body[0], ast.Assign) and isinstance(body[0].targets[0], ast.Attribute):
                        name = body[0].targets[0].attr
            for b in alts(base):
                if base[0] == "phi":
                    new[("h", b, name)] = phi([v, env.get(("h", b, name), ("attr", b, name))])
                else:
                    new[("h", b, name)] = v
            return new
        if k == "sub":
            base = self.ev(tgt[1], env, frame)
            i = self.ev(tgt[2], env, frame)
            new[("hs", base, i)] = v
            return new
        return new

    def _yieldfrom_targets(self, nk, env):
        """yield from f(...): inline generator f. value term must be a call of a known generator; we need its binding"""
        frame, node = nk
        e = node.d["value"]
        if e[0] != "t":
            return []
        # find the call node producing this temp in same frame
        for n2 in get_ir(frame.func).nodes:
            if n2.kind == "call" and n2.d["dest"] == e[1]:
                c = self.calls.get((frame, n2))
                if c is None:
                    return []
                res = []
                for t in c.targets:
                    if isinstance(t, Func) and t.is_generator and t not in set(frame.stack_funcs()):
                        if frame.depth >= self.max_depth:
                            return []
                        cls = t.cls
                        if cls is not None and c.recv is not None:
                            ts = [k for k in self.types(c.recv) if t.cls in self.project.mro(k)]
                            if len(ts) == 1:
                                cls = ts[0]
                        fr2 = self._frame_for(frame, node, t, cls)
                        e2 = dict(env)
                        for pn, pv in self.bind(t, c).items():
                            e2[(fr2, pn)] = pv
                        res.append((fr2, e2))
                return res
        return []

    def _step_call(self, nk, env):
        frame, node = nk
        c = self.resolve_call(node, env, frame)
        self.calls[nk] = c
        # special: super()
        if c.ext() == "super":
            owner = frame.func
            while owner is not None and owner.cls is None:
                owner = owner.parent
            selft = None
            oc = owner.cls if owner is not None else None
            if owner is not None:
                pn = owner.param_names()
                fr = frame
                while fr is not None and fr.func is not owner:
                    fr = fr.closure or fr.parent
                if fr is not None and pn:
                    selft = env.get((fr, pn[0]))
            if c.args:
                if c.args[0][0] == "cls":
                    oc = self.project.get_class(c.args[0][1]) or oc
                if len(c.args) > 1:
                    selft = c.args[1]
            dyn = None
            if selft is not None:
                ts = [k for k in self.types(selft) if oc in self.project.mro(k)]
                if len(ts) == 1:
                    dyn = ts[0]
                elif selft[0] == "cls":
                    dyn = self.project.get_class(selft[1])
            new = dict(env)
            new[(frame, ("t", node.d["dest"]))] = (
                "super",
                selft or ("undef", "self", ""),
                (dyn or oc).full if (dyn or oc) else "?",
                oc.full if oc else "?",
            )
            for t, lab in node.succ:
                self._prop(nk, (frame, t), new)
            return
        inl = self._inlinable(c)
        if inl:
            frs = []
            for f, cls in inl:
                fr2 = self._frame_for(frame, node, f, cls)
                frs.append(fr2)
                e2 = dict(env)
                b = self.bind(f, c)
                for pn, pv in b.items():
                    if cls is not None and pv[0] == "newobj":
                        pv = ("call", ("cls", cls.full), c.args, tuple(sorted(c.kwargs.items())))
                        pv = cap(pv)
                    e2[(fr2, pn)] = pv
                self._prop(nk, (fr2, get_ir(f).entry), e2)
            self.inlined[nk] = frs
            return
        self.inlined.pop(nk, None)
        new = dict(env)
        key = self.call_key(c)
        new[(frame, ("t", node.d["dest"]))] = self._call_value(c, key)
        # heap kills
        for t in c.targets:
            if isinstance(t, Func):
                ms = self.modset(t)
                if ms:
                    for k in list(new.keys()):
                        if k[0] == "h" and k[2] in ms:
                            new[k] = ("fresh", frame.id, node.id, k[2])
                    # attrs not yet in env but readable later: mark for self
                    if c.recv is not None:
                        for a in ms & self._reads:
                            kk = ("h", c.recv, a)
                            if kk not in new:
                                new[kk] = ("fresh", frame.id, node.id, a)
        for t, lab in node.succ:
            self._prop(nk, (frame, t), env if lab == "exc" else new)

    def _call_value(self, c: Call, key):
        if key == ("ext", "str") and len(c.args) == 1:
            return c.args[0]
        if key[0] == "m" and key[2] == "format" and key[1][0] == "c" and isinstance(key[1][1], str) and not c.kwargs:
            parts = key[1][1].split("{}")
            if len(parts) == len(c.args) + 1 and "{" not in "".join(parts):
                ps = []
                for i, s in enumerate(parts):
                    ps.append(("c", s))
                    if i < len(c.args):
                        ps.append(c.args[i])
                return mk_cat(ps)
        if key == ("ext", "getattr") and len(c.args) >= 2 and c.args[1][0] == "c":
            return self.attr(c.args[0], c.args[1][1], None)
        if not c.args and not c.kwargs and key[0] == "ext" and key[1] in NEW_CALLS:
            return ("new", key[1], c.frame.id, ("c", c.node.id))
        if key == ("ext", "dict") and not c.args and "**" not in c.kwargs:
            return ("dict", tuple((("c", k), v) for k, v in c.kwargs.items()))
        return ("call", key, c.args, tuple(sorted(c.kwargs.items())))

    def _return_to_caller(self, nk, env):
        frame, node = nk
        if frame.parent is None:
            return
        call = frame.call
        pf = frame.parent
        # drop callee locals
        ret = env.get((frame, "$ret"), ("c", None))
        new = {}
        for k, v in env.items():
            if isinstance(k[0], Frame) and k[0] is frame:
                continue
            new[k] = v
        if call.kind == "call":
            if any(isinstance(t, Class) for t in self.calls[(pf, call)].targets) and frame.func.name == "__init__":
                c = self.calls[(pf, call)]
                ret = cap(("call", ("cls", frame.cls.full), c.args, tuple(sorted(c.kwargs.items()))))
        for t, lab in call.succ:
            if node.kind == "exit" and lab != "exc":
                e = dict(new)
                e[(pf, ("t", call.d["dest"]))] = ret
                self._prop(nk, (pf, t), e)
            elif node.kind == "excexit" and lab == "exc":
                self._prop(nk, (pf, t), new)

    # ------------------------------------------------------------------ graph iteration

    def successors(self, nk: NKey) -> List[Tuple[NKey, str]]:
        frame, node = nk
        if node.kind in ("call", "yieldfrom") and nk in self.inlined:
            return [((fr2, get_ir(fr2.func).entry), "call") for fr2 in self.inlined[nk]]
        if node.kind in ("exit", "excexit"):
            if frame.parent is None:
                return []
            res = []
            for t, lab in frame.call.succ:
                if (node.kind == "exit") == (lab != "exc"):
                    res.append(((frame.parent, t), "ret" if node.kind == "exit" else "exc"))
            return res
        res = []
        ct = None
        if node.kind == "branch":
            ct = self.branch_truth(nk)
        for t, lab in node.succ:
            if ct is not None and lab in ("T", "F") and (lab == "T") != ct:
                continue
            k2 = (frame, t)
            if k2 in self.env:
                res.append((k2, lab))
        return res

    def cond_term(self, nk) -> Tuple[tuple, bool]:
        frame, node = nk
        return norm_cond(self.ev(node.d["cond"], self.env[nk], frame))

    def term(self, nk, e) -> tuple:
        return self.ev(e, self.env[nk], nk[0])

    def nodes(self):
        return self.env.keys()

    def all_calls(self) -> List[Call]:
        return [c for nk, c in self.calls.items() if nk in self.env]

    def loc(self, nk) -> str:
        frame, node = nk
        return f"{frame.func.module.relpath}:{node.line} ({frame.func.qualname})"

    # ------------------------------------------------------------------ property simulation

    def simulate(
        self,
        init_state,
        step: Callable[[NKey, Any, str], Any],
        *,
        on_end: Optional[Callable[[NKey, Any, str], None]] = None,
        correlate: bool = True,
        pure: Callable[[tuple], bool] = lambda t: False,
        cond_hook: Optional[Callable[[NKey, Any, tuple, bool], Any]] = None,
        max_states: int = 300000,
        start: Optional[NKey] = None,
        start_vals: Iterable = (),
        edge_filter: Optional[Callable[[NKey, str, NKey], bool]] = None,
    ):
        """
        Run automaton over all paths. ``step(nk, state, label)`` is called when leaving node nk along an edge with the
        given label, returns the new state or None to stop this path, or a list of states.
        on_end is called at root exit nodes with state.
        """
        if start is None:
            start = (self.root, get_ir(self.entry).entry)
        corr: Set[tuple] = set()
        if correlate:
            cnt: Dict[tuple, set] = {}
            keys = set()
            for nk in self.env:
                if nk[1].kind == "branch":
                    t, _ = self.cond_term(nk)
                    for tt in cond_keys(t):
                        cnt.setdefault(cond_atom(tt), set()).add(nk)
                        keys.add(tt)
            corr = {t for t in keys if len(cnt[cond_atom(t)]) >= 2}
            if callable(correlate):
                corr = {t for t in corr if correlate(t)}
        init = (start, init_state, frozenset(start_vals))
        seen: Dict[tuple, Optional[tuple]] = {init: None}
        work = [init]
        self.sim_parent = seen
        nstates = 0
        loopheads = self._loopheads()
        flagvars = self._flag_vars() if correlate else frozenset()
        while work:
            cur = work.pop()
            nk, st, vals = cur
            nstates += 1
            if nstates > max_states:
                self.truncated = True
                break
            frame, node = nk
            self.sim_cur = cur
            if node.kind in ("exit", "excexit") and frame.parent is None:
                if on_end is not None:
                    on_end(nk, st, node.kind)
                continue
            succs = self.successors(nk)
            for nk2, lab in succs:
                if edge_filter is not None and not edge_filter(nk, lab, nk2):
                    continue
                v2 = vals
                st2 = st
                if node.kind == "branch" and lab in ("T", "F"):
                    t, pol = self.cond_term(nk)
                    t1_used = False
                    if flagvars and any(x[0][0] == "flag" and x[0][1] is frame for x in vals):
                        t1, pol1 = norm_cond(self.ev(node.d["cond"], self._overlay(nk, vals), frame))
                        if t1 != t or pol1 != pol:
                            ct = const_truth(t1)
                            if ct is not None:
                                if (ct if pol1 else not ct) != (lab == "T"):
                                    continue
                            else:
                                t, pol = t1, pol1
                                t1_used = True
                    val = (lab == "T") == pol
                    if correlate and not has_phi(t):
                        known = self._known(vals, t)
                        if known is not None and known != val:
                            continue
                        if t in corr or (t1_used and (not callable(correlate) or correlate(t))) or (
                            t[0] == "bool" and not callable(correlate)
                        ):
                            v2 = self._learn(vals, t, val)
                            if v2 is None:
                                continue
                    if cond_hook is not None:
                        for ta, va in implied_atoms(t, val):
                            st2 = cond_hook(nk, st2, ta, va)
                            if st2 is None:
                                break
                        if st2 is None:
                            continue
                r = step(nk, st2, lab)
                if r is None:
                    continue
                if flagvars:
                    v2 = self._flag_step(nk, lab, nk2, v2, flagvars)
                for st3 in r if isinstance(r, list) else [r]:
                    v3 = v2
                    if nk2 in loopheads and v3:
                        v3 = frozenset(
                            (t, b)
                            for (t, b) in v3
                            if t[0] == "flag"
                            or not any(
                                x[0] in UNSTABLE or (x[0] == "call" and not pure(x) and not default_pure(x))
                                for x in subterms(t)
                            )
                        )
                    if node.kind == "call" and v3 and nk not in self.inlined:
                        c = self.calls.get(nk)
                        if c is not None:
                            mut = [x for x in list(c.args) + list(c.kwargs.values()) if x[0] == "new"]
                            if c.recv is not None and c.name in MUTATORS:
                                mut += alts(c.recv)
                            if mut:
                                v3 = frozenset(
                                    (t, b) for (t, b) in v3 if t[0] == "flag" or not any(contains(t, m) for m in mut)
                                )
                            ct = self._call_value(c, self.call_key(c))
                            if ct[0] == "call" and not pure(ct) and not default_pure(ct):
                                v3 = frozenset((t, b) for (t, b) in v3 if t[0] == "flag" or not contains(t, ct))
                    if node.kind == "iter" and v3:
                        it = self.elem(self.term(nk, node.d["iter"]))
                        v3 = frozenset((t, b) for (t, b) in v3 if t[0] == "flag" or not contains(t, it))
                    nxt = (nk2, st3, v3)
                    if nxt not in seen:
                        seen[nxt] = cur
                        work.append(nxt)
        return nstates

    # path-carried constants of local flag variables (``x = True ... if x:``, returned booleans, ``None`` markers)

    def _flag_vars(self):
        funcs = {nk[0].func for nk in self.env}
        used = set()
        copies = []
        const = set()
        for f in funcs:
            for n in get_ir(f).nodes:
                if n.kind == "branch":
                    acc = set()
                    _uses(n.d["cond"], acc)
                    used |= {(f, v) for v in acc}
                elif n.kind == "assign" and n.d["target"][0] in ("n", "t"):
                    tgt = (f, n.d["target"][1] if n.d["target"][0] == "n" else ("t", n.d["target"][1]))
                    acc = set()
                    _uses(n.d["value"], acc)
                    copies += [(tgt, (f, v)) for v in acc]
                    if n.d["value"][0] in ("c", "exc", "cmp", "bool") or n.d["value"][:2] == ("u", "Not"):
                        const.add(tgt)
                elif n.kind == "call" and n.d["func"] == ("n", "bool") and len(n.d["args"]) == 1:
                    acc = set()
                    _uses(n.d["args"][0], acc)
                    copies += [((f, ("t", n.d["dest"])), (f, v)) for v in acc]
                elif n.kind == "call" and _bool_call_ir(n.d["func"]):
                    const.add((f, ("t", n.d["dest"])))
                elif n.kind == "return":
                    acc = set()
                    _uses(n.d["value"], acc)
                    copies += [((f, "$ret"), (f, v)) for v in acc]
                    if n.d["value"][0] in ("c", "cmp", "bool") or n.d["value"][:2] == ("u", "Not"):
                        const.add((f, "$ret"))
        for nk, frs in self.inlined.items():
            if nk[1].kind == "call":
                for fr in frs:
                    copies.append(((nk[0].func, ("t", nk[1].d["dest"])), (fr.func, "$ret")))
                    for pn in fr.func.param_names():
                        acc = set()
                        for a in nk[1].d["args"]:
                            _uses(a, acc)
                        for _, a in nk[1].d["kwargs"]:
                            _uses(a, acc)
                        copies += [((fr.func, pn), (nk[0].func, v)) for v in acc]
        changed = True
        while changed:
            changed = False
            for a, b in copies:
                if a in used and b not in used:
                    used.add(b)
                    changed = True
                if b in const and a not in const:
                    const.add(a)
                    changed = True
        return frozenset(used & const)

    def _overlay(self, nk, vals):
        env = dict(self.env[nk])
        for k, v in vals:
            if k[0] == "flag" and k[1] is nk[0]:
                env[(k[1], k[2])] = v
        return env

    def _flag_val(self, nk, e, vals):
        """constant abstraction of the value of IR expression e on this path"""
        if e[0] in ("b", "sub", "fstr"):
            return None
        v = self.ev(e, self._overlay(nk, vals), nk[0])
        if v[0] == "c" and (v[1] is None or isinstance(v[1], (bool, str, int))):
            return v
        t, pol = norm_cond(v)
        if t[0] in ("cmp", "bool"):
            k = self._known(vals, t)
            if k is not None:
                return ("c", k if pol else not k)
            if self.carry_terms and len(repr(v)) < 1500:
                return v
            return None
        if self.carry_terms and is_boolean_term(v) and len(repr(v)) < 1500:
            return v
        if v == ("falsy",):
            return v
        if never_none(v):
            return ("nn",)
        k = self._known(vals, ("cmp", "Is", ("c", None), v))
        if k is False:
            return ("nn",)
        return None

    def _flag_val_or_sym(self, nk, e, vals):
        """like _flag_val, but a comparison too complex to carry becomes an opaque boolean"""
        v = None if self.opaque_cmp(nk) else self._flag_val(nk, e, vals)
        pol = True
        x = e
        while x[:2] == ("u", "Not"):
            x, pol = x[2], not pol
        if v is not None or x[0] != "cmp":
            return v, vals
        sym = ("bsym", nk[0], nk[1])
        # the same comparison evaluated earlier (previous iteration) is a different value
        vals = frozenset((k, y) for k, y in vals if not (contains(y, sym) if k[0] == "flag" else contains(k, sym)))
        return (sym if pol else ("u", "Not", sym)), vals

    def _flag_step(self, nk, lab, nk2, vals, flagvars):
        frame, node = nk
        upd = None
        if node.kind == "assign" and lab != "exc" and node.d["target"][0] in ("n", "t"):
            tg = node.d["target"]
            key = tg[1] if tg[0] == "n" else ("t", tg[1])
            if (frame.func, key) in flagvars:
                v, vals = self._flag_val_or_sym(nk, node.d["value"], vals)
                upd = (frame, key, v)
        elif node.kind == "return" and (frame.func, "$ret") in flagvars:
            v, vals = self._flag_val_or_sym(nk, node.d["value"], vals)
            upd = (frame, "$ret", v)
        elif node.kind == "exit" and frame.parent is not None and frame.call.kind == "call":
            key = ("t", frame.call.d["dest"])
            pf = frame.parent
            rv = None
            has_ret = False
            for k, v in vals:
                if k[0] == "flag" and k[1] is frame and k[2] == "$ret":
                    rv = v
                    has_ret = True
            if not has_ret and self.env[nk].get((frame, "$ret"), ("c", None)) == ("c", None):
                rv = ("c", None)
            vals = frozenset((k, v) for k, v in vals if not (k[0] == "flag" and k[1] is frame))
            if (pf.func, key) in flagvars:
                upd = (pf, key, rv)
        elif node.kind == "excexit":
            vals = frozenset((k, v) for k, v in vals if not (k[0] == "flag" and k[1] is frame))
        elif node.kind == "call":
            if nk in self.inlined and lab == "call":
                fr2 = nk2[0]
                pn = fr2.func.param_names()
                off = 1 if (fr2.func.cls is not None and not fr2.func.is_static) else 0
                for i, a in enumerate(node.d["args"]):
                    if a[0] == "star":
                        break
                    if i + off < len(pn) and (fr2.func, pn[i + off]) in flagvars and a[0] in ("n", "t"):
                        v = self._flag_val(nk, a, vals)
                        if v is not None:
                            vals = vals | {(("flag", fr2, pn[i + off]), v)}
                for kn, a in node.d["kwargs"]:
                    if kn is not None and (fr2.func, kn) in flagvars and a[0] in ("n", "t"):
                        v = self._flag_val(nk, a, vals)
                        if v is not None:
                            vals = vals | {(("flag", fr2, kn), v)}
            elif (frame.func, ("t", node.d["dest"])) in flagvars:
                v = None
                if node.d["func"] == ("n", "bool") and len(node.d["args"]) == 1 and lab != "exc":
                    v = self._flag_val(nk, node.d["args"][0], vals)
                    if v is not None and v[0] == "c":
                        v = ("c", bool(v[1]))
                    elif v == ("nn",):
                        v = None
                elif lab != "exc" and _bool_call_ir(node.d["func"]) and self.carry_terms:
                    c = self.calls.get(nk)
                    if c is not None:
                        v = self._call_value(c, self.call_key(c))
                        if not is_boolean_term(v) or len(repr(v)) >= 1500:
                            v = None
                upd = (frame, ("t", node.d["dest"]), v)
        elif node.kind in ("yield", "yieldfrom", "enter") and (frame.func, ("t", node.d.get("dest"))) in flagvars:
            upd = (frame, ("t", node.d["dest"]), None)
        elif node.kind == "branch" and lab == "F" and node.d["cond"][0] == "t" and self.carry_terms:
            key = ("t", node.d["cond"][1])
            if (frame.func, key) in flagvars and not any(k[0] == "flag" and k[1] is frame and k[2] == key for k, _ in vals):
                upd = (frame, key, ("falsy",))
        if node.kind == "branch" and lab in ("T", "F") and upd is None:
            # a carried boolean that was just tested is a constant from here on
            cnd, truth = node.d["cond"], lab == "T"
            while cnd[:2] == ("u", "Not"):
                cnd, truth = cnd[2], not truth
            if cnd[0] in ("n", "t"):
                key = cnd[1] if cnd[0] == "n" else ("t", cnd[1])
                for k, x in vals:
                    if k[0] == "flag" and k[1] is frame and k[2] == key and is_boolean_term(x):
                        upd = (frame, key, ("c", truth))
                        break
        if upd is not None:
            fr, key, v = upd
            vals = frozenset((k, x) for k, x in vals if not (k[0] == "flag" and k[1] is fr and k[2] == key))
            if v is not None:
                vals = vals | {(("flag", fr, key), v)}
        # drop dead flags
        fr2 = nk2[0]
        if any(k[0] == "flag" for k, _ in vals):
            live = live_in(get_ir(fr2.func))[nk2[1].id]
            vals = frozenset(
                (k, x)
                for k, x in vals
                if k[0] != "flag" or k[1] is not fr2 or k[2] == "$ret" or k[2] in live
            )
        return vals

    def _loopheads(self):
        res = set()
        for nk in self.env:
            if nk[1].kind in ("loophead", "iter"):
                res.add(nk)
        return res

    @staticmethod
    def _known(vals, t) -> Optional[bool]:
        vals = [x for x in vals if x[0][0] != "flag"]
        for tt, b in vals:
            if tt == t:
                return b
        # x is None known False/True => truthiness of x
        if t[0] == "cmp" and t[1] == "Is" and ("c", None) in (t[2], t[3]):
            x = t[3] if t[2] == ("c", None) else t[2]
            for tt, b in vals:
                if tt == x and b:
                    return False
        for tt, b in vals:
            if tt[0] == "cmp" and tt[1] == "Is" and ("c", None) in (tt[2], tt[3]) and b:
                x = tt[3] if tt[2] == ("c", None) else tt[2]
                if x == t:
                    return False
        if t[0] == "cmp" and t[1] == "Eq":
            # x == "a" known true => x == "b" false
            for tt, b in vals:
                if b and tt[0] == "cmp" and tt[1] == "Eq":
                    for x, c in ((tt[2], tt[3]), (tt[3], tt[2])):
                        if c[0] == "c":
                            for y, d in ((t[2], t[3]), (t[3], t[2])):
                                if d[0] == "c" and x == y and c[1] != d[1]:
                                    return False
        if t[0] == "bool":
            ks = [Flow._known_pol(vals, x) for x in t[2]]
            if t[1] == "And":
                if any(k is False for k in ks):
                    return False
                if all(k is True for k in ks):
                    return True
            else:
                if any(k is True for k in ks):
                    return True
                if all(k is False for k in ks):
                    return False
        return None

    @staticmethod
    def _known_pol(vals, x):
        t, pol = norm_cond(x)
        ct = const_truth(t)
        if ct is None:
            ct = Flow._known(vals, t)
        if ct is None:
            return None
        return ct if pol else not ct

    @staticmethod
    def _learn(vals, t, val):
        if t[0] == "bool":
            # And true -> all true; Or false -> all false
            if (t[1] == "And" and val) or (t[1] == "Or" and not val):
                v = vals
                for x in t[2]:
                    tt, pol = norm_cond(x)
                    want = val if pol else not val
                    k = Flow._known(v, tt)
                    if k is not None and k != want:
                        return None
                    v = Flow._learn(v, tt, want)
                    if v is None:
                        return None
                return v | {(t, val)}
        return vals | {(t, val)}

    def witness(self, cur=None, limit=40) -> List[str]:
        """path of the current simulation state (source lines)"""
        cur = cur or self.sim_cur
        res = []
        last = None
        while cur is not None:
            nk = cur[0]
            if nk[1].line:
                s = self.loc(nk)
                if s != last:
                    res.append(s)
                    last = s
            cur = self.sim_parent.get(cur)
        res.reverse()
        if len(res) > limit:
            res = res[: limit // 2] + ["..."] + res[-limit // 2 :]
        return res


def is_boolean_term(t) -> bool:
    """the value is a bool (not just truthy)"""
    if t[0] in ("cmp", "bsym") or t[:2] == ("u", "Not"):
        return True
    if t[0] == "bool":
        return all(is_boolean_term(x) for x in t[2])
    if t[0] == "call":
        k = t[1]
        return k[0] == "ext" and str(k[1]).split(".")[-1] in BOOL_CALLS
    return False


BOOL_CALLS = {"any", "all", "isinstance", "issubclass", "hasattr", "exists", "isfile", "isdir", "callable", "isinf", "isnan", "isfinite"}


def _bool_call_ir(fn) -> bool:
    return (fn[0] == "n" and fn[1] in BOOL_CALLS) or (fn[0] == "a" and fn[2] in BOOL_CALLS)


def implied_atoms(t, val):
    """the condition itself and all (normalised) atoms that follow from it"""
    res = [(t, val)]
    if t[0] == "bool" and (t[1] == "And") == val and t[1] in ("And", "Or"):
        for x in t[2]:
            x1, pol = norm_cond(x)
            res += implied_atoms(x1, val == pol)
    return res


def cond_atom(t):
    if t[0] == "cmp":
        if t[2][0] == "c":
            return t[3]
        if t[3][0] == "c":
            return t[2]
    return t


_phi_cache: Dict[tuple, bool] = {}


def has_phi(t) -> bool:
    r = _phi_cache.get(t)
    if r is None:
        r = _phi_cache[t] = any(x[0] == "phi" for x in subterms(t))
    return r


def cond_keys(t):
    yield t
    if t[0] == "bool":
        for x in t[2]:
            tt, _ = norm_cond(x)
            yield from cond_keys(tt)


def default_pure(t) -> bool:
    k = t[1]
    if k[0] == "ext" and k[1] in ("isinstance", "len", "hasattr", "bool", "int", "float", "callable", "issubclass"):
        return True
    return False


# ---------------------------------------------------------------------- static call graph

_callee_cache: Dict[int, List[Func]] = {}


def static_callees(p: Project, f: Func) -> List[Func]:
    """callees resolvable without environments"""
    k = id(f.node)
    if k in _callee_cache:
        return _callee_cache[k]
    res: List[Func] = []
    _callee_cache[k] = res

    def add(g):
        if isinstance(g, Class):
            g = p.find_method(g, "__init__")
        if isinstance(g, Func) and g not in res:
            res.append(g)

    owner = f
    while owner is not None and owner.cls is None:
        owner = owner.parent
    cls = owner.cls if owner else None
    for n in walk_own(f.node):
        if not isinstance(n, ast.Call):
            continue
        fe = n.func
        if isinstance(fe, ast.Attribute):
            v = fe.value
            if isinstance(v, ast.Name) and v.id in ("self", "cls") and cls is not None:
                g = p.find_method(cls, fe.attr)
                if g is not None:
                    add(g)
                continue
            if (
                isinstance(v, ast.Call)
                and isinstance(v.func, ast.Name)
                and v.func.id == "super"
                and cls is not None
            ):
                add(p.find_method(cls, fe.attr, after=cls))
                continue
            if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == "self" and cls:
                for c in p.attr_types(cls).get(v.attr, ()):
                    add(p.find_method(c, fe.attr))
        d = dotted_name(fe)
        if d:
            r = p.resolve_name(f, f.module, d)
            if isinstance(r, (Func, Class)):
                add(r)
        if isinstance(fe, ast.Name) and fe.id in f.nested:
            add(f.nested[fe.id])
    for g in f.nested.values():
        pass
    return res


class Relevance:
    """functions that may (transitively) contain a trigger"""

    def __init__(self, p: Project, trigger: Callable[[Func], bool], max_depth=8):
        self.p = p
        self.trigger = trigger
        self.max_depth = max_depth
        self.cache: Dict[Func, bool] = {}

    def __call__(self, f: Func) -> bool:
        if f in self.cache:
            return self.cache[f]
        # bfs
        seen = {f}
        frontier = [f]
        for _ in range(self.max_depth):
            nxt = []
            for g in frontier:
                if self.trigger(g):
                    self.cache[f] = True
                    return True
                for h in static_callees(self.p, g):
                    if h not in seen:
                        seen.add(h)
                        nxt.append(h)
            frontier = nxt
            if not frontier:
                break
        self.cache[f] = False
        return False


def names_used(f: Func) -> Set[str]:
    s = getattr(f, "_names_used", None)
    if s is None:
        s = set()
        for n in walk_own(f.node):
            if isinstance(n, ast.Attribute):
                s.add(n.attr)
            elif isinstance(n, ast.Name):
                s.add(n.id)
        f._names_used = s
    return s


def relevance_by_names(p: Project, names: Set[str], max_depth=8) -> Relevance:
    return Relevance(p, lambda f: bool(names_used(f) & names), max_depth)


def fmt(t, depth=0) -> str:
    """human readable term"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if depth > 6:
        return "…"
    d = depth + 1
    if k == "c":
        return repr(t[1])
    if k == "self":
        return "self"
    if k == "param":
        return t[2]
    if k == "attr":
        return f"{fmt(t[1], d)}.{t[2]}"
    if k == "sub":
        return f"{fmt(t[1], d)}[{fmt(t[2], d)}]"
    if k == "cat":
        return "+".join(fmt(x, d) for x in t[1])
    if k == "call":
        key = t[1]
        if key[0] == "m":
            n = f"{fmt(key[1], d)}.{key[2]}"
        else:
            n = str(key[1]).split(":")[-1] if key[0] != "v" else fmt(key[1], d)
        return f"{n}({', '.join([fmt(x, d) for x in t[2]] + [f'{a}={fmt(b, d)}' for a, b in t[3]])})"
    if k == "phi":
        return "{" + " | ".join(fmt(x, d) for x in sorted(t[1], key=repr)) + "}"
    if k == "cmp":
        return f"({fmt(t[2], d)} {t[1]} {fmt(t[3], d)})"
    if k == "lin":
        return "(" + " + ".join([f"{c}*{fmt(x, d)}" if c != 1 else fmt(x, d) for x, c in t[2]] + ([str(t[1])] if t[1] else [])) + ")"
    if k in ("g", "gv", "func", "cls", "mod"):
        return str(t[1])
    if k in ("tup", "list", "setlit"):
        return "(" + ", ".join(fmt(x, d) for x in t[1]) + ")"
    if k == "u":
        return f"{t[1]} {fmt(t[2], d)}"
    if k == "bool":
        return "(" + f" {t[1]} ".join(fmt(x, d) for x in t[2]) + ")"
    if k == "elem":
        return f"elem({fmt(t[1], d)})"
    if k == "undef":
        return f"undef:{t[2]}"
    if not isinstance(k, str):
        return "(" + ", ".join(fmt(x, d) for x in t) + ")"
    return k + "(" + ",".join(fmt(x, d) if isinstance(x, tuple) else str(x)[:30] for x in t[1:]) + ")"
