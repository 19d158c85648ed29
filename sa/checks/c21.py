"""
C21 scoped settings are restored on every exit.

Save/restore typestate analysis of all context managers of the package (generator functions with @contextmanager,
classes with __enter__/__exit__): every non-local location which is changed on entry has its entry value again
on every exit, normal or exceptional.
"""

from __future__ import annotations
import ast
from typing import Dict, List, Optional, Set, Tuple
from ..flow import Flow, fmt, alts, subterms, contains
from ..project import Project, Func, Class, walk_own
from .common import self_name

OPEN_CLOSE = {
    "append": {"pop", "remove", "clear"},
    "appendleft": {"popleft", "remove"},
    "add": {"remove", "discard", "pop"},
    "extend": {"remove", "pop"},
    "files_extend": {"files_remove"},
    "push": {"pop"},
    "acquire": {"release"},
    "lock": {"unlock"},
    "enter": {"exit"},
    "__enter__": {"__exit__"},
    "increment": {"decrement"},
    "start": {"stop", "terminate", "join"},
    "enable": {"disable"},
    "disable": {"enable"},
}
SKIP_DIRS = ("returnn.extern.",)


def check(p: Project, rep):
    rep.rule("R1", "each non-local location which a context manager changes on entry has its previous value again on every exit, normal or with an exception in the body")
    rep.rule("R2", "each context manager function yields exactly once on every path")
    rep.rule("R3", "a context manager which changes settings does not swallow exceptions of the body")
    rep.rule("R4", "what __enter__ of a context manager class changes or opens is restored or closed by __exit__ on every path")
    rep.rule("R5", "a context manager is used as a scope, its call result is never thrown away")
    cms = [f for f in p.all_funcs() if _is_cm(f) and not f.module.name.startswith(SKIP_DIRS)]
    rep.need("R1", len(cms), 10, "context manager functions")
    n_state = 0
    for f in cms:
        n_state += _gen_cm(p, rep, f)
    n_cls = 0
    for c in p.all_classes():
        if c.module.name.startswith(SKIP_DIRS):
            continue
        en, ex = c.methods.get("__enter__"), c.methods.get("__exit__")
        if en is not None and ex is not None:
            n_cls += 1
            _cls_cm(p, rep, c, en, ex)
    _uses(p, rep, {f.name for f in cms}, cms)
    rep.ok("R1", f"{len(cms)} context manager functions, {n_state} with changed locations, {n_cls} classes")


def _is_cm(f: Func):
    for d in getattr(f.node, "decorator_list", ()):
        s = ast.unparse(d)
        if s.split(".")[-1] in ("contextmanager", "asynccontextmanager"):
            return f.is_generator
    return False


# ---------------------------------------------------------------------------------------------------------- locations


def _nonlocal_base(t) -> bool:
    """is this object shared, i.e. not created in this call?"""
    if t[0] in ("new", "list", "dict", "tup", "comp", "c", "undef", "set"):
        return False
    if t[0] == "phi":
        return any(_nonlocal_base(x) for x in alts(t))
    if t[0] in ("enter", "entered"):
        return False  # object which lives as long as an inner scope
    if t[0] == "call":
        if t[1][0] == "m" and t[1][2] in ("copy", "items", "values", "keys"):
            return False
        if t[1][0] in ("cls",) or t[1] in (("ext", "dict"), ("ext", "list"), ("ext", "set"), ("ext", "open")):
            return False
    return True


class Locs:
    def __init__(self, fl: Flow, own_self=None, setters=()):
        self.fl = fl
        self.own_self = own_self  # term of the context manager object itself (its own attributes are not shared)

    def writes(self, nk):
        """list of (loc, value term or DEL)"""
        fl, n = self.fl, nk[1]
        res = []
        if n.kind in ("assign", "del"):
            tgt = n.d["target"]
            v = fl.term(nk, n.d["value"]) if n.kind == "assign" else ("deleted",)
            if n.d.get("aug"):
                v = ("aug", v)
            res += self._target(nk, tgt, v)
        c = fl.calls.get(nk)
        if c is not None and n.kind == "call" and nk not in fl.inlined:
            ext = c.ext()
            nm = c.name or (ext or "").split(".")[-1] or (c.funcs()[0].name if c.funcs() else "")
            if ext == "setattr" or (c.func == ("ext", "setattr")):
                if len(c.args) == 3 and _nonlocal_base(c.args[0]):
                    res.append((("attr", c.args[0], _key(c.args[1])), c.args[2]))
            elif ext == "delattr" and len(c.args) == 2:
                res.append((("attr", c.args[0], _key(c.args[1])), ("deleted",)))
            elif c.recv is not None and nm == "pop" and c.args and self._is_env(c.recv):
                res.append((("item", c.recv, _key(c.args[0])), ("deleted",)))
            elif self._api(nm) and c.args and not any(_is_cm(g) or not _is_setter(g) for g in c.funcs()) and not c.classes():
                i = self._value_arg(c, nm)
                res.append((("api", self._ns(c, nm), self._api(nm)), c.args[i]))
        return res

    @staticmethod
    def _is_env(t):
        return any(x in (("ext", "os.environ"), ("g", "os.environ"), ("gv", "os.environ")) or (x[0] == "attr" and x[2] == "environ") for x in alts(t)) or "environ" in fmt(t)

    def _target(self, nk, tgt, v):
        fl = self.fl
        k = tgt[0]
        if k == "n":
            fr = nk[0]
            from ..project import local_vars

            name = tgt[1]
            while fr is not None:
                if name in local_vars(fr.func) or "@" in name or name in fr.func.nested or name in fr.func.nested_classes:
                    return []
                if fr.closure is None:
                    break
                fr = fr.closure
            return [(("global", f"{nk[0].func.module.name}.{name}"), v)]
        if k == "a":
            base = fl.term(nk, tgt[1])
            if base[0] in ("mod", "g"):
                return [(("global", f"{base[1]}.{tgt[2]}"), v)]
            if base == self.own_self or not _nonlocal_base(base):
                return []
            return [(("attr", base, tgt[2]), v)]
        if k == "sub":
            base = fl.term(nk, tgt[1])
            if not _nonlocal_base(base) or self._own(base):
                return []
            return [(("item", base, _key(fl.term(nk, tgt[2]))), v)]
        if k in ("tup", "tuple", "list"):
            res = []
            for x in tgt[1]:
                res += self._target(nk, x, ("part", v))
            return res
        return []

    def _own(self, base):
        return self.own_self is not None and base[0] == "attr" and base[1] == self.own_self

    @staticmethod
    def _api(nm):
        """set_X / _set_X / settrace -> X"""
        if not nm:
            return None
        s = nm.lstrip("_")
        if s.startswith("set_") and len(s) > 4:
            return s[4:]
        if s in ("settrace", "setprofile", "setrecursionlimit", "setswitchinterval", "setdefaulttimeout"):
            return s[3:]
        if s == "chdir":
            return "cwd"
        return None

    def _value_arg(self, c, nm):
        return len(c.args) - 1 if not (c.ext() or "").startswith("torch.") else 0

    @staticmethod
    def _ns(c, nm):
        return ""

    def reads(self, nk):
        """locs which are read by a getter call or an attribute read at this node"""
        fl, n = self.fl, nk[1]
        res = []
        c = fl.calls.get(nk)
        if c is not None and n.kind == "call":
            ext = c.ext()
            nm = c.name or (ext or "").split(".")[-1] or (c.funcs()[0].name if c.funcs() else "")
            g = _getter(nm)
            if g:
                res.append(("api", "", g))
            if ext == "getattr" and len(c.args) >= 2:
                res.append(("attr", c.args[0], _key(c.args[1])))
            if nm in ("get", "getenv") and c.args:
                if nm == "getenv":
                    res.append(("env", _key(c.args[0])))
                elif c.recv is not None:
                    res.append(("item", c.recv, _key(c.args[0])))
        return res

    def is_initial(self, loc, v, extra=()):
        """is this the value which loc had on entry?"""
        if v[0] == "phi":
            a = alts(v)
            return any(self.is_initial(loc, x, extra) for x in a) and all(self.is_initial(loc, x, extra) or x == ("c", None) for x in a)
        if (loc, v) in extra:
            return True
        if loc[0] == "global":
            return v == ("gv", loc[1]) or (v[0] in ("attr", "ext", "g") and fmt(v) == loc[1]) or v == ("ext", loc[1])
        if loc[0] == "attr":
            if v == ("attr", loc[1], loc[2]):
                return True
            # property which returns the attribute is folded by the flow analysis; dynamic names:
            for x in subterms(v):
                if x[0] == "call" and x[1] == ("ext", "getattr") and len(x[2]) >= 2 and x[2][0] == loc[1]:
                    if loc[2] == "*" or _key(x[2][1]) in (loc[2], "*"):
                        return v[0] in ("call", "val", "item", "sub", "elem")
            if v[0] == "attr" and v[1] == loc[1] and v[2].lstrip("_") == str(loc[2]).lstrip("_"):
                return True
            return False
        if loc[0] == "item":
            if v[0] == "sub" and v[1] == loc[1] and _key(v[2]) == loc[2]:
                return True
            if v[0] == "call" and v[1][0] == "m" and v[1][2] in ("get", "pop") and v[1][1] == loc[1] and v[2] and _key(v[2][0]) == loc[2]:
                return True
            if v[0] == "call" and str(v[1][-1]).endswith(("getenv", "environ.get")) and v[2] and _key(v[2][0]) == loc[2]:
                return True
            return False
        if loc[0] == "api":
            for x in subterms(v):
                if x[0] == "call" and _getter(str(x[1][-1]).replace(":", ".").split(".")[-1]) == loc[2]:
                    return v[0] in ("call", "val", "item", "sub", "elem")
            return False
        return False


def _getter(nm):
    if not nm:
        return None
    s = nm.lstrip("_")
    if s.startswith("get_") and len(s) > 4:
        return s[4:]
    if s in ("gettrace", "getprofile", "getrecursionlimit", "getswitchinterval", "getdefaulttimeout"):
        return s[3:]
    if s == "getcwd":
        return "cwd"
    return None


def _is_setter(g: Func):
    """in-repo function set_X with a counterpart get_X"""
    x = Locs._api(g.name)
    if x is None:
        return False
    names = set(g.module.functions) | (set(g.cls.methods) if g.cls is not None else set())
    return any(_getter(n) == x for n in names)


def _key(t):
    if t[0] == "c":
        return t[1]
    if t[0] in ("param", "attr", "self", "freevar", "gv"):
        return t
    return "*"


def _show(loc):
    if loc[0] == "global":
        return loc[1]
    if loc[0] == "attr":
        return f"{fmt(loc[1])}.{loc[2] if isinstance(loc[2], str) else fmt(loc[2])}"
    if loc[0] == "item":
        return f"{fmt(loc[1])}[{fmt(loc[2]) if isinstance(loc[2], tuple) else loc[2]!r}]"
    if loc[0] == "open":
        return f"{fmt(loc[1])} ({loc[2]})"
    return f"setting {loc[2]}"


# ---------------------------------------------------------------------------------------------------------- analysis


def _opens(fl, nk, own_self):
    c = fl.calls.get(nk)
    if c is None or nk in fl.inlined or nk[1].kind != "call" or c.recv is None:
        return None
    if c.name in OPEN_CLOSE and _nonlocal_base(c.recv) and not _local_cm(c.recv):
        return ("open", c.recv, c.name)
    return None


def _local_cm(t):
    return t[0] in ("call", "enter") and not (t[0] == "call" and t[1][0] in ("m", "func"))


def _closes(fl, nk):
    c = fl.calls.get(nk)
    if c is None or nk[1].kind != "call" or c.recv is None:
        return None
    return (c.recv, c.name)


def _restoring_loops(fl, locs, extra):
    """iter node -> locs which its body certainly restores"""
    from .c20 import _body

    res = {}
    for nk in fl.env:
        if nk[1].kind != "iter" or nk[1].d.get("comp"):
            continue
        body = _body(fl, nk)
        rs = []
        for k in body:
            for loc, v in locs.writes(k):
                if locs.is_initial(loc, v, extra):
                    rs.append((loc, k))
            cl = _closes(fl, k)
            if cl is not None:
                rs.append((("close",) + cl, k))
        if rs:
            res[nk] = rs
    return res


def _inline(p, f):
    def pred(g):
        if g.is_generator or g is f:
            return False
        if any(isinstance(n, ast.Global) for n in walk_own(g.node)):
            return True
        if f.cls is not None and g.cls is f.cls and g.name.startswith("_") and not g.name.startswith("__"):
            return len(list(ast.walk(g.node))) < 400
        if g.module is f.module and g.cls is None and g.name.startswith("_") and not _getter(g.name) and not _is_setter(g):
            return len(list(ast.walk(g.node))) < 300
        return False

    return pred


def _gen_cm(p, rep, f: Func) -> int:
    fl = Flow(f, cls=f.cls, inline=_inline(p, f), max_depth=2)
    own = None
    locs = Locs(fl, None)
    extra = ()
    loops = _restoring_loops(fl, locs, extra)
    bad: Dict = {}
    touched: Set = set()
    yields = [nk for nk in fl.env if nk[1].kind in ("yield", "yieldfrom")]

    # state: (number of yields, exception from the body, dirty, late, none facts)
    def step(nk, st, lab):
        ny, exc, dirty, late, none = st
        n = nk[1]
        if n.kind in ("yield", "yieldfrom") and nk[0] is fl.root:
            if ny >= 1:
                bad.setdefault(("R2", "twice"), (n.line, "yields more than once on a path", None))
            return (min(ny + 1, 2), exc or lab == "exc", dirty, late, none)
        if lab == "exc":
            return st
        for loc in locs.reads(nk):
            for d in dirty:
                if _matches(d, loc):
                    late = late | {d}
        ws = locs.writes(nk)
        for loc, v in ws:
            touched.add(loc)
            if any(_matches(l[1], loc) for l in none if l[0] == "lazy"):
                continue
            initial = locs.is_initial(loc, v, extra) and not any(_matches(d, loc) for d in late)
            if v == ("c", None) and any(_matches(l, loc) and val for l, val in none if l != "lazy"):
                initial = True
            if v == ("deleted",):
                initial = any(_matches(l, loc) and val for l, val in none if l != "lazy")
                if not any(_matches(d, loc) for d in dirty):
                    continue
            if initial:
                dirty = frozenset(d for d in dirty if not _matches(d, loc))
            else:
                if ny == 0:
                    dirty = dirty | {loc}
                else:
                    if any(_matches(d, loc) for d in dirty):
                        dirty = frozenset(d for d in dirty if not _matches(d, loc)) | {loc + (("wrong", n.line, fmt(v)[:60]),)}
        o = _opens(fl, nk, own)
        if o is not None:
            touched.add(o)
            if ny == 0:
                dirty = dirty | {o}
        cl = _closes(fl, nk)
        if cl is not None:
            dirty = frozenset(d for d in dirty if not (d[0] == "open" and d[1] == cl[0] and cl[1] in OPEN_CLOSE[d[2]]))
        if n.kind == "iter" and lab == "done" and nk in loops:
            for loc, k in loops[nk]:
                if loc[0] == "close":
                    dirty = frozenset(d for d in dirty if not (d[0] == "open" and d[1] == loc[1] and loc[2] in OPEN_CLOSE[d[2]]))
                else:
                    if not any(_matches(d, loc) for d in late):
                        dirty = frozenset(d for d in dirty if not _matches(d, loc))
        return (ny, exc, dirty, late, none)

    def hook(nk, st, t, val):
        ny, exc, dirty, late, none = st
        if t[0] == "call" and t[1] == ("ext", "hasattr") and len(t[2]) == 2 and not val:
            # created when it does not exist yet
            none = none | {("lazy", ("attr", t[2][0], _key(t[2][1])))}
        if t[0] == "gv" and not val and not dirty:
            none = none | {(("global", t[1]), True)}
        elif t[0] == "cmp" and t[1] == "Is" and ("c", None) in t[2:]:
            x = t[2] if t[3] == ("c", None) else t[3]
            for d in dirty:
                if locs.is_initial(d[:3], x, extra):
                    none = none | {(d, val)}
            if x[0] == "gv" and not dirty:
                none = none | {(("global", x[1]), val)}
        elif t[0] == "cmp" and t[1] == "In":
            for d in dirty:
                if d[0] == "item" and d[1] == t[3] and _key(t[2]) == d[2]:
                    none = none | {(d, not val)}
        return (ny, exc, dirty, late, none)

    def ef(nk, lab, nk2):
        if nk[1].kind == "raise" and nk[1].d.get("is_assert"):
            return False
        if lab != "exc":
            return True
        return nk[1].kind in ("yield", "yieldfrom", "raise", "dispatch", "except")

    def on_end(nk, st, kind):
        ny, exc, dirty, late, none = st
        if ny == 0:
            if kind == "exit":
                bad.setdefault(("R2", "none"), (f.node.lineno, "a path ends without a yield", None))
            return
        if exc and kind == "exit" and touched:
            bad.setdefault(("R3", "swallow"), (f.node.lineno, "an exception of the body is swallowed", None))
        for d in dirty:
            how = "after an exception in the body" if exc or kind == "excexit" else "on normal exit"
            if isinstance(d[-1], tuple) and d[-1] and d[-1][0] == "wrong":
                bad.setdefault(("R1", _show(d[:3])), (d[-1][1], f"{_show(d)} is not set back to its previous value but to {d[-1][2]}", None))
            else:
                bad.setdefault(("R1", _show(d)), (f.node.lineno, f"{_show(d)} is changed for the scope but not restored {how}" + (" (saved only after it was changed)" if d in late else ""), fl.witness()))

    init = (0, False, frozenset(), frozenset(), frozenset())
    ns = fl.simulate(init, step, cond_hook=hook, on_end=on_end, edge_filter=ef)
    rep.flow(fl, ns)
    for (rule, c), (line, msg, w) in sorted(bad.items(), key=repr):
        rep.bad(rule, f.where, c, msg, line, **({"witness": w} if w else {}))
    if not bad:
        if touched:
            rep.ok("R1", f"{f.where}: {', '.join(sorted(_show(x) for x in touched))}; {len(yields)} yields, {ns} states")
        else:
            rep.ok("R2", f"{f.where}: no non-local change; {len(yields)} yields, {ns} states")
    return 1 if touched else 0


def _matches(d, loc):
    if d[0] != loc[0]:
        return False
    if d[0] == "open":
        return False
    if d[0] == "global":
        return d[1] == loc[1]
    if d[1] != loc[1]:
        return False
    return d[2] == loc[2]


def _cls_cm(p, rep, cls: Class, en: Func, ex: Func):
    own = None
    fl = Flow(en, cls=cls, inline=_inline(p, en), max_depth=2)
    self_t = None
    for nk in fl.env:
        if nk[1].kind == "entry" and nk[0] is fl.root:
            self_t = fl.term(nk, ("n", self_name(en)))
    locs = Locs(fl, self_t)
    ends: Set = set()
    saved: Dict = {}  # attr of self -> terms
    for nk in fl.env:
        n = nk[1]
        if n.kind == "assign" and n.d["target"][0] == "a" and fl.term(nk, n.d["target"][1]) == self_t:
            saved.setdefault(n.d["target"][2], []).append((nk, fl.term(nk, n.d["value"])))

    def step(nk, st, lab):
        dirty, late = st
        if lab == "exc":
            return None
        for loc in locs.reads(nk):
            for d in dirty:
                if _matches(d, loc):
                    late = late | {d}
        for loc, v in locs.writes(nk):
            if locs.is_initial(loc, v):
                dirty = frozenset(d for d in dirty if not _matches(d, loc))
            else:
                dirty = dirty | {loc}
        o = _opens(fl, nk, self_t)
        if o is None:
            c = fl.calls.get(nk)
            if c is not None and nk[1].kind == "call" and c.recv is not None and c.recv == self_t and c.name in OPEN_CLOSE:
                o = ("open", c.recv, c.name)
        if o is not None and not (o[1][0] == "attr" and o[1][1] == self_t and o[2] in ("append", "add", "extend") and _own_container(p, cls, o[1][2])):
            dirty = dirty | {o}
        return (dirty, late)

    def on_end(nk, st, kind):
        if kind == "exit":
            ends.add(st)

    ns = fl.simulate((frozenset(), frozenset()), step, on_end=on_end)
    rep.flow(fl, ns)
    start = frozenset()
    late = frozenset()
    for d, l in ends:
        start |= d
        late |= l
    # only what __exit__ (or a helper) touches again, or what was saved, is a scoped setting
    fx = Flow(ex, cls=cls, inline=_inline(p, ex), max_depth=2)
    lx = Locs(fx, self_t)
    wx = set()
    closes = set()
    for nk in fx.env:
        for loc, v in lx.writes(nk):
            wx.add(loc)
        c = _closes(fx, nk)
        if c is not None:
            closes.add(c)
    other_closes = set()
    for m in cls.methods.values():
        if m in (en, ex):
            continue
        for n in ast.walk(m.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                other_closes.add((ast.unparse(n.func.value), n.func.attr))
    oblig = set()
    extra = set()
    for d in start:
        sv = [a for a, lst in saved.items() for nk, v in lst if locs.is_initial(d, v)]
        for a in sv:
            extra.add((d, ("attr", self_t, a)))
        if d[0] == "open":
            src = fmt(d[1])
            if any(src.endswith(s.split(".")[-1]) and a in OPEN_CLOSE[d[2]] for s, a in other_closes):
                continue  # closed by another method, at a time which is not the exit
            oblig.add(d)
        elif sv or any(_matches(d, w) for w in wx):
            oblig.add(d)
    if not oblig:
        rep.ok("R4", f"{cls.full}: no shared state is changed on enter")
        return
    loops = _restoring_loops(fx, lx, extra)
    bad: Dict = {}

    def xstep(nk, st, lab):
        dirty = st
        if lab == "exc":
            return st
        for loc, v in lx.writes(nk):
            if lx.is_initial(loc, v, extra) and loc not in late:
                dirty = frozenset(d for d in dirty if not _matches(d, loc))
        cl = _closes(fx, nk)
        if cl is not None:
            dirty = frozenset(d for d in dirty if not (d[0] == "open" and d[1] == cl[0] and cl[1] in OPEN_CLOSE[d[2]]))
        if nk[1].kind == "iter" and lab == "done" and nk in loops:
            for loc, k in loops[nk]:
                if loc[0] == "close":
                    dirty = frozenset(d for d in dirty if not (d[0] == "open" and d[1] == loc[1] and loc[2] in OPEN_CLOSE[d[2]]))
                else:
                    dirty = frozenset(d for d in dirty if not _matches(d, loc))
        return dirty

    def ef(nk, lab, nk2):
        if nk[1].kind == "raise" and nk[1].d.get("is_assert"):
            return False
        return lab != "exc" or nk[1].kind in ("raise", "dispatch", "except")

    def xend(nk, st, kind):
        for d in st:
            bad.setdefault(_show(d), f"{_show(d)} is {'opened' if d[0] == 'open' else 'changed'} by __enter__ but not {'closed' if d[0] == 'open' else 'restored'} on a path through __exit__")

    ns = fx.simulate(frozenset(oblig), xstep, on_end=xend, edge_filter=ef)
    rep.flow(fx, ns)
    for c, msg in sorted(bad.items()):
        rep.bad("R4", ex.where, c, msg, ex.node.lineno)
    # what __enter__ saved must not be clobbered
    if not bad:
        rep.ok("R4", f"{cls.full}: {', '.join(sorted(_show(d) for d in oblig))}; {ns} states")


def _own_container(p, cls, attr):
    """container which belongs to this object (created in __init__), not shared by the class"""
    init = p.find_method(cls, "__init__")
    if init is None:
        return False
    s = self_name(init)
    for n in ast.walk(init.node):
        if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == s:
            return True
    return False


def _uses(p, rep, names, cms):
    by_name: Dict[str, List[Func]] = {}
    for f in cms:
        by_name.setdefault(f.name, []).append(f)
    # names which also denote other functions are only considered when resolved
    others = {f.name for f in p.all_funcs() if f.name in names and f not in cms}
    n_uses = 0
    for f in p.all_funcs():
        for s in walk_own(f.node):
            if isinstance(s, ast.Call):
                nm = s.func.attr if isinstance(s.func, ast.Attribute) else s.func.id if isinstance(s.func, ast.Name) else None
                if nm in names and nm not in others:
                    n_uses += 1
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                c = s.value
                nm = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None
                if nm in names and nm not in others:
                    rep.bad("R5", f.where, nm, f"the scope {nm}() is created but never entered: the setting has no effect", s.lineno)
    rep.ok("R5", f"{n_uses} uses of {len(names)} context managers")
