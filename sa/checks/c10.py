"""
C10 data order is a deterministic function of configuration and epoch.
"""

from __future__ import annotations
import ast
from typing import Dict, List, Optional, Set
from ..flow import Flow, alts, fmt, subterms, relevance_by_names
from ..project import Project, Func, Class, dotted_name, walk_own
from .common import self_name, self_attr_stores
from . import hashorder

SCOPE = ("returnn.datasets", "returnn.torch.data")
DATASET = "returnn.datasets.basic.Dataset"

RNG_CTORS = {
    "numpy.random.RandomState",
    "numpy.random.default_rng",
    "numpy.random.Generator",
    "numpy.random.PCG64",
    "numpy.random.MT19937",
    "numpy.random.SeedSequence",
    "random.Random",
}
ALWAYS_BAD_CTORS = {"random.SystemRandom"}
GLOBAL_OK = {"get_state", "getstate", "RandomState", "Random", "Generator", "SeedSequence", "PCG64", "MT19937", "default_rng", "BitGenerator", "seed"}
# sources of values that differ between processes/runs
SOURCES = {
    "time.time", "time.time_ns", "time.monotonic", "time.monotonic_ns", "time.perf_counter", "time.perf_counter_ns", "time.process_time",
    "time.clock", "time.localtime", "time.gmtime", "time.ctime", "time.strftime", "time.asctime",
    "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today",
    "os.getpid", "os.getppid", "os.urandom", "os.times", "os.getrandom",
    "uuid.uuid1", "uuid.uuid4", "uuid.getnode",
    "threading.get_ident", "threading.get_native_id", "threading.current_thread",
    "multiprocessing.current_process", "socket.gethostname", "platform.node",
    "hash", "id", "object",
    "tempfile.mktemp", "tempfile.mkstemp", "tempfile.mkdtemp", "tempfile.gettempprefix",
}  # fmt: skip
SOURCE_PREFIXES = ("secrets.", "uuid.")
UNORDERED_CALLS = {"imap_unordered", "as_completed"}
LISTING = {"os.listdir", "os.scandir", "os.walk", "glob.glob", "glob.iglob", "pathlib.Path.glob", "pathlib.Path.iterdir"}
SEED_METHODS = {"seed", "set_state", "setstate"}


def in_scope(m) -> bool:
    return any(m.name == s or m.name.startswith(s + ".") for s in SCOPE)


def _ext(p: Project, f: Optional[Func], m, e) -> Optional[str]:
    """external dotted name of an expression"""
    d = dotted_name(e)
    if not d:
        return None
    r = p.resolve_name(f, m, d)
    if isinstance(r, str):
        return r if not r.startswith("np.") else "numpy." + r[3:]
    return None


def is_source(ext: Optional[str]) -> bool:
    return ext is not None and (ext in SOURCES or ext.startswith(SOURCE_PREFIXES))


class Ctx:
    def __init__(self, p, rep):
        self.p = p
        self.rep = rep
        self.funcs = [f for f in p.all_funcs() if in_scope(f.module)]
        self.nd_cache: Dict[Func, Optional[str]] = {}
        self.flows: Dict = {}


def check(p: Project, rep):
    rep.rule("S1", "no use of the process-global random generators (numpy.random.*, random.*) in the data pipeline")
    rep.rule("S2", "every random generator is seeded explicitly, or re-seeded at the start of each pass over the data")
    rep.rule("S3", "seeds and orders do not come from time, process ids, object hashes/ids, directory listing order, completion order or earlier epochs")
    rep.rule("S4", "no sequence order or index is derived from the iteration order of a set")
    rep.rule("R4", "every random generator held by a dataset is re-seeded whenever a new epoch order is initialised; aliased ones in place")
    rep.rule("R5", "the epoch seed is a function of the epoch and of configuration only")
    rep.rule("R7", "nothing that outlives the epoch is shuffled in place (the order would accumulate over epochs)")
    rep.rule("R6", "the trainer seeds the global generators from epoch and configuration on every path that starts an epoch")
    c = Ctx(p, rep)
    for f in c.funcs:
        rep.analysed(f)
    _global_rng(c)
    _sources(c)
    _seed_args(c)
    _datasets(c)
    _pipes(c)
    _epoch_seed(c)
    _engine(c)
    _in_place(c)
    hashorder.check(p, rep, "S4", [f for f in c.funcs])


# --- S1 / S2 / S3 syntactic parts


def _calls(f: Func):
    for n in walk_own(f.node):
        if isinstance(n, ast.Call):
            yield n


def walk_lam(f: Func):
    """own nodes, including lambda bodies"""
    for n in walk_own(f.node):
        if isinstance(n, ast.Lambda):
            yield from ast.walk(n)
        else:
            yield n


def _global_rng(c: Ctx):
    rep = c.rep
    n_ok = 0
    for f in c.funcs:
        for n in walk_lam(f):
            if not isinstance(n, (ast.Attribute, ast.Name)) or not isinstance(n.ctx, ast.Load):
                continue
            ext = _ext(c.p, f, f.module, n)
            if ext is None:
                continue
            bad = False
            if ext.startswith("numpy.random.") and ext.count(".") == 2:
                name = ext.split(".")[2]
                bad = name[:1].islower() and name not in GLOBAL_OK or name in ("seed", "mtrand")
            elif ext.startswith("random.") and ext.count(".") == 1:
                name = ext.split(".")[1]
                bad = name[:1].islower() and name not in GLOBAL_OK or name in ("seed", "SystemRandom")
            elif ext in ("numpy.random", "random") and not _only_attr_base(f, n):
                bad = True  # the module itself used as a generator
            elif ext in ("torch.rand", "torch.randn", "torch.randint", "torch.randperm", "torch.seed", "torch.bernoulli", "torch.multinomial"):
                bad = f.module.name.startswith("returnn.datasets") and not _has_kw(f, n, "generator")
            if bad and not _dead_loop(c.p, f, n):
                rep.bad("S1", f.where, ext, f"uses the global random state ({ext}); data order then depends on what else runs in the process", n.lineno)
            elif ext in RNG_CTORS:
                n_ok += 1
                rep.ok("S1", f"{f.where}: own generator {ext}")
    if not n_ok:
        rep.ok("S1")


def _dead_loop(p: Project, f: Func, n) -> bool:
    """inside a loop over self.X, where X is only ever the empty container it was initialised with"""
    if f.cls is None:
        return False
    s = self_name(f)
    par = hashorder.parents(f)
    x = par.get(n)
    while x is not None:
        if isinstance(x, ast.For) and _is_self(x.iter, s):
            attr = x.iter.attr
            ok = True
            for m in p.modules.values():
                if not in_scope(m) and not m.name.startswith("returnn"):
                    continue
                for y in ast.walk(m.tree):
                    if isinstance(y, (ast.Assign, ast.AnnAssign)):
                        for t in y.targets if isinstance(y, ast.Assign) else [y.target]:
                            if isinstance(t, ast.Attribute) and t.attr == attr and m.name.startswith("returnn.datasets"):
                                v = y.value
                                ok = ok and (isinstance(v, ast.Dict) and not v.keys or isinstance(v, (ast.List, ast.Tuple)) and not v.elts)
                            elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == attr and m.name.startswith("returnn.datasets"):
                                ok = False
                    elif isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Attribute) and y.func.value.attr == attr:
                        if y.func.attr in ("update", "append", "setdefault", "extend", "add", "insert") and m.name.startswith("returnn.datasets"):
                            ok = False
            return ok
        x = par.get(x)
    return False


def _only_attr_base(f, n) -> bool:
    par = hashorder.parents(f).get(n)
    return isinstance(par, ast.Attribute)


def _has_kw(f, n, kw) -> bool:
    par = hashorder.parents(f).get(n)
    return isinstance(par, ast.Call) and any(k.arg == kw for k in par.keywords)


def _sources(c: Ctx):
    rep = c.rep
    for f in c.funcs:
        par = hashorder.parents(f)
        for n in walk_lam(f):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                ext = _ext(c.p, f, f.module, n)
                if ext == "hash" and f.name not in ("__hash__", "__eq__"):
                    rep.bad("S3", f.where, "hash", "object hashes differ between processes (hash randomisation)", n.lineno)
                elif ext == "id" and _ordering_use(par, n):
                    rep.bad("S3", f.where, "id", "object ids differ between processes", n.lineno)
                elif ext in LISTING and isinstance(par.get(n), ast.Call) and par[n].func is n:
                    why = hashorder.order_sensitive(c.p, f, par[n])
                    rep.check("S3", why is None, f.where, f"listing-{ext}", f"directory listing order is file system dependent and must be sorted: {why}", n.lineno)
            if isinstance(n, ast.Call):
                name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                if name in UNORDERED_CALLS:
                    rep.bad("S3", f.where, name, f"{name} yields results in completion order, which depends on scheduling", n.lineno)


def _ordering_use(par, n) -> bool:
    """id/hash used as sort key or in arithmetic"""
    call = par.get(n)
    if isinstance(call, ast.keyword) and call.arg == "key":
        return True
    if not isinstance(call, ast.Call) or call.func is not n:
        return not isinstance(call, ast.Call)
    x = par.get(call)
    while x is not None and not isinstance(x, ast.stmt):
        if isinstance(x, ast.BinOp):
            if isinstance(x.op, ast.Mod) and isinstance(x.left, ast.Constant) and isinstance(x.left.value, str):
                return False
            return True
        if isinstance(x, (ast.JoinedStr, ast.Compare)):
            return False
        if isinstance(x, ast.Lambda):
            return True
        if isinstance(x, ast.Call) and (_cn(x) in RNG_NAMES or _cn(x) in SEED_METHODS):
            return True
        x = par.get(x)
    return False


RNG_NAMES = {x.split(".")[-1] for x in RNG_CTORS}


def _cn(n: ast.Call):
    return n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None


# --- seeds


def _flow(c: Ctx, f: Func, cls=None) -> Flow:
    k = (f, cls)
    fl = c.flows.get(k)
    if fl is None:
        fl = c.flows[k] = Flow(f, cls=cls or f.cls, inline=lambda g: False)
    return fl


def _nondet_func(c: Ctx, f: Func, depth=0, acc=True) -> Optional[str]:
    """returns a description if the value returned by f can come from a nondeterministic source"""
    if f in c.nd_cache:
        return c.nd_cache[f]
    c.nd_cache[f] = None
    if depth > 4:
        return None
    res = None
    if any(isinstance(n, ast.Return) and n.value is not None for n in walk_own(f.node)):
        fl = _flow(c, f)
        for nk in fl.env:
            if nk[1].kind == "return" and nk[1].d.get("value") is not None:
                res = res or _nondet_term(c, f, fl, fl.term(nk, nk[1].d["value"]), depth, acc)
    c.nd_cache[f] = res
    return res


def _nondet_term(c: Ctx, f: Func, fl: Flow, t, depth=0, acc=True) -> Optional[str]:
    from .common import deep_subterms

    p = c.p
    for x in deep_subterms(fl, t):
        ext = None
        if x[0] == "call":
            if x[1][0] == "ext":
                ext = x[1][1]
            elif x[1][0] == "f":
                g = p.get_func_any(x[1][1])
                r = _nondet_func(c, g, depth + 1, acc) if g is not None else None
                if r:
                    return f"{g.name}: {r}"
            elif x[1][0] == "m" and x[1][1][0] == "self":
                k = p.get_class(x[1][1][1])
                g = p.find_method(k, x[1][2]) if k is not None else None
                r = _nondet_func(c, g, depth + 1, acc) if g is not None else None
                if r:
                    return f"{g.name}: {r}"
        elif x[0] == "g":
            ext = x[1]
            if isinstance(ext, str) and "." in ext:
                mn, _, nm = ext.replace(":", ".").rpartition(".")
                m = p.modules.get(mn)
                if m is not None and _counter_global(m, nm):
                    return f"global variable {nm}, which is changed at run time"
        elif x[0] == "attr" and x[1][0] == "self":
            k = p.get_class(x[1][1])
            r = _nondet_attr(c, k, x[2], depth, acc) if k is not None else None
            if r:
                return r
        if isinstance(ext, str):
            ext = "numpy." + ext[3:] if ext.startswith("np.") else ext
            if is_source(ext) and x[0] == "call":
                return ext
            if x[0] == "call" and ext not in RNG_CTORS and (ext.startswith("numpy.random.") or ext.startswith("random.")):
                return ext
    return None


_lv: Dict[int, Dict] = {}


def _local_values(f: Func) -> Dict[str, List[ast.expr]]:
    if id(f.node) in _lv:
        return _lv[id(f.node)]
    res: Dict[str, List[ast.expr]] = {}
    _lv[id(f.node)] = res
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        res.setdefault(x.id, []).append(n.value)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and isinstance(n.target, ast.Name) and n.value is not None:
            res.setdefault(n.target.id, []).append(n.value)
        elif isinstance(n, ast.NamedExpr):
            res.setdefault(n.target.id, []).append(n.value)
        elif isinstance(n, (ast.For, ast.comprehension)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    res.setdefault(x.id, []).append(n.iter)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "add") and isinstance(n.func.value, ast.Name):
            res.setdefault(n.func.value.id, []).extend(n.args)
    return res


def _counter_global(m, name: str) -> bool:
    """module variable which is incremented by some function"""
    for f in ast.walk(m.tree):
        if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        if not any(isinstance(n, ast.Global) and name in n.names for n in walk_own(f)):
            continue
        for n in walk_own(f):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                return True
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.value)):
                    return True
    return False


def _nondet_attr(c: Ctx, cls: Class, attr: str, depth, acc=True) -> Optional[str]:
    """attribute value comes from a nondeterministic source, or accumulates over calls"""
    p = c.p
    if depth > 4:
        return None
    fam = set(p.mro(cls)) | set(p.subclasses(cls))
    for k in fam:
        for f in k.methods.values():
            s = self_name(f)
            for n in walk_own(f.node):
                if acc and isinstance(n, ast.AugAssign) and _is_self(n.target, s, attr) and f.name != "__init__":
                    if not _plain_reset(p, cls, attr):
                        return f"self.{attr}, which accumulates over the calls of {f.qualname}"
                vals = []
                if isinstance(n, ast.Assign) and any(_is_self(t, s, attr) for t in n.targets):
                    vals = [n.value]
                elif isinstance(n, ast.AnnAssign) and _is_self(n.target, s, attr) and n.value is not None:
                    vals = [n.value]
                for v in vals:
                    for x in ast.walk(v):
                        if isinstance(x, (ast.Name, ast.Attribute)) and is_source(_ext(p, f, f.module, x)):
                            return f"self.{attr} = ...{_ext(p, f, f.module, x)} ({f.qualname})"
                    if acc and f.name != "__init__" and any(_is_self(x, s, attr) for x in ast.walk(v)) and not _plain_reset(p, cls, attr) and any(isinstance(x, ast.BinOp) for x in ast.walk(v)):
                        return f"self.{attr}, which accumulates over the calls of {f.qualname}"
    return None


def _plain_reset(p, cls, attr) -> bool:
    """init_seq_order (some class of the hierarchy) assigns the attribute unconditionally"""
    for k in p.mro(cls):
        f = k.methods.get("init_seq_order")
        if f is None:
            continue
        s = self_name(f)
        for n in f.node.body:
            if isinstance(n, ast.Assign) and any(_is_self(t, s, attr) for t in n.targets):
                if not any(_is_self(x, s, attr) for x in ast.walk(n.value)):
                    return True
    return False


def _is_self(e, s, attr=None) -> bool:
    return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == s and (attr is None or e.attr == attr)


def _seed_args(c: Ctx):
    p, rep = c.p, c.rep
    names = RNG_NAMES | {"seed", "set_random_seed", "random_seed", "SystemRandom"}
    for f in c.funcs:
        if isinstance(f.node, ast.Lambda) or not any(_cn(n) in names for n in _calls(f)):
            continue
        fl = _flow(c, f)
        for nk, call in fl.calls.items():
            n = nk[1].ast
            ext = call.ext()
            args = [a for a in call.args] + list(call.kwargs.values())
            if ext in ALWAYS_BAD_CTORS:
                rep.bad("S2", f.where, ext, "generator cannot be seeded", nk[1].line)
            elif ext in RNG_CTORS:
                if not args or all(a == ("c", None) for a in args):
                    # allowed only as attribute which is re-seeded later, see _datasets/_pipes
                    ok = _stored_attr(f, n) is not None
                    rep.check("S2", ok, f.where, f"unseeded-{ext}", f"{ext} without seed takes its state from the operating system", nk[1].line)
                    continue
                r = None
                for a in args:
                    r = r or _nondet_term(c, f, fl, a)
                rep.check("S3", r is None, f.where, f"seed-{ext}", f"the seed depends on {r}", nk[1].line)
            elif call.name in ("seed", "set_random_seed", "random_seed") and call.recv is not None and ext is None:
                if not args or args[0] == ("c", None):
                    if call.name == "seed":
                        rep.bad("S2", f.where, "seed-noarg", "re-seeding without a seed takes the state from the operating system", nk[1].line)
                    continue
                r = None
                for a in args:
                    r = r or _nondet_term(c, f, fl, a)
                rep.check("S3", r is None, f.where, f"seed-{call.name}", f"the seed depends on {r}", nk[1].line)


def _stored_attr(f: Func, call) -> Optional[str]:
    par = hashorder.parents(f).get(call)
    if isinstance(par, ast.Assign):
        for t in par.targets:
            if _is_self(t, self_name(f)):
                return t.attr
    if isinstance(par, ast.AnnAssign) and _is_self(par.target, self_name(f)):
        return par.target.attr
    return None


# --- generators held by objects


def rng_attrs(p: Project, cls: Class) -> Dict[str, ast.Call]:
    """attributes of instances of cls holding a generator: name -> constructing call"""
    res = {}
    for k in p.mro(cls):
        r = _rngc.get(k.full)
        if r is None:
            r = _rngc[k.full] = {}
            for f in k.methods.values():
                s = self_name(f)
                for n in walk_own(f.node):
                    tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else []
                    tg = [t for t in tg if _is_self(t, s)]
                    if not tg or n.value is None:
                        continue
                    for x in _value_alts(f, n.value):
                        if isinstance(x, ast.Call) and _ext(p, f, k.module, x.func) in RNG_CTORS:
                            for t in tg:
                                r[t.attr] = x
        res.update(r)
    return res


_rngc: Dict[str, Dict] = {}


def _value_alts(f, v, depth=0):
    if isinstance(v, ast.IfExp):
        return _value_alts(f, v.body, depth) + _value_alts(f, v.orelse, depth)
    if isinstance(v, ast.BoolOp):
        return [y for x in v.values for y in _value_alts(f, x, depth)]
    if isinstance(v, ast.Name) and depth < 3:
        r = [v]
        for x in _local_values(f).get(v.id, []):
            r += _value_alts(f, x, depth + 1)
        return r
    return [v]


def seed_methods(p: Project, cls: Class) -> Set[str]:
    """methods of a (non-dataset) generator holder which re-seed its generators from an argument"""
    attrs = set(rng_attrs(p, cls))
    res = set()
    for k in p.mro(cls):
        for f in k.methods.values():
            s = self_name(f)
            if f.name.startswith("__"):
                continue
            for n in _calls(f):
                if isinstance(n.func, ast.Attribute) and n.func.attr in SEED_METHODS and _is_self(n.func.value, s) and n.func.value.attr in attrs:
                    res.add(f.name)
            for a, t in self_attr_stores(f):
                if a in attrs:
                    res.add(f.name)
    return res


def holders(p: Project) -> Dict[Class, Set[str]]:
    """non-dataset classes in the datasets package which own generators -> names of the seeding methods"""
    ds = p.get_class(DATASET)
    res = {}
    for k in p.all_classes():
        if not k.module.name.startswith("returnn.datasets") or (ds is not None and ds in p.mro(k)):
            continue
        if rng_attrs(p, k):
            res[k] = seed_methods(p, k)
    # a base class whose subclasses hold generators, or which declares the seeding method
    base = {}
    for k, ms in res.items():
        for b in p.mro(k)[1:]:
            if b in res:
                continue
            m = {x for x in ms if x in b.methods}
            if m:
                base.setdefault(b, set()).update(m)
    # sibling classes of the hierarchy (e.g. vocabularies with a global library generator)
    for b, ms in list(base.items()):
        for k in p.subclasses(b):
            if k not in res:
                base.setdefault(k, set()).update(ms)
    res.update(base)
    return res


def _holder_attrs(p: Project, cls: Class, hold) -> Dict[str, Set[str]]:
    """attributes of a dataset that hold an object owning generators -> seeding method names"""
    res: Dict[str, Set[str]] = {}
    for k in p.mro(cls):
        for f in k.methods.values():
            s = self_name(f)
            for n in walk_own(f.node):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else []
                tg = [t for t in tg if _is_self(t, s)]
                if not tg or n.value is None:
                    continue
                for x in _value_alts(f, n.value):
                    if not isinstance(x, ast.Call):
                        continue
                    d = dotted_name(x.func)
                    if not d:
                        continue
                    r = p.resolve_name(f, k.module, d)
                    hc = None
                    if isinstance(r, Class):
                        hc = r if rng_attrs(p, r) else None
                    elif isinstance(r, Func) and r.cls is not None and (r.is_classmethod or r.is_static) and "." in d:
                        hc = r.cls
                    elif isinstance(r, Func) and r.cls is None:
                        ts = p.classes_from_annotation(r, r.module, getattr(r.node, "returns", None))
                        hc = next((t for t in ts if t in hold), None)
                    if hc is not None and hc in hold:
                        for t in tg:
                            if _is_self(t, s):
                                res.setdefault(t.attr, set()).update(hold[hc])
    return res


def _aliased(p: Project, cls: Class, attr: str) -> Optional[str]:
    """the generator object is handed to another object that outlives the call"""
    for k in p.mro(cls):
        for f in k.methods.values():
            if f.name != "__init__":
                continue
            s = self_name(f)
            par = hashorder.parents(f)
            for n in walk_own(f.node):
                if _is_self(n, s, attr) and isinstance(n.ctx, ast.Load):
                    x = par.get(n)
                    if isinstance(x, ast.keyword):
                        x = par.get(x)
                    if isinstance(x, ast.Call) and x.func is not n and not (isinstance(x.func, ast.Attribute) and x.func.value is n):
                        # result stored?
                        y = par.get(x)
                        while isinstance(y, (ast.IfExp, ast.BoolOp)):
                            y = par.get(y)
                        if isinstance(y, (ast.Assign, ast.AnnAssign)):
                            return f"{f.qualname}:{ast.unparse(x.func)}"
    return None


def none_of(t):
    """x for the condition 'x is None'"""
    if t[0] == "cmp" and t[1] in ("Is", "Eq"):
        if t[2] == ("c", None):
            return t[3]
        if t[3] == ("c", None):
            return t[2]
    return None


def _datasets(c: Ctx):
    p, rep = c.p, c.rep
    ds = p.get_class(DATASET)
    if ds is None:
        rep.errors.append("Dataset class not found")
        return
    hold = holders(p)
    rel = relevance_by_names(p, {"seed", "RandomState", "Random", "default_rng", "set_random_seed", "random_seed", "set_state"})
    for cls in p.subclasses(ds):
        if not in_scope(cls.module):
            continue
        attrs = rng_attrs(p, cls)
        hattrs = _holder_attrs(p, cls, hold)
        if not attrs and not hattrs:
            continue
        f = p.find_method(cls, "init_seq_order")
        if f is None:
            continue

        def inline(g):
            if not in_scope(g.module):
                return False
            if g.name in ("get_seq_order_for_epoch", "_get_random_seed_for_epoch", "_lazy_init", "initialize"):
                return False
            return rel(g)

        fl = Flow(f, cls=cls, inline=inline, max_depth=5)
        rep.flow(fl)
        reassigned: Dict[str, int] = {}

        def names(t):
            return {x[2] for x in alts(t) if x[0] == "attr" and x[1][0] == "self"}

        ev: Dict = {}
        vals: Dict = {}  # term of a generator constructed in this call -> attr
        for nk in fl.env:
            n = nk[1]
            if n.kind == "assign" and n.d["target"][0] == "a":
                b = fl.term(nk, n.d["target"][1])
                a = n.d["target"][2]
                if b[0] == "self" and a in (set(attrs) | set(hattrs)):
                    v = fl.term(nk, n.d["value"])
                    if v == ("c", None) or names(v) & {a}:
                        continue
                    ev.setdefault(nk, set()).add(a)
                    if a in attrs:
                        reassigned.setdefault(a, n.line)
                    for x in alts(v):
                        vals.setdefault(x, set()).add(a)
        for nk, call in fl.calls.items():
            if call.recv is None or nk not in fl.env:
                continue
            ns = names(call.recv)
            for x in alts(call.recv):
                ns |= vals.get(x, set())
            for a in ns:
                if a in attrs and call.name in SEED_METHODS or a in hattrs and call.name in hattrs[a]:
                    ev.setdefault(nk, set()).add(a)
        want = set(attrs) | set(hattrs)
        rets = [fl.term(nk, nk[1].d["value"]) if nk[1].d.get("value") is not None else ("c", None) for nk in fl.env if nk[0] is fl.root and nk[1].kind == "return"]
        unchanged = {("c", False)} | ({("c", None)} if ("c", True) in rets else set())
        bad: Dict[str, list] = {}

        def step(nk, st, lab):
            if lab != "exc" and nk in ev:
                st = st | frozenset(ev[nk])
            if nk[0] is fl.root and nk[1].kind == "return" and isinstance(nk[1].ast, ast.Return):
                v = nk[1].d.get("value")
                if (fl.term(nk, v) if v is not None else ("c", None)) in unchanged:
                    return None  # order reported as unchanged
            return st

        def hook(nk, st, t, val):
            x = none_of(t)
            if x is None and not val:
                x, val = t, True  # falsy
            elif x is None:
                return st
            if val and x[0] == "param" and x[-1] == "epoch":
                return None  # no epoch: no data
            if val and x[0] == "attr" and x[1][0] == "self":
                st = st | frozenset([x[2]])  # there is no such object on this path
            return st

        def on_end(nk, st, kind):
            if kind != "exit":
                return
            for a in want:
                if a not in st and a not in bad:
                    bad[a] = fl.witness()

        n_states = fl.simulate(frozenset(), step, on_end=on_end, cond_hook=hook)
        for a in sorted(want):
            where = f.where
            if a in bad:
                owner = _defining(p, cls, a)
                rep.bad(
                    "R4",
                    where,
                    f"{owner}.{a}",
                    f"{cls.name}: the random state of self.{a} is not re-seeded on this path through init_seq_order, so the data of the epoch depends on earlier epochs",
                    f.node.lineno,
                    bad[a],
                )
            else:
                rep.ok("R4", f"{cls.name}.{a} re-seeded in init_seq_order")
            if a in reassigned:
                al = _aliased(p, cls, a)
                rep.check(
                    "R4",
                    al is None,
                    f.where,
                    f"alias-{a}",
                    f"{cls.name}: self.{a} is replaced by a new generator, but {al} keeps using the old one, which is never re-seeded",
                    reassigned[a],
                )


def _defining(p, cls, a):
    for k in reversed(p.mro(cls)):
        for f in k.methods.values():
            if any(x == a for x, _ in self_attr_stores(f)):
                return k.name
    return cls.name


def _pipes(c: Ctx):
    """generator holders which are not datasets: there must be a seeding method, on all its paths"""
    p, rep = c.p, c.rep
    ds = p.get_class(DATASET)
    for cls in p.all_classes():
        if not in_scope(cls.module) or ds in p.mro(cls):
            continue
        attrs = rng_attrs(p, cls)
        if not attrs:
            continue
        ms = seed_methods(p, cls)
        is_pipe = cls.module.name.startswith("returnn.torch.data")
        if is_pipe:
            f = p.find_method(cls, "reset")
            if f is None:
                rep.bad("R4", f"{cls.module.relpath}:{cls.name}", "no-reset", f"{cls.name} draws random numbers but has no reset() that seeds them")
                continue
            cand = [f]
        else:
            if not ms:
                used = _unseeded_holder(p, cls, attrs)
                rep.check("R4", not used, f"{cls.module.relpath}:{cls.name}", "no-seed-method", f"{cls.name} draws random numbers but has no method to re-seed them")
                continue
            cand = [p.find_method(cls, m) for m in sorted(ms)]
        for f in cand:
            fl = Flow(f, cls=cls, inline=lambda g: in_scope(g.module), max_depth=3)
            rep.flow(fl)
            bad: Dict[str, list] = {}
            ev: Dict = {}
            for nk in fl.env:
                n = nk[1]
                if n.kind == "assign" and n.d["target"][0] == "a" and fl.term(nk, n.d["target"][1])[0] == "self" and n.d["target"][2] in attrs:
                    v = fl.term(nk, n.d["value"])
                    if any(x[0] == "call" and (x[2] or x[3]) for x in alts(v)):
                        ev.setdefault(nk, set()).add(n.d["target"][2])
            for nk, call in fl.calls.items():
                if call.recv is not None and call.name in SEED_METHODS and (call.args or call.kwargs):
                    for x in alts(call.recv):
                        if x[0] == "attr" and x[1][0] == "self" and x[2] in attrs:
                            ev.setdefault(nk, set()).add(x[2])

            def step(nk, st, lab):
                if lab != "exc" and nk in ev:
                    st = st | frozenset(ev[nk])
                return st

            def on_end(nk, st, kind):
                if kind == "exit":
                    for a in attrs:
                        if a not in st and a not in bad:
                            bad[a] = fl.witness()

            fl.simulate(frozenset(), step, on_end=on_end)
            for a in sorted(attrs):
                rep.check("R4", a not in bad, f.where, f"{cls.name}.{a}", f"self.{a} is not re-seeded on a path through {f.qualname}", f.node.lineno, bad.get(a))


def _unseeded_holder(p, cls, attrs) -> bool:
    """constant-seeded generator drawn from in methods, never re-seeded"""
    for k in p.mro(cls):
        for f in k.methods.values():
            if f.name == "__init__":
                continue
            s = self_name(f)
            if any(_is_self(n, s) and n.attr in attrs and isinstance(n.ctx, ast.Load) for n in walk_own(f.node)):
                return True
    return False


# --- R5


def _epoch_seed(c: Ctx):
    p, rep = c.p, c.rep
    ds = p.get_class(DATASET)
    names = ("_get_random_seed_for_epoch", "_get_default_random_seed_offset")
    seen = set()
    for cls in p.subclasses(ds):
        for nm in names:
            f = p.find_method(cls, nm)
            if f is None or f in seen:
                continue
            seen.add(f)
            rep.analysed(f)
            fl = _flow(c, f, cls)
            r = None
            for nk in fl.env:
                n = nk[1]
                if n.kind == "return" and n.d.get("value") is not None:
                    r = r or _nondet_term(c, f, fl, fl.term(nk, n.d["value"]))
                elif n.kind == "branch":
                    r = r or _nondet_term(c, f, fl, fl.cond_term(nk)[0])
            rep.check("R5", r is None, f.where, "nondet", f"the seed depends on {r}", f.node.lineno)
            if nm == names[0]:
                ok = False
                for nk in fl.env:
                    if nk[1].kind == "return" and nk[1].d.get("value") is not None:
                        t = fl.term(nk, nk[1].d["value"])
                        if any(x[0] == "param" and x[-1] == "epoch" for x in subterms(t)):
                            ok = True
                rep.check("R5", ok, f.where, "epoch", "the epoch does not enter the seed", f.node.lineno)


# --- R7


def _in_place(c: Ctx):
    p, rep = c.p, c.rep
    rel = relevance_by_names(p, {"shuffle"})
    done = set()
    for f in c.funcs:
        if isinstance(f.node, ast.Lambda) or not rel(f):
            continue
        if not any(isinstance(n, ast.Call) for n in walk_own(f.node)):
            continue
        fl = Flow(f, cls=f.cls, inline=lambda g: g.module is f.module and rel(g), max_depth=3)
        for nk, call in fl.calls.items():
            if call.name != "shuffle" or not call.args or nk not in fl.env:
                continue
            for x in alts(call.args[0]):
                if x[0] == "attr" and x[1][0] == "self":
                    k = p.get_class(x[1][1])
                    key = (nk[0].func.where, x[2], k.full if k else None)
                    if key in done:
                        continue
                    done.add(key)
                    ok = k is not None and _per_epoch(p, k, x[2])
                    rep.check("R7", ok, nk[0].func.where, f"shuffle-{x[2]}", f"self.{x[2]} is shuffled in place and is not set anew for each epoch: the order depends on the epochs before", nk[1].line)
                elif x[0] == "g":
                    rep.bad("R7", nk[0].func.where, f"shuffle-{x[1]}", f"module level object {x[1]} is shuffled in place", nk[1].line)
        rep.ok("R7", f"{f.where}: shuffles")


def _per_epoch(p: Project, cls: Class, attr: str) -> bool:
    """attribute is assigned or cleared at the start of each pass (init_seq_order / reset / __iter__)"""
    from .common import method_closure

    for f in method_closure(p, cls, ["init_seq_order", "reset", "__iter__"]):
        s = self_name(f)
        if any(a == attr for a, _ in self_attr_stores(f)) and f.name != "__init__":
            return True
        for n in _calls(f):
            if isinstance(n.func, ast.Attribute) and n.func.attr == "clear" and _is_self(n.func.value, s, attr):
                return True
    return False


# --- R6


def _engine(c: Ctx):
    p, rep = c.p, c.rep
    cls = p.get_class("returnn.torch.engine.Engine")
    f = p.find_method(cls, "init_train_epoch") if cls else None
    if f is None:
        return
    rel = relevance_by_names(p, {"set_random_seed", "manual_seed"})
    fl = Flow(f, cls=cls, inline=lambda g: g.module.name == "returnn.torch.engine" and rel(g), max_depth=3)
    rep.flow(fl)
    ev = {}
    for nk, call in fl.calls.items():
        if call.name in ("set_random_seed", "manual_seed") and call.args:
            ev[nk] = call.args[0]
    missing = []

    def step(nk, st, lab):
        return True if nk in ev and lab != "exc" else st

    def on_end(nk, st, kind):
        if kind == "exit" and not st and not missing:
            missing.append(fl.witness())

    fl.simulate(False, step, on_end=on_end)
    rep.check("R6", not missing and bool(ev), f.where, "seeded", "an epoch can start without seeding the random generators", f.node.lineno, missing[0] if missing else None)
    for nk, call in fl.calls.items():
        if nk in ev:
            g = nk[0].func
            r = _nondet_term(c, g, fl, ev[nk], acc=False)
            rep.check("R6", r is None, g.where, "seed", f"the seed depends on {r}", nk[1].line)
            deps = {x for x in subterms(ev[nk])}
            ep = any(x[0] == "attr" and x[-1] == "epoch" or x[0] == "param" and x[-1] == "epoch" for x in deps)
            rep.check("R6", ep or _has_epoch(fl, ev[nk]), g.where, "epoch", "the epoch does not enter the seed", nk[1].line)


def _has_epoch(fl, t) -> bool:
    from .common import deep_subterms

    return any((x[0] in ("attr", "param")) and x[-1] == "epoch" for x in deep_subterms(fl, t))
