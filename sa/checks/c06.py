"""
C06 score / learning-rate history round trip.
"""

from __future__ import annotations
import ast
import re
from ..flow import Flow, alts, fmt, subterms, contains, cat_parts, static_callees
from ..project import walk_own, dotted_name
from .common import deep_subterms, return_terms, self_attr_stores, self_attr_loads, method_closure, is_call_to
from .engine_common import entry, TORCH_ENGINE

LRC = "returnn.learning_rate_control.LearningRateControl"
REPR = ("better_repr", "repr")
NONDET = ("time", "random", "os.environ", "os.getpid", "os.urandom", "datetime", "uuid", "socket", "numpy.random", "np.random", "secrets")


def check(p, rep):
    rep.rule("R1", "every per-epoch field is written, under a keyword that the constructor accepts and stores in the same field")
    rep.rule("R2", "every written value goes through repr, so that evaluating it gives the same value, incl. NaN/inf and nested values")
    rep.rule("R3", "meta entries are merged into and split from the scores with the same prefix")
    rep.rule("R4", "the whole history is written and the whole file content is evaluated back into it")
    rep.rule("R5", "the learning rate of an epoch is computed only from configuration attributes and the persisted history")
    rep.rule("R6", "an existing history file is always loaded, before defaults are entered, and recorded values are never overwritten by computed ones")
    rep.rule("R7", "every reported score enters the history, and the history is saved after it was extended")
    c = p.get_class(LRC)
    if c is None:
        rep.errors.append("LearningRateControl not found")
        return
    ed = p.get_class(LRC + ".EpochData")
    if ed is None:
        rep.errors.append("EpochData not found")
        return
    prefix = _fields(p, rep, ed)
    ns = _save_load(p, rep, c)
    _repr(p, rep, ns)
    _purity(p, rep, c)
    _init(p, rep, c)
    _set_error(p, rep, c)
    _saved(p, rep)


def _is_reprd(t):
    if t[0] == "fmtspec":
        return t[2] in ("r", 114)
    if t[0] == "phi":
        return all(_is_reprd(x) for x in t[1])
    return is_call_to(t, *REPR)


def _fields(p, rep, ed):
    init = p.find_method(ed, "__init__")
    rp = p.find_method(ed, "__repr__")
    if not init or not rp:
        rep.bad("R1", ed.module.relpath + ":" + ed.qualname, "repr", "EpochData has no __init__/__repr__ for its serialisation")
        return None
    fields = {a for a, _ in self_attr_stores(init)}
    # fields assigned elsewhere on epoch data
    for f in p.all_funcs():
        for n in walk_own(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Subscript) and isinstance(n.value.value, ast.Attribute) and n.value.value.attr == "epoch_data":
                fields.add(n.attr)
    fl = Flow(rp, cls=ed, inline=lambda g: g.cls is ed)
    rep.flow(fl)
    rets = return_terms(fl)
    written = {}
    for nk, t in rets:
        for alt in alts(t):
            parts = cat_parts(alt)
            m = None
            for i, q in enumerate(parts):
                if q[0] == "c":
                    m = re.search(r"(\w+)\s*=\s*$", str(q[1]))
                    if m:
                        m = m.group(1)
                    continue
                rep.check("R2", _is_reprd(q), rp.where, f"value:{m or i}", f"{fmt(q)[:80]} is written without repr: the reader does not get the same value back", nk[1].line)
                if m:
                    written[m] = q
                m = None
    # fields must occur in what is written
    used = set()
    for nk, t in rets:
        for s in deep_subterms(fl, t):
            if s[0] == "attr":
                used.add(s[2])
    src_used = {n.attr for n in ast.walk(rp.node) if isinstance(n, ast.Attribute)}
    for a in sorted(fields):
        rep.check("R1", a in used or (not written and a in src_used), rp.where, f"field:{a}", f"field {a!r} of the per-epoch data is not written to the score file", rp.node.lineno)
    # reader side
    ifl = Flow(init, cls=ed, inline=lambda g: g.cls is ed)
    rep.flow(ifl)
    stores = {}
    for nk in ifl.env:
        n = nk[1]
        if n.kind == "assign" and n.d["target"][0] == "a":
            stores.setdefault(n.d["target"][2], []).append((nk, ifl.term(nk, n.d["value"])))
    params = set(init.param_names())
    accepted_kw = {
        s[2][0][1]
        for nk, cc in ifl.calls.items()
        for s in [("call", ("m", cc.recv, cc.name), cc.args, ())]
        if cc.name in ("pop", "get") and cc.args and cc.args[0][0] == "c" and isinstance(cc.args[0][1], str)
    }
    for n in ast.walk(init.node):
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            accepted_kw.add(n.slice.value)
    for kw, q in written.items():
        ok = kw in params or (kw in accepted_kw and init.node.args.kwarg is not None)
        rep.check("R1", ok, init.where, f"accept:{kw}", f"the score file contains {kw}=..., which the reader does not accept", init.node.lineno)
        if not ok:
            continue
        attrs = sorted({s[2] for s in deep_subterms(fl, q) if s[0] == "attr" and s[2] in fields})
        for a in attrs:
            hit = False
            for nk, t in stores.get(a, ()):
                for s in subterms(t):
                    if s[0] == "param" and s[2] == kw:
                        hit = True
                    if s[0] == "call" and len(s) > 2 and s[2][:1] == (("c", kw),):
                        hit = True
                    if s[0] in ("sub", "deep", "top") and (s[0] != "sub" or s[2] == ("c", kw)):
                        hit = True
            rep.check("R1", hit, init.where, f"restore:{a}", f"field {a!r} is written as {kw}= but the reader does not fill it from there", init.node.lineno)
    # meta prefix
    pre = set()
    for n in ast.walk(rp.node):
        if isinstance(n, ast.DictComp):
            k = n.key
            s = None
            if isinstance(k, ast.JoinedStr) and k.values and isinstance(k.values[0], ast.Constant):
                s = k.values[0].value
            elif isinstance(k, ast.BinOp) and isinstance(k.left, ast.Constant) and isinstance(k.left.value, str):
                s = k.left.value if isinstance(k.op, ast.Add) else k.left.value.split("%")[0]
            if s:
                pre.add(s)
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
            k = n.slice
            if isinstance(k, ast.JoinedStr) and k.values and isinstance(k.values[0], ast.Constant):
                pre.add(k.values[0].value)
            elif isinstance(k, ast.BinOp) and isinstance(k.op, ast.Add) and isinstance(k.left, ast.Constant):
                pre.add(k.left.value)
    if len(pre) == 1:
        P = next(iter(pre))
        for n in ast.walk(init.node):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                if nm in ("startswith", "removeprefix", "len") and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                    rep.check("R3", n.args[0].value == P, init.where, f"prefix:{nm}", f"the reader splits at prefix {n.args[0].value!r}, the writer uses {P!r}", n.lineno)
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.slice.lower, ast.Constant) and isinstance(n.slice.lower.value, int) and n.slice.upper is None:
                rep.check("R3", n.slice.lower.value == len(P), init.where, "prefix-len", f"the reader cuts {n.slice.lower.value} characters, the prefix {P!r} has {len(P)}", n.lineno)
        # polarity of the two splitted dicts
        for st in ast.walk(init.node):
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.DictComp) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.value.generators[0].ifs:
                pol = None
                for cnd in st.value.generators[0].ifs:
                    neg = isinstance(cnd, ast.UnaryOp) and isinstance(cnd.op, ast.Not)
                    base = cnd.operand if neg else cnd
                    if isinstance(base, ast.Call) and isinstance(base.func, ast.Attribute) and base.func.attr == "startswith":
                        pol = not neg
                if pol is None:
                    continue
                stripped = not (isinstance(st.value.key, ast.Name))
                rep.check("R3", pol == stripped, init.where, f"split:{st.targets[0].id}", f"entries {'with' if pol else 'without'} the prefix are {'kept as they are' if not stripped else 'cut'}", st.lineno)
        return P
    return None


def _save_load(p, rep, c):
    save = p.find_method(c, "save")
    load = p.find_method(c, "load")
    if not save or not load:
        rep.bad("R4", c.module.relpath, "save/load", "save or load is missing")
        return None
    fl = Flow(save, cls=c, inline=lambda g: g.cls is c)
    rep.flow(fl)
    hist = lambda t: t[0] == "attr" and t[2] == "epoch_data"
    whole = False
    partial = None
    for nk, cc in fl.calls.items():
        if cc.name in ("write", "writelines", "print") or cc.ext() in ("print",):
            for a in list(cc.args):
                if any(hist(s) for s in subterms(a)):
                    q = [x for x in cat_parts(a) if x[0] != "c"]
                    if q and all(_is_reprd(x) and x[0] == "call" and x[2] and hist(x[2][0]) for x in q):
                        whole = True
                    else:
                        partial = (cc, a)
    rep.check("R4", whole, save.where, "write", "the saved text is not the repr of the complete history" + (f" but {fmt(partial[1])[:100]}" if partial else ""), partial[0].line if partial else save.node.lineno)
    fl = Flow(load, cls=c, inline=lambda g: g.cls is c)
    rep.flow(fl)
    ns = None
    got = False
    for nk in fl.env:
        n = nk[1]
        if n.kind == "assign" and n.d["target"][0] == "a" and n.d["target"][2] == "epoch_data":
            t = fl.term(nk, n.d["value"])
            ev = [s for s in subterms(t) if is_call_to(s, "eval", "literal_eval")]
            ok = bool(ev) and ev[0] == t
            if ev:
                src = ev[0][2][0] if ev[0][2] else ("c", None)
                ok = ok and is_call_to(src, "read") and not src[2] or ok and any(is_call_to(s, "read", "strip") for s in [src])
                if len(ev[0][2]) > 1 and ev[0][2][1][0] == "dict":
                    ns = dict((k[1], v) for k, v in ev[0][2][1][1] if k[0] == "c")
                fnames = [s for s in subterms(src) if s[0] == "attr" and s[2] == "filename"]
                rep.check("R4", bool(fnames), load.where, "file", "the loaded text is not read from the history file", n.line)
            got = True
            rep.check("R4", ok, load.where, "eval", f"the history is not restored as the evaluated complete file content but {fmt(t)[:100]}", n.line)
    for nk, cc in fl.calls.items():
        if cc.name == "update" and cc.recv is not None and any(hist(s) for s in subterms(cc.recv)):
            got = True
            ev = [s for s in subterms(cc.args[0]) if is_call_to(s, "eval")] if cc.args else []
            if ev and len(ev[0][2]) > 1 and ev[0][2][1][0] == "dict":
                ns = dict((k[1], v) for k, v in ev[0][2][1][1] if k[0] == "c")
    rep.check("R4", got, load.where, "assign", "load does not restore the history")
    if ns is not None:
        rep.check("R4", "EpochData" in ns, load.where, "ns:EpochData", "the evaluated text refers to EpochData, which is not in the evaluation namespace")
        rep.check("R2", "np" in ns, load.where, "ns:np", "numpy scalars are written as np.float64(...), and np is not in the evaluation namespace")
        for k in ("nan", "inf"):
            if k in ns:
                v = ns[k]
                ok = (is_call_to(v, "float") and v[2] and v[2][0] == ("c", k)) or fmt(v).split(".")[-1] == k
                rep.check("R2", ok, load.where, f"ns:{k}", f"{k} is read back as {fmt(v)}")
    return ns


def _repr(p, rep, ns):
    f = p.get_func_any("returnn.util.basic.better_repr") or p.get_func_any("returnn.util.basic:better_repr")
    if f is None:
        return
    fl = Flow(f)
    rep.flow(fl)
    special = set()
    for nk, t in return_terms(fl):
        for alt in alts(t):
            parts = cat_parts(alt)
            txt = "".join(str(q[1]) for q in parts if q[0] == "c")
            if "float(" in txt:
                special.add("float")
            for q in parts:
                if q[0] == "c":
                    continue
                _value(rep, f, q, nk[1].line)
    conds = set()
    for nk in fl.env:
        if nk[1].kind == "branch":
            t, _ = fl.cond_term(nk)
            for s in subterms(t):
                if is_call_to(s, "isnan"):
                    conds.add("nan")
                if is_call_to(s, "isinf"):
                    conds.add("inf")
                if is_call_to(s, "isfinite"):
                    conds |= {"nan", "inf"}
                if s[0] == "cmp" and s[1] in ("Eq", "Is") and s[2] == s[3]:
                    conds.add("nan")
    for k in ("nan", "inf"):
        ok = ("float" in special and k in conds) or (ns is not None and k in ns)
        rep.check("R2", ok, f.where, f"special:{k}", f"{k} is neither written as a float(...) expression nor defined for the reader", f.node.lineno)
    # lambdas used to map elements
    for n in ast.walk(f.node):
        if isinstance(n, ast.Lambda):
            ps = {a.arg for a in n.args.args}
            for x in ast.walk(n.body):
                if isinstance(x, (ast.BinOp, ast.JoinedStr, ast.FormattedValue)):
                    for y in ast.iter_child_nodes(x):
                        if isinstance(y, ast.Name) and y.id in ps and not (isinstance(x, ast.FormattedValue) and x.conversion == 114):
                            rep.bad("R2", f.where, "lambda", "an element is written without repr", n.lineno)


def _value(rep, f, q, line):
    """one non-constant part of the text"""
    if q[0] == "phi":
        for x in q[1]:
            _value(rep, f, x, line)
        return
    if _is_reprd(q):
        rep.ok("R2", f"{f.where}: {fmt(q)[:60]}")
        return
    if is_call_to(q, "join"):
        a = q[2][0] if q[2] else ("c", None)
        for alt in alts(a):
            vals = alt[2] if alt[0] == "comp" else alt[1] if alt[0] in ("list", "tup") else ()
            for v in vals:
                for x in cat_parts(v):
                    if x[0] != "c":
                        _value(rep, f, x, line)
        rep.ok("R2", f"{f.where}: join")
        return
    if q[0] in ("param", "sub", "item", "elem", "idx", "key", "val", "fmtspec"):
        if any(is_call_to(s, *REPR) for s in subterms(q)):
            rep.check("R2", not any(s[0] == "slice" for s in subterms(q)), f.where, "cut", f"{fmt(q)[:80]}: the text of a value is cut", line)
            return
        rep.bad("R2", f.where, f"raw:{q[0]}", f"{fmt(q)[:80]} is written without repr", line)


def _purity(p, rep, c):
    config_attrs = {}
    for k in p.subclasses(c):
        written_elsewhere = {}
        for m in [x for kk in p.mro(k) for x in kk.methods.values()]:
            for a, n in self_attr_stores(m):
                if m.name != "__init__":
                    written_elsewhere.setdefault(a, (m, n))
        for f in p.all_funcs():
            if f.cls is not None and c in p.mro(f.cls):
                continue
            for n in walk_own(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, (ast.Attribute, ast.Name)):
                    nm = n.value.attr if isinstance(n.value, ast.Attribute) else n.value.id
                    if nm in ("learning_rate_control", "lr_control"):
                        written_elsewhere.setdefault(n.attr, (f, n))
        for f in method_closure(p, k, ["get_learning_rate_for_epoch", "calc_learning_rate_for_epoch", "calc_new_learning_rate_for_epoch"]):
            rep.analysed(f)
            bad = False
            for a, n in self_attr_loads(f):
                if a == "epoch_data" or p.find_method(k, a):
                    continue
                if a in written_elsewhere:
                    m, _ = written_elsewhere[a]
                    bad = True
                    rep.bad("R5", f.where, f"state:{a}", f"the learning rate depends on self.{a}, which {m.where} changes at run time and which is not part of the persisted history", n.lineno)
            for a, n in self_attr_stores(f):
                if a != "epoch_data":
                    pass
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    bad = True
                    rep.bad("R5", f.where, "global", f"the learning rate computation changes global variable {n.names}", n.lineno)
                if isinstance(n, ast.Call):
                    dn = dotted_name(n.func)
                    if dn:
                        r = p.resolve_name(f, f.module, dn)
                        full = r[1] if isinstance(r, tuple) and len(r) > 1 and isinstance(r[1], str) else dn
                        for x in (dn, str(full)):
                            if any(x == z or x.startswith(z + ".") for z in NONDET):
                                bad = True
                                rep.bad("R5", f.where, f"nondet:{dn}", f"the learning rate depends on {dn}()", n.lineno)
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and _mutable_global(p, f, n.id):
                    bad = True
                    rep.bad("R5", f.where, f"global:{n.id}", f"the learning rate depends on the changing module variable {n.id}", n.lineno)
            for d in f.deco_names():
                if d.split(".")[-1] in ("lru_cache", "cache", "cached_property"):
                    bad = True
                    rep.bad("R5", f.where, f"cache:{d}", "results are cached across changes of the history", f.node.lineno)
            if not bad:
                rep.ok("R5", f"{k.name}: {f.qualname}")


def _mutable_global(p, f, name) -> bool:
    m = f.module
    from ..project import is_local_var

    if is_local_var(f, name):
        return False
    for g in p.all_funcs():
        if g.module is m:
            for n in walk_own(g.node):
                if isinstance(n, ast.Global) and name in n.names:
                    return True
    for st in m.tree.body:
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            tgts = st.targets if isinstance(st, ast.Assign) else [st.target]
            if any(isinstance(t, ast.Name) and t.id == name for t in tgts):
                if isinstance(st.value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or (isinstance(st.value, ast.Call)):
                    # mutated anywhere in the module?
                    for n in ast.walk(m.tree):
                        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == name:
                            return True
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name and n.func.attr in ("append", "add", "update", "setdefault", "clear", "pop", "extend", "insert"):
                            return True
    return False


def _init(p, rep, c):
    init = p.find_method(c, "__init__")
    fl = Flow(init, cls=c, inline=lambda g: g.cls is c and g.name not in ("load", "set_default_learning_rate_for_epoch", "get_learning_rate_for_epoch"))
    seen = set()

    def hook(nk, st, t, val):
        if any(is_call_to(s, "exists", "isfile") for s in subterms(t)) and t[0] == "call":
            return st | {"exists" if val else "absent"}
        if t[0] in ("param", "attr") and (t[2] == "filename"):
            if not val:
                return st | {"absent"}
        return st

    def step(nk, st, lab):
        cc = fl.calls.get(nk)
        n = nk[1]
        if cc is not None:
            if cc.name == "load" and cc.recv is not None and cc.recv[0] == "self":
                return st | ({"failed"} if lab == "exc" else {"loaded"})
            if cc.name in ("set_default_learning_rate_for_epoch", "get_learning_rate_for_epoch") and lab != "exc":
                if "absent" not in st and "loaded" not in st and "early" not in seen:
                    seen.add("early")
                    rep.bad("R6", init.where, "defaults-before-load", "default learning rates are entered before the existing history was loaded", cc.line, fl.witness())
        if n.kind == "assign" and n.d["target"][0] == "a" and n.d["target"][2] == "epoch_data" and "loaded" in st and "reset" not in seen:
            seen.add("reset")
            rep.bad("R6", init.where, "reset-after-load", "the history is replaced after it was loaded", n.line, fl.witness())
        return st

    def end(nk, st, lab):
        if nk[1].kind != "exit":
            return
        if "absent" not in st and "loaded" not in st and "noload" not in seen:
            seen.add("noload")
            rep.bad("R6", init.where, "not-loaded", "an existing history file is not loaded on some path" + (" (loading failed and the error is dropped)" if "failed" in st else ""), 0, fl.witness())

    n = fl.simulate(frozenset(), step, on_end=end, cond_hook=hook)
    rep.flow(fl, n)
    for k in ("early", "reset", "noload"):
        if k not in seen:
            rep.ok("R6", f"{init.where}: {k}")
    # stores into the history
    for m in c.methods.values():
        if m.name in ("load",):
            continue
        has = any(isinstance(x, ast.Attribute) and x.attr in ("epoch_data", "learning_rate") for x in ast.walk(m.node))
        if not has:
            continue
        fl = Flow(m, cls=c)
        stores = {}
        for nk in fl.env:
            n = nk[1]
            if n.kind == "assign":
                tg = n.d["target"]
                if tg[0] == "sub":
                    b = fl.term(nk, tg[1])
                    if b[0] == "attr" and b[2] == "epoch_data":
                        stores[nk] = "new"
                elif tg[0] == "a" and tg[2] == "learning_rate":
                    b = fl.term(nk, tg[1])
                    if any(s[0] == "attr" and s[2] == "epoch_data" for s in subterms(b)):
                        stores[nk] = "lr"
        if not stores:
            continue
        bad = set()

        def hook2(nk, st, t, val):
            if t[0] == "cmp" and t[1] == "In" and t[3][0] == "attr" and t[3][2] == "epoch_data" and not val:
                return st | {"absent"}
            if t[0] == "attr" and t[2] == "learning_rate" and not val:
                return st | {"nolr"}
            if t[0] == "cmp" and t[1] == "Is" and ("c", None) in t[2:4] and val and any(s[0] == "attr" and s[2] in ("learning_rate",) or is_call_to(s, "get") for x in t[2:4] for s in subterms(x)):
                return st | {"nolr", "absent"}
            return st

        def step2(nk, st, lab):
            if nk in stores and lab != "exc":
                need = "absent" if stores[nk] == "new" else "nolr"
                if need not in st and nk not in bad:
                    bad.add(nk)
                    rep.bad("R6", m.where, f"overwrite:{stores[nk]}", "a recorded value of the history is overwritten", nk[1].line, fl.witness())
            return st

        n = fl.simulate(frozenset(), step2, cond_hook=hook2)
        rep.flow(fl, n)
        for nk in stores:
            if nk not in bad:
                rep.ok("R6", f"{m.where}: guarded store {stores[nk]}")
    # recorded learning rate used and new one recorded
    g = p.find_method(c, "get_learning_rate_for_epoch")
    if g is None:
        return
    fl = Flow(g, cls=c)
    bad = set()

    def hook3(nk, st, t, val):
        if t[0] == "cmp" and t[1] == "In" and t[3][0] == "attr" and t[3][2] == "epoch_data":
            return st | {("known",) if val else ("unknown",)}
        return st

    def step3(nk, st, lab):
        cc = fl.calls.get(nk)
        n = nk[1]
        if cc is not None and lab != "exc":
            if cc.name == "set_default_learning_rate_for_epoch":
                v = cc.arg(1, "learning_rate")
                return st | {("set", v)}
        if n.kind == "assign" and n.d["target"][0] == "sub":
            b = fl.term(nk, n.d["target"][1])
            if b[0] == "attr" and b[2] == "epoch_data":
                return st | {("set", s) for s in subterms(fl.term(nk, n.d["value"]))}
        if n.kind == "return":
            v = fl.term(nk, n.d["value"]) if n.d.get("value") is not None else ("c", None)
            if any(s[0] == "attr" and s[2] == "epoch_data" for s in subterms(v)):
                return st
            if ("known",) in st and "k" not in bad:
                bad.add("k")
                rep.bad("R6", g.where, "recorded", "a learning rate that is already recorded for the epoch is not used", n.line, fl.witness())
            if ("set", v) not in st and "s" not in bad:
                bad.add("s")
                rep.bad("R6", g.where, "record-new", "a newly computed learning rate is returned without being recorded in the history", n.line, fl.witness())
        return st

    n = fl.simulate(frozenset(), step3, cond_hook=hook3)
    rep.flow(fl, n)
    for k in ("k", "s"):
        if k not in bad:
            rep.ok("R6", f"{g.where}: {k}")


def _set_error(p, rep, c):
    f = p.find_method(c, "set_epoch_error")
    if f is None:
        return
    fl = Flow(f, cls=c, inline=lambda g: g.cls is c and g.name not in ("get_learning_rate_for_epoch", "get_error_key"))
    seen = set()

    def upd(nk):
        cc = fl.calls.get(nk)
        if cc is not None and cc.name == "update" and cc.recv is not None and any(s[0] == "attr" and s[2] == "error" for s in subterms(cc.recv)):
            return True
        n = nk[1]
        if n.kind == "assign" and n.d["target"][0] in ("sub", "a"):
            tt = n.d["target"]
            b = fl.term(nk, tt[1])
            if tt[0] == "a":
                return tt[2] == "error" and any(s[0] == "attr" and s[2] == "epoch_data" for s in subterms(b))
            return any(s[0] == "attr" and s[2] == "epoch_data" for s in subterms(b)) and b[0] == "attr" and b[2] == "error"
        return False

    upds = {nk for nk in fl.env if upd(nk)}

    def step(nk, st, lab):
        n = nk[1]
        if nk in upds and lab != "exc":
            if "deleted" in st and "lost" not in seen:
                seen.add("lost")
                rep.bad("R7", f.where, "lost", "a reported score is removed and not entered in another form on some path", n.line, fl.witness())
            st = st | {"upd"}
        if n.kind == "iter" and lab in ("iter", "done"):
            if "deleted" in st and n.d.get("comp") is None:
                # zero-iteration of an inner loop is fine: an empty dict has nothing to record
                it = fl.term(nk, n.d["iter"])
                inner = any(s[0] in ("val", "elem") for s in subterms(it))
                if inner and lab == "done":
                    return st - {"deleted"}
                if not inner and "lost" not in seen:
                    seen.add("lost")
                    rep.bad("R7", f.where, "lost", "a reported score is removed and not entered in another form on some path", n.line, fl.witness())
        if n.kind == "del" or (nk in fl.calls and fl.calls[nk].name == "pop" and lab != "exc"):
            if nk in fl.calls or (n.kind == "del"):
                return st | {"deleted"}
        if n.kind == "assign" and n.d["target"][0] == "sub":
            return st - {"deleted"}
        return st

    def end(nk, st, lab):
        if nk[1].kind == "exit" and "upd" not in st and "noupd" not in seen:
            # loops over the items entering one by one may be empty
            if any(u[1].kind == "assign" for u in upds):
                return
            seen.add("noupd")
            rep.bad("R7", f.where, "not-entered", "the reported scores are not entered into the history on some path", 0, fl.witness())

    n = fl.simulate(frozenset(), step, on_end=end, correlate=lambda t: False)
    rep.flow(fl, n)
    rep.check("R7", bool(upds), f.where, "enter", "the reported scores are never entered into the history")
    for k in ("lost", "noupd"):
        if k not in seen:
            rep.ok("R7", f"{f.where}: {k}")


def _saved(p, rep):
    for name in ("train_epoch", "eval_model"):
        cls, f = entry(p, TORCH_ENGINE, name)
        if f is None:
            continue

        def inline(g):
            if g.module.name != "returnn.torch.engine" or g.name in ("eval_model", "train_epoch", "_do_save", "_load_model"):
                return False
            return any(isinstance(x, ast.Attribute) and x.attr in ("set_epoch_error", "save") for x in ast.walk(g.node))

        fl = Flow(f, cls=cls, inline=inline, max_depth=3)
        sets = {nk for nk, cc in fl.calls.items() if cc.name == "set_epoch_error"}
        seen = set()
        if not sets:
            rep.bad("R7", f.where, "no-score", f"{name} does not report its scores to the learning rate control")
            continue

        def hook(nk, st, t, val):
            if is_call_to(t, "_do_save", "should_write_to_disk") and not val:
                return "ok" if st == "dirty" else st
            return st

        def step(nk, st, lab):
            cc = fl.calls.get(nk)
            if cc is not None and lab != "exc":
                if nk in sets:
                    return "dirty"
                if cc.name == "save" and cc.recv is not None and "learning_rate_control" in fmt(cc.recv):
                    return "ok"
            return st

        def end(nk, st, lab):
            if nk[1].kind == "exit" and st == "dirty" and "d" not in seen:
                seen.add("d")
                rep.bad("R7", f.where, "unsaved", "scores are reported but the history is not saved afterwards on some path", 0, fl.witness())

        n = fl.simulate("ok", step, on_end=end, cond_hook=hook, correlate=lambda t: False, edge_filter=lambda a, l, b: l != "exc")
        rep.flow(fl, n)
        if "d" not in seen:
            rep.ok("R7", f"{f.where}: saved after reporting")
