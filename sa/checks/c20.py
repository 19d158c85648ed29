"""
C20 every trainable parameter is in exactly one optimizer group.

Exactly-once analysis of the loop which distributes the parameters, plus flow of the filled containers into the groups.
"""

from __future__ import annotations
import ast
from typing import Dict, List, Optional, Tuple
from ..flow import Flow, fmt, alts, subterms, contains
from ..ir import get_ir
from ..project import Project, Func
from .common import return_terms, deep_subterms, is_call_to, MUTATORS

UPD = "returnn.torch.updater.Updater"
PARAM_ITERS = {"named_parameters", "parameters"}
MODULE_ITERS = {"named_modules", "modules"}
IDENT = {"RefIdEq", "id"}


def check(p: Project, rep):
    rep.rule("R1", "each parameter visited by the grouping loop is put in exactly one group container, unless it was seen before under another name")
    rep.rule("R2", "every group container goes completely into exactly one parameter group, and every group says whether weight decay applies")
    rep.rule("R3", "already seen parameters are recognised by identity, and every parameter put in a group is remembered as seen")
    rep.rule("R4", "the loop covers all modules and parameters of the network; without groups, all parameters are passed")
    rep.rule("R5", "user callbacks decide per parameter and get its full name; their answer decides the weight decay")
    rep.rule("R6", "the groups given to the optimizer are the ones computed for the whole network")
    rep.rule("R7", "optimizer state is saved and restored per parameter name")
    rep.rule("R8", "gradient processing covers all parameters of the network")
    cls = p.get_class(UPD)
    if cls is None:
        rep.errors.append("Updater not found")
        return
    create = _find_creator(p, cls)
    if create is None:
        rep.errors.append("no place which creates the optimizer found")
        return
    _creator(p, rep, cls, create)
    _names(p, rep, cls)
    _grads(p, rep, cls)


def _is_network(t):
    return t[0] == "attr" and t[2] == "network" and t[1][0] == "self"


def _find_creator(p, cls):
    """method which instantiates a dynamically chosen optimizer class with **kwargs"""
    for f in cls.methods.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and any(k.arg is None for k in n.keywords) and n.args:
                if "optim" in n.func.id.lower():
                    return f
    return p.find_method(cls, "_create_optimizer")


def _creator(p, rep, cls, create: Func):
    fl = Flow(create, cls=cls, inline=lambda g: g.cls is not None and g.cls in p.mro(cls) and not g.is_generator, max_depth=3)
    rep.flow(fl, 0)
    sites = []
    for nk, c in fl.calls.items():
        if c.args and "**" in c.kwargs and (c.func[0] in ("call", "phi", "attr", "sub") or not c.targets) and c.recv is None:
            sites.append((nk, c))
    rep.need("R6", len(sites), 1, "optimizer instantiations")
    for nk, c in sites:
        a = c.args[0]
        for x in alts(a):
            _groups_value(p, rep, cls, fl, nk, c, x)
    # the result is what is returned
    _partition(p, rep, cls, fl)


def _groups_value(p, rep, cls, fl, nk, c, x):
    where = nk[0].func.where
    # whole network
    if x[0] == "call" and x[1][0] == "m" and x[1][2] in PARAM_ITERS:
        rep.check("R4", _is_network(x[1][1]), where, "all-params", f"the optimizer gets the parameters of {fmt(x[1][1])}, not of the network", c.line)
        return
    if x[0] == "list":
        rep.ok("R6", f"{where}: {len(x[1])} groups")
        return
    if x[0] == "comp":
        src = [y for y in subterms(x) if y[0] == "call" and y[1][0] == "m" and y[1][2] in PARAM_ITERS]
        if src:
            rep.check("R4", all(_is_network(y[1][1]) for y in src), where, "all-params", f"the optimizer gets the parameters of {fmt(src[0])}, not of the network", c.line)
            if x[3] and not _grad_filter(fl, src):
                rep.bad("R4", where, "params-filter", "not all parameters of the network are given to the optimizer", c.line)
        return
    if x[0] == "attr" and any(_is_network(y) for y in subterms(x)):
        rep.bad("R4", where, "all-params", f"the optimizer gets {fmt(x)}, not all parameters of the network", c.line)
        return
    if x[0] == "call" and any(s[0] == "call" and str(s[1][-1]) in ("pop", "get") for s in subterms(x[1])):
        rep.ok("R6", f"{where}: groups by user function")
        return


def _grad_filter(fl, src):
    """are the filters in comprehensions over these only about requires_grad?"""
    for nk in fl.env:
        if nk[1].kind == "branch":
            t, pol = fl.cond_term(nk)
            if any(y in src for y in subterms(t)) and not any(y[0] == "attr" and y[2] == "requires_grad" for y in subterms(t)):
                return False
    return True


def _partition(p, rep, cls, fl: Flow):
    iters = {}  # nk -> kind
    for nk in fl.env:
        n = nk[1]
        if n.kind != "iter":
            continue
        t = fl.term(nk, n.d["iter"])
        for x in alts(t):
            if x[0] == "call" and x[1] == ("ext", "enumerate") and x[2]:
                x = x[2][0]
            if x[0] == "call" and x[1] == ("ext", "list") and x[2]:
                x = x[2][0]
            if x[0] == "call" and x[1] == ("ext", "dict") and x[2]:
                x = x[2][0]
            if x[0] == "call" and x[1][0] == "m" and x[1][2] in PARAM_ITERS | MODULE_ITERS:
                iters[nk] = x
    # the distributing loop: a (non-comprehension) loop over parameters with container fills
    ploops = {nk: x for nk, x in iters.items() if x[1][2] in PARAM_ITERS and not nk[1].d.get("comp") and _fills(fl, nk)}
    rep.need("R1", len(ploops), 1, "loops distributing the parameters")
    groups = _group_dicts(fl)
    gcont = {}
    for g in groups:
        for k, v in g["items"].items():
            if k == "params":
                for s in deep_new(v):
                    gcont.setdefault(s, []).append(g)
    for nk, x in ploops.items():
        _loop(p, rep, fl, nk, x, iters, gcont, groups)
    for g in groups:
        where = g["where"]
        if "params" not in g["items"]:
            continue
        rep.check("R2", "weight_decay" in g["items"], where, "wd-missing", "a parameter group does not say whether weight decay applies", g["line"])
        v = g["items"]["params"]
        for y in subterms(v):
            if y[0] == "comp" and y[3] and not _only_requires_grad(fl, y):
                rep.bad("R2", where, "group-filter", f"parameters are dropped when the group is built: {fmt(v)[:120]}", g["line"])
            if y[0] == "sub" and len(y) > 2 and y[2][0] == "slice":
                rep.bad("R2", where, "group-slice", f"parameters are cut off when the group is built: {fmt(v)[:120]}", g["line"])
    for s, gs in gcont.items():
        if len(gs) > 1:
            rep.bad("R2", gs[0]["where"], "two-groups", "the same parameters are put in two groups", gs[1]["line"])
        else:
            rep.ok("R2", f"{gs[0]['where']}: container in one group")


def _only_requires_grad(fl, y):
    return False


def deep_new(v):
    return {s for s in subterms(v) if s[0] == "new"}


def _fills(fl, nk):
    """does the loop body put something in containers?"""
    body = _body(fl, nk)
    for k in body:
        c = fl.calls.get(k)
        if c is not None and c.recv is not None and c.name in ("add", "append") and any(s[0] == "new" for s in alts(c.recv)):
            return True
        if k[1].kind == "assign" and k[1].d["target"][0] == "sub":
            b = fl.term(k, k[1].d["target"][1])
            if any(s[0] == "new" for s in alts(b)):
                return True
    return False


def _body(fl, nk):
    """nodes reachable from the iter edge without passing the loop head"""
    frame, node = nk
    todo = [k2 for k2, lab in fl.successors(nk) if lab == "iter"]
    seen = set()
    while todo:
        k = todo.pop()
        if k in seen or k == nk:
            continue
        seen.add(k)
        for k2, lab in fl.successors(k):
            if lab != "exc":
                todo.append(k2)
    # only those which can come back to the head
    back = set()
    preds: Dict = {}
    for k in seen:
        for k2, lab in fl.successors(k):
            preds.setdefault(k2, set()).add(k)
    todo = list(preds.get(nk, ()))
    while todo:
        k = todo.pop()
        if k in back:
            continue
        back.add(k)
        todo.extend(preds.get(k, ()))
    return back


def _group_dicts(fl):
    res = []
    seen = set()
    for nk in fl.env:
        n = nk[1]
        exprs = []
        if n.kind == "assign":
            exprs.append(n.d["value"])
        elif n.kind == "return" and n.d.get("value") is not None:
            exprs.append(n.d["value"])
        elif n.kind == "call":
            exprs += list(n.d["args"])
        elif n.kind == "compadd":
            exprs += list(n.d["values"])
        for e in exprs:
            for d in _dict_exprs(e):
                items = {}
                for k, v in d[1]:
                    if k is not None and k[0] == "c" and isinstance(k[1], str):
                        items[k[1]] = fl.term(nk, v)
                if "params" in items and (nk[0], nk[1].id, d) not in seen:
                    seen.add((nk[0], nk[1].id, d))
                    res.append({"items": items, "where": nk[0].func.where, "line": n.line, "nk": nk})
    return res


def _dict_exprs(e):
    if not isinstance(e, tuple):
        return
    if e and e[0] == "dict" and len(e) > 1 and isinstance(e[1], tuple):
        yield e
    for x in e:
        if isinstance(x, tuple):
            yield from _dict_exprs(x)


def _loop(p, rep, fl: Flow, ploop, src, iters, gcont, groups):
    frame, node = ploop
    where = frame.func.where
    base = src[1][1]
    bad = {}

    def report(rule, nk, construct, msg):
        bad.setdefault((rule, construct), (nk[1].line, msg))

    elem_vars = _elem_names(ploop)
    # enclosing module loop
    mloop = None
    if not _is_network(base):
        for nk, x in iters.items():
            if x[1][2] in MODULE_ITERS and contains(base, x):
                mloop = (nk, x)
        if mloop is None:
            rep.bad("R4", where, "loop-source", f"the parameters are taken from {fmt(base)}, not from the whole network", node.line)
        else:
            rep.check("R4", _is_network(mloop[1][1][1]), where, "module-source", f"the modules are taken from {fmt(mloop[1][1][1])}, not from the network", mloop[0][1].line)
    elif src[2] and src[2][0] != ("c", ""):
        pass
    kw = dict(src[3])
    if _is_network(base):
        rep.check("R4", kw.get("recurse", ("c", True)) == ("c", True), where, "recurse", "only the direct parameters of the network are visited", node.line)
    body = _body(fl, ploop)
    body_modules = _body(fl, mloop[0]) if mloop is not None else set()
    need_guard = mloop is not None or kw.get("remove_duplicate") == ("c", False)

    # identify seen-containers: containers tested with `in` in the loop and added to
    seen_conts = {}
    for nk in body:
        if nk[1].kind == "branch":
            t, pol = fl.cond_term(nk)
            for ta in subterms(t):
                if ta[0] == "cmp" and ta[1] in ("In", "NotIn"):
                    for cont in alts(ta[3]):
                        if cont[0] == "new" and cont not in gcont:
                            seen_conts.setdefault(cont, []).append((nk, ta[2]))

    def fill(nk):
        """(container terms, key term, kind) if this node puts something in a container"""
        c = fl.calls.get(nk)
        if c is not None and nk not in fl.inlined and c.recv is not None and c.name in ("add", "append", "insert") and c.args:
            return alts(c.recv), c.args[-1]
        if nk[1].kind == "assign" and nk[1].d["target"][0] == "sub":
            return alts(fl.term(nk, nk[1].d["target"][1])), fl.term(nk, nk[1].d["target"][2])
        return None, None

    def is_group(cont):
        if cont in gcont:
            return True
        if gcont:
            return False
        return cont[0] == "new" and cont not in seen_conts

    heads = {ploop} | ({mloop[0]} if mloop else set())

    # state: (open, n_adds, excuse, guard, marked, done)
    def step(nk, st, lab):
        op, n, ex, guard, marked, done = st
        nd = nk[1]
        if nk == ploop:
            if lab == "iter":
                if op:
                    close(nk, st)
                return (True, 0, None, False, False, False)
            if lab == "done":
                if op:
                    close(nk, st)
                return (False, 0, None, False, False, mloop is None)
            return st
        if mloop is not None and nk == mloop[0]:
            if lab == "done":
                return (False, 0, None, False, False, True)
            if lab == "iter":
                return (op, n, ex, guard, marked, False)
        if op and lab != "exc" and nk in body:
            conts, key = fill(nk)
            if conts:
                if any(is_group(c) for c in conts):
                    if n >= 1:
                        report("R1", nk, "twice", "a parameter is put in more than one group container")
                    if need_guard and not guard:
                        report("R3", nk, "no-guard", "a parameter which is shared by two modules is put in a group twice: it is not checked whether it was seen")
                    return (op, min(n + 1, 2), ex, guard, marked, done)
                if any(c in seen_conts for c in conts):
                    return (op, n, ex, guard, True, done)
        if op and nk[0] is frame and nk != ploop and (nk in heads or (nd.kind == "return" and nk not in body)):
            # the loop was left in the middle
            report("R1", nk, "abandoned", "the loop over the parameters is left before all parameters were visited")
            return (False, 0, None, False, False, False)
        if nd.kind == "return" and nk[0] is frame and not done:
            v = nd.d.get("value")
            if v is not None:
                t = fl.term(nk, v)
                if any(g in gcont for g in deep_subterms(fl, t)) or (op and nk not in body):
                    report("R1", nk, "early", "the groups are returned before all parameters were visited")
        return st

    def close(nk, st):
        op, n, ex, guard, marked, done = st
        if n == 0 and ex is None:
            report("R1", nk, "dropped", "a parameter can be left out of all groups")
        if n and need_guard and not marked:
            report("R3", nk, "not-marked", "a parameter is put in a group without being remembered as seen: under its second name it is put in a group again")

    def hook(nk, st, t, val):
        if nk not in body:
            return st
        op, n, ex, guard, marked, done = st
        if not op:
            return st
        if t[0] == "cmp" and t[1] in ("In", "NotIn"):
            conts = [c for c in alts(t[3]) if c in seen_conts]
            if conts:
                hit = (t[1] == "In") == val
                if hit:
                    return (op, n, "seen", guard, marked, done)
                return (op, n, ex, True, marked, done)
        if any(x[0] == "attr" and x[2] == "requires_grad" for x in subterms(t)) and t[0] == "attr":
            if not val:
                return (op, n, "frozen", guard, marked, done)
        return st

    ns = fl.simulate((False, 0, None, False, False, False), step, cond_hook=hook)
    rep.flow(fl, ns)
    for (rule, construct), (line, msg) in sorted(bad.items()):
        rep.bad(rule, where, construct, msg, line)
    if not any(k[0] == "R1" for k in bad):
        rep.ok("R1", f"{where}: {ns} states, {len(body)} nodes in the loop, {len(gcont)} group containers")

    # R3 identity
    for cont, uses in seen_conts.items():
        for nk, key in uses:
            rep.check("R3", _identity(key, ploop, fl, src), where, "seen-key", f"seen parameters are recognised by {fmt(key)}, not by identity of the parameter", nk[1].line)
        for nk in body:
            conts, key = fill(nk)
            if conts and cont in conts:
                rep.check("R3", _identity(key, ploop, fl, src), where, "mark-key", f"seen parameters are remembered by {fmt(key)}, not by identity of the parameter", nk[1].line)
    # reset of the seen container in the outer loop
    for cont in list(seen_conts) + list(gcont):
        for nk in body_modules | body:
            n = nk[1]
            if n.kind == "assign":
                v = n.d["value"]
                if v[0] == "new" and fl.term(nk, v) == cont:
                    rep.bad("R3", where, "reset", "the containers are reset inside of the loop over the modules", n.line)
            elif n.kind == "call" and fl.calls.get(nk) is not None and fl._call_value(fl.calls[nk], fl.call_key(fl.calls[nk])) == cont:
                rep.bad("R3", where, "reset", "the containers are reset inside of the loop over the modules", n.line)
            c = fl.calls.get(nk)
            if c is not None and c.recv is not None and c.name in ("clear", "remove", "discard", "pop") and cont in alts(c.recv):
                rep.bad("R1", where, "removed", "parameters are taken out of the groups again", n.line)

    # every filled container goes to a group
    if gcont:
        for nk in body:
            conts, key = fill(nk)
            if not conts:
                continue
            for c in conts:
                if c[0] == "new" and c not in gcont and c not in seen_conts and _mentions_elem(key, ploop, fl, src):
                    rep.bad("R2", where, f"lost-container", "parameters are put in a container which does not go into any group", nk[1].line)
    _callbacks(rep, fl, ploop, body, gcont, fill, mloop)


def _elem_names(ploop):
    return set()


def _param_terms(ploop, fl, src):
    e = ("elem", src)
    return e


def _mentions_elem(key, ploop, fl, src):
    return any(x[0] == "elem" or x[0] == "item" for x in subterms(key))


def _identity(key, ploop, fl, src):
    for x in alts(key):
        if not (x[0] == "call" and str(x[1][-1]).replace(":", ".").split(".")[-1] in IDENT):
            return False
        if not x[2]:
            return False
        # of the parameter, not of its name
        a = x[2][0]
        for y in alts(a):
            if y[0] == "item" and y[2] == 0:
                return False
            if y[0] == "sub" and y[2] == ("c", 0):
                return False
    return True


def _is_name(t):
    """a name, not the parameter itself"""
    return not (_elem_part(t) is not None and _elem_part(t)[1] == 1) and not (t[0] == "call" and t[1] in (("ext", "id"),))


def _mod_name(t, mloop):
    for x in subterms(t):
        ep = _elem_part(x)
        if ep is not None and ep[1] == 0 and ep[0][0] in ("elem", "call") and contains(ep[0], mloop[1]) and not any(s[0] == "call" and s[1][0] == "m" and s[1][2] in PARAM_ITERS for s in subterms(ep[0])):
            return True
    return False


def _callbacks(rep, fl: Flow, ploop, body, gcont, fill, mloop):
    """answers of user callbacks decide; the callback gets the name under which the parameter is grouped"""
    frame, node = ploop
    where = frame.func.where
    keys = set()
    for nk in body:
        conts, key = fill(nk)
        if conts and any(c in gcont for c in conts):
            keys |= set(alts(key))
    cbs = []
    for nk in body:
        c = fl.calls.get(nk)
        if c is None or nk in fl.inlined:
            continue
        kw = c.kwargs
        if "full_param_name" in kw:
            cbs.append((nk, c))
            got = set(alts(kw["full_param_name"]))
            ok = not keys or got == keys or (keys and not any(_is_name(k) for k in keys) and (mloop is None or any(_mod_name(x, mloop) for x in got)))
            rep.check("R5", ok, where, "full-name", "the user function gets another name as full_param_name than the full name of the parameter", c.line)
            if "param" in kw:
                rep.ok("R5", f"{where}: callback per parameter")
    # polarity: answer true -> the group with weight decay
    wd_of = {}
    for cont, gs in gcont.items():
        for g in gs:
            w = g["items"].get("weight_decay")
            if w is not None:
                if w[0] in ("item", "elem"):
                    continue
                ks = {"zero" if y[0] == "c" and not y[1] else "nonzero" for y in alts(w)}
                if len(ks) == 1:
                    wd_of[cont] = ks.pop()
    if not wd_of:
        return
    vals = {}
    for nk, c in cbs:
        vals[fl._call_value(c, fl.call_key(c))] = nk
    if not vals:
        return
    bad = {}

    def step(nk, st, lab):
        if nk == ploop and lab == "iter":
            return None_state
        if lab != "exc" and nk in body:
            conts, key = fill(nk)
            if conts and st[0] is not None:
                ws = [wd_of.get(c) for c in conts]
                if ws and all(w is not None and (w == "nonzero") != st[0] for w in ws):
                    bad[nk] = st[0]
        return st

    None_state = (None, None)

    def hook(nk, st, t, val):
        if nk in body and any(x in vals for x in alts(t)) and st[1] is not True:
            return (val, st[1])
        if nk in body and t[0] == "cmp" and t[1] == "Is" and ("c", None) in t[2:]:
            if any(x in vals for y in t[2:] for x in alts(y)):
                # learned: is None -> no answer
                return (None, True) if val else (st[0], False)
        return st

    # an answer of None means: no decision; only consider truth tests made after the None test
    fl.simulate(None_state, step, cond_hook=hook)
    for nk, ans in bad.items():
        rep.bad("R5", where, f"polarity:{ans}", f"a parameter for which the user function answers {ans} for weight decay is put in the group {'without' if ans else 'with'} weight decay", nk[1].line)
    if not bad:
        rep.ok("R5", f"{where}: answers decide")
    # default rule: biases and blacklisted modules have no weight decay
    bad2 = {}

    def hook2(nk, st, t, val):
        if nk in body and len(alts(t)) > 1:
            return "-"
        if nk in body and val:
            for x in alts(t):
                if x[0] == "call" and str(x[1][-1]) == "endswith" and x[2] and x[2][0] == ("c", "bias"):
                    return "nowd"
                if x[0] == "call" and x[1] == ("ext", "isinstance") and any(s[0] == "call" and str(s[1][-1]).endswith("blacklist_wd_modules") for s in subterms(x)):
                    return "nowd"
        return st

    def step2(nk, st, lab):
        if nk == ploop and lab == "iter":
            return "-"
        if lab != "exc" and nk in body and st == "nowd":
            conts, key = fill(nk)
            if conts and all(wd_of.get(c) == "nonzero" for c in conts):
                bad2[nk] = 1
        return st

    fl.simulate("-", step2, cond_hook=hook2)
    for nk in bad2:
        rep.bad("R5", where, "default-rule", "biases or blacklisted modules get weight decay", nk[1].line)


# ---------------------------------------------------------------------------------------------------------------- state by name


def _names(p, rep, cls):
    load = p.find_method(cls, "load_optimizer")
    save = p.find_method(cls, "save_optimizer")
    if load is None or save is None:
        return
    own = lambda g: g.cls is not None and g.cls in p.mro(cls) and not g.is_generator  # noqa
    fl = Flow(save, cls=cls, inline=own, max_depth=2)
    rep.flow(fl, 0)
    found = False
    for c in fl.all_calls():
        for a in list(c.args) + list(c.kwargs.values()):
            for d in alts(a):
                if d[0] != "dict":
                    continue
                items = {k[1]: v for k, v in d[1] if k is not None and k[0] == "c"}
                if "optimizer" not in items:
                    continue
                found = True
                rep.check("R7", "param_names" in items, save.where, "param_names", "the names of the parameters are not saved with the optimizer state", c.line)
                if "param_names" in items:
                    _opt_order(p, rep, cls, fl, save.where, items["param_names"], c.line)
    if not found:
        rep.ok("R7", f"{save.where}: not resolved")
    for g in _name_funcs(p, cls):
        fl = Flow(g, cls=cls, inline=lambda g: False)
        rep.flow(fl, 0)
        for nk, t in return_terms(fl):
            for y in alts(t):
                y = y[1][0] if y[0] in ("tuple", "tup") and y[1] else y
                _opt_order(p, rep, cls, fl, g.where, y, nk[1].line)
    _load_remap(p, rep, cls, load)


def _name_funcs(p, cls):
    f = p.find_method(cls, "_get_opt_param_names")
    return [f] if f is not None else []


def _opt_order(p, rep, cls, fl, where, t, line):
    """names in the order of the parameters in the groups of the optimizer"""
    for y in alts(t):
        if y[0] == "item" and y[1][0] == "call" and y[1][1][0] == "m" and y[1][1][1][0] == "self":
            continue  # result of own method, checked there
        ds = deep_subterms(fl, y)
        if not any(d[0] == "attr" and d[2] == "param_groups" for d in ds):
            rep.bad("R7", where, "names-source", f"the names ({fmt(y)[:80]}) are not those of the parameters in the groups of the optimizer", line)
            continue
        if any(d[0] == "call" and d[1] in (("ext", "sorted"), ("ext", "set"), ("ext", "reversed"), ("ext", "frozenset")) for d in ds):
            rep.bad("R7", where, "order", "the names are not in the order of the parameters of the optimizer", line)
            continue
        if any(d[0] == "comp" and d[3] for d in ds):
            rep.bad("R7", where, "filter", "not all parameters of the optimizer get a name", line)
            continue
        news = [d for d in ds if d[0] == "new"]
        bad = False
        for nk, c in fl.calls.items():
            if c.recv is not None and any(r in news for r in alts(c.recv)):
                if c.name in ("sort", "reverse", "insert", "pop", "remove"):
                    rep.bad("R7", where, "order", f"the names are not in the order of the parameters of the optimizer: {c.name}", c.line)
                    bad = True
                elif c.name == "append" and y in alts(c.recv) and _conditional(fl, nk):
                    rep.bad("R7", where, "skip", "not all parameters of the optimizer get a name: the indices do not match the names", c.line)
                    bad = True
        if not bad:
            rep.ok("R7", f"{where}: names in optimizer order")


def _conditional(fl, nk):
    """can an iteration of the innermost loop around nk pass without nk?"""
    best = None
    for k in fl.env:
        if k[1].kind == "iter" and k[0] is nk[0]:
            b = _body(fl, k)
            if nk in b and (best is None or len(b) < len(best[1])):
                best = (k, b)
    if best is None:
        return False
    head, body = best
    todo = [k2 for k2, lab in fl.successors(head) if lab == "iter"]
    seen = set()
    while todo:
        k = todo.pop()
        if k == head:
            return True
        if k == nk or k in seen:
            continue
        seen.add(k)
        for k2, lab in fl.successors(k):
            if lab != "exc":
                todo.append(k2)
    return False


def _load_remap(p, rep, cls, load: Func):
    fl = Flow(load, cls=cls, inline=lambda g: False)
    rep.flow(fl, 0)
    where = load.where
    stores: Dict = {}
    for nk in fl.env:
        n = nk[1]
        if n.kind == "assign" and n.d["target"][0] == "sub":
            for b in alts(fl.term(nk, n.d["target"][1])):
                stores.setdefault(b, []).append((nk, fl.term(nk, n.d["target"][2]), fl.term(nk, n.d["value"])))

    def names_space(x):
        """are these the names of the checkpoint or the own ones?"""
        res = set()
        if x[0] == "phi":
            res = {names_space(y) for y in alts(x)}
            return res.pop() if len(res) == 1 else None
        for y in deep_subterms(fl, x) if x[0] == "new" else subterms(x):
            if y[0] == "sub" and y[2] == ("c", "param_names"):
                res.add("ckpt")
            elif y[0] == "call" and y[1][0] == "m" and y[1][2] == "get" and y[2] and y[2][0] == ("c", "param_names"):
                res.add("ckpt")
            elif y[0] == "call" and y[1][0] == "m" and y[1][2] == "_get_opt_param_names":
                res.add("self")
            elif y[0] == "attr" and y[2] == "param_groups":
                res.add("self")
        return res.pop() if len(res) == 1 else None

    def space(t, depth=0):
        """which parameter order does this index refer to?"""
        if depth > 6:
            return None
        if t[0] == "phi":
            r = {space(x, depth + 1) for x in alts(t)}
            return r.pop() if len(r) == 1 else None
        if t[0] == "idx":
            return names_space(t[1])
        if t[0] == "key":
            if any(y[0] == "sub" and y[2] == ("c", "state") for y in alts(t[1])) or (t[1][0] == "sub" and t[1][2] == ("c", "state")):
                return "ckpt"
            return None
        if t[0] == "elem":
            if any(y[0] == "sub" and y[2] == ("c", "params") and names_space(y[1]) is None for y in alts(t[1])):
                return "ckpt"
            return None
        if t[0] == "sub":
            r = set()
            for m in alts(t[1]):
                if m[0] == "comp" and m[1] == "dict" and len(m[2]) == 2:
                    r.add(space(m[2][1], depth + 1))
                elif m in stores:
                    for _, k, v in stores[m]:
                        r.add(space(v, depth + 1))
                else:
                    r.add(None)
            return r.pop() if len(r) == 1 else None
        return None

    n_state = n_group = 0
    for b, lst in stores.items():
        for nk, k, v in lst:
            line = nk[1].line
            if k == ("c", "state"):
                n_state += 1
                for y in alts(v):
                    if y[0] == "comp" and y[1] == "dict" and len(y[2]) == 2:
                        pairs = [y[2]]
                    elif y in stores:
                        pairs = [(k2, v2) for _, k2, v2 in stores[y]]
                    else:
                        continue
                    for k2, v2 in pairs:
                        sp = space(k2)
                        rep.check("R7", sp != "ckpt", where, "state-map", f"the optimizer state keeps the index of the checkpoint although the parameters are in another order ({fmt(k2)[:100]})", line)
                        kk, sk = _elem_part(k2[2]) if k2[0] == "sub" else None, _elem_part(v2)
                        if kk is not None and sk is not None:
                            rep.check("R7", kk[0] == sk[0] and kk[1] == 0 and sk[1] == 1, where, "state-pair", "the optimizer state is not moved to the index of the same parameter", line)
            elif k == ("c", "params"):
                n_group += 1
                for y in alts(v):
                    if y[0] == "comp" and y[1] == "list":
                        rep.check("R7", space(y[2][0]) != "ckpt", where, "group-index", f"the groups keep indices of the checkpoint although the parameters are in another order ({fmt(y[2][0])[:100]})", line)
            elif b[0] == "new":
                # ckpt index -> own index, via the same name
                sk, sv = space(k), space(v)
                if sk is not None and sv is not None:
                    used = _used_as_map(fl, b)
                    if used:
                        rep.check("R7", (sk, sv) == ("ckpt", "self"), where, "index-map", f"an index of {sk} parameters is mapped to an index of {sv} parameters", line)
                        ks = k[1] if k[0] == "idx" else None
                        if v[0] == "sub" and v[2][0] == "elem" and ks is not None:
                            rep.check("R7", v[2][1] == ks, where, "index-name", "the index of the checkpoint is mapped by another name than its own", line)
    if any(isinstance(n, ast.Constant) and n.value == "param_names" for n in ast.walk(load.node)):
        rep.check("R7", n_state > 0, where, "no-state-remap", "the optimizer state is not moved to the current order of the parameters", load.node.lineno)
        rep.check("R7", n_group > 0, where, "no-group-remap", "the parameter indices in the groups are not moved to the current order of the parameters", load.node.lineno)
    # the state is only left out for parameters which do not exist any more
    for nk in fl.env:
        if nk[1].kind == "branch":
            t, pol = fl.cond_term(nk)
            for ta in subterms(t):
                if ta[0] == "cmp" and any(x[0] == "key" and space(x) == "ckpt" for x in ta[2:]):
                    rep.check("R7", ta[1] in ("In", "NotIn"), where, "state-filter", f"optimizer state is dropped depending on {fmt(ta)[:100]}", nk[1].line)
    # missing trainable parameters raise
    rep.check("R7", _raise_depends_on(p, cls, load, "requires_grad"), where, "critical", "trainable parameters without a state in the checkpoint are not an error", load.node.lineno)
    # remap only skipped when the lists are equal
    for n in ast.walk(load.node):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and all("param_names" in ast.unparse(x) for x in (n.left, n.comparators[0])):
            l, r = ast.unparse(n.left), ast.unparse(n.comparators[0])
            if "group" in l or "critical" in l:
                continue
            if any(s in x for x in (l, r) for s in ("set(", "sorted(", "len(")):
                rep.bad("R7", where, "compare", f"a different order of the parameters is not noticed: {ast.unparse(n)}", n.lineno)
            else:
                rep.ok("R7", f"{where}: {ast.unparse(n)}")


def _used_as_map(fl, b):
    """is an element of this dict read?"""
    for nk in fl.env:
        n = nk[1]
        exprs = []
        if n.kind == "assign":
            exprs = [n.d["value"]] + ([n.d["target"][2]] if n.d["target"][0] == "sub" else [])
        elif n.kind == "compadd":
            exprs = list(n.d["values"])
        for e in exprs:
            for x in subterms(fl.term(nk, e)):
                if x[0] == "sub" and b in alts(x[1]):
                    return True
    return False


def _elem_part(t):
    """(iterated term, 0 key / 1 value) of an element of items()"""
    if t[0] == "item":
        return t[1], t[2]
    if t[0] in ("key", "val"):
        return t[1], 0 if t[0] == "key" else 1
    if t[0] == "sub" and t[2][0] == "c":
        return t[1], t[2][1]
    return None


def _raise_depends_on(p, cls, f: Func, attr):
    """is there a raise (or assert) whose condition depends (by data or control) on the given attribute?"""
    deps: Dict[str, set] = {}  # name -> names/attrs
    raises = []

    def facts(e):
        res = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                res.add(n.id)
            elif isinstance(n, ast.Attribute):
                res.add(n.attr)
        return res

    def walk(stmts, ctrl):
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                deps.setdefault(s.name, set()).update(facts(s))
                continue
            if isinstance(s, ast.Raise):
                raises.append(set(ctrl))
            if isinstance(s, ast.Assert):
                raises.append(set(ctrl) | facts(s.test))
            inner = ctrl
            if isinstance(s, (ast.If, ast.While)):
                inner = ctrl | facts(s.test)
            elif isinstance(s, ast.For):
                inner = ctrl | facts(s.iter)
                for x in facts(s.target):
                    deps.setdefault(x, set()).update(inner)
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and s.value is not None:
                tg = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in tg:
                    for x in facts(t):
                        deps.setdefault(x, set()).update(ctrl | facts(s.value))
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
                for x in facts(s.value.func.value):
                    deps.setdefault(x, set()).update(ctrl | facts(s.value))
            for fld in ("body", "orelse", "finalbody"):
                sub = getattr(s, fld, None)
                if sub:
                    walk(sub, inner)
            for h in getattr(s, "handlers", ()):
                walk(h.body, inner)

    walk(f.node.body, frozenset())
    for nm in list(p_methods(p, cls)):
        m = p.find_method(cls, nm)
        if m is not None and m is not f and nm.startswith("_") and nm not in ("__init__",):
            deps.setdefault(nm, set()).update(facts(m.node))
    for g in f.module.functions.values() if hasattr(f.module, "functions") else ():
        deps.setdefault(g.name, set()).update(facts(g.node))
    for r in raises:
        seen = set(r)
        todo = list(r)
        while todo:
            x = todo.pop()
            for y in deps.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        if attr in seen:
            return True
    return False


def p_methods(p, cls):
    return {n for c in p.mro(cls) for n in getattr(c, "methods", {})}


def _grads(p, rep, cls):
    f = p.find_method(cls, "step")
    if f is None:
        return
    fl = Flow(f, cls=cls, inline=lambda g: g.cls is not None and g.cls in p.mro(cls), max_depth=2)
    rep.flow(fl, 0)
    for c in fl.all_calls():
        nm = c.name or (c.ext() or "").split(".")[-1]
        for t in c.targets:
            nm = nm or getattr(t, "name", None)
        if nm and ("clip_grad" in nm or "gradient_noise" in nm) and c.args:
            ok = any(x[0] == "call" and x[1][0] == "m" and x[1][2] == "parameters" and _is_network(x[1][1]) for a in [c.args[0]] for x in subterms(a))
            ok = ok or any(x[0] == "attr" and x[2] == "param_groups" for x in deep_subterms(fl, c.args[0]))
            rep.check("R8", ok, f.where, nm, f"{nm} does not get all parameters of the network", c.line)
