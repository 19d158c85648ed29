"""
C26 a non-finite training score never gets persisted as progress.
"""

from __future__ import annotations
import ast
from ..flow import Flow, alts, fmt, subterms, norm_cond, relevance_by_names
from ..ir import get_ir
from .engine_common import TORCH_ENGINE, entry, allowed_module
from .common import is_call_to
from .train_loop import train_flow, events, mentions_attr, _small

OPT = "stop_on_nonfinite_train_score"
TF_ENGINE = "returnn.tf.engine.Engine"
TF_RUNNER = "returnn.tf.engine.Runner"
PERSIST = ("_save_model", "_save_optimizer", "save_model", "save", "set_epoch_error", "save_optimizer")


def check(p, rep):
    rep.rule("R1", "after each training batch, unless disabled, all losses that include this batch are tested for inf and nan before the next batch or the end of the epoch")
    rep.rule("R2", "once a loss was found non-finite, the next batch, the end of the epoch and any persisting call are unreachable")
    rep.rule("R3", "the check is on by default and only the documented option turns it off")
    rep.rule("R4", "no caller between the training epoch and the process exit swallows the error")
    rep.assumptions += ["float addition propagates nan/inf into the accumulated losses"]
    _torch(p, rep)
    _tf(p, rep)
    _callers(p, rep)


def _nonfinite_atom(t, val):
    """does (t == val) decide finiteness: returns 'finite' / 'nonfinite' / 'nan_ok' / 'inf_ok' / None; and the tested terms"""
    if t[0] == "phi":
        rs = {_nonfinite_atom(x, val) for x in t[1]}
        return rs.pop() if len(rs) == 1 else None
    if t[0] != "call":
        return None
    nm = str(t[1][-1]).split(".")[-1].split(":")[-1]
    subs = list(subterms(t))

    def has(*ns):
        return all(any(x[0] == "call" and str(x[1][-1]).split(".")[-1] == n for x in subs) for n in ns)

    if nm in ("any", "all"):
        full = has("isinf", "isnan") or has("isfinite")
        if nm == "any" and not has("isfinite"):
            if full:
                return "nonfinite" if val else "finite"
            if has("isnan"):
                return "nonfinite" if val else "nan_ok"
            if has("isinf"):
                return "nonfinite" if val else "inf_ok"
        if nm == "any" and has("isfinite"):
            # any(not isfinite(v))
            if any(x[:2] == ("u", "Not") for x in subs):
                return "nonfinite" if val else "finite"
        if nm == "all" and has("isfinite") and not any(x[:2] == ("u", "Not") for x in subs):
            return "finite" if val else "nonfinite"
        return None
    if nm == "isnan":
        return "nonfinite" if val else "nan_ok"
    if nm == "isinf":
        return "nonfinite" if val else "inf_ok"
    if nm == "isfinite":
        return "finite" if val else "nonfinite"
    return None


def _formula(e):
    """a boolean formula over isinf/isnan/isfinite of one value -> its value for each class of value; None if unknown"""
    CL = ("finite", "inf", "nan")
    if isinstance(e, ast.BoolOp):
        fs = [_formula(x) for x in e.values]
        if any(f is None for f in fs):
            return None
        op = any if isinstance(e.op, ast.Or) else all
        return {k: op(f[k] for f in fs) for k in CL}
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd)):
        fs = [_formula(x) for x in (e.left, e.right)]
        if any(f is None for f in fs):
            return None
        op = any if isinstance(e.op, ast.BitOr) else all
        return {k: op(f[k] for f in fs) for k in CL}
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.Not, ast.Invert)):
        f = _formula(e.operand)
        return None if f is None else {k: not f[k] for k in CL}
    if isinstance(e, ast.Call):
        nm = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else None
        if nm == "isnan":
            return {"finite": False, "inf": False, "nan": True}
        if nm == "isinf":
            return {"finite": False, "inf": True, "nan": False}
        if nm == "isfinite":
            return {"finite": True, "inf": False, "nan": False}
        if nm in ("logical_or", "logical_and") and len(e.args) == 2:
            fs = [_formula(x) for x in e.args]
            if any(f is None for f in fs):
                return None
            op = any if nm == "logical_or" else all
            return {k: op(f[k] for f in fs) for k in CL}
        if nm == "logical_not" and len(e.args) == 1:
            f = _formula(e.args[0])
            return None if f is None else {k: not f[k] for k in CL}
        if nm in ("bool", "list", "array", "asarray") and len(e.args) == 1:
            return _formula(e.args[0])
    return None


def _verdict_of_call(e, val):
    """verdict tokens for: the test call ``e`` (any/all over values) evaluated to ``val``; None: not decided here"""
    if not isinstance(e, ast.Call):
        return None
    f = e.func
    nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
    if nm in ("any", "all"):
        arg = e.args[0] if e.args else (f.value if isinstance(f, ast.Attribute) else None)
        if isinstance(arg, (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
            arg = arg.elt
    else:
        arg, nm = e, "elem"
    fm = _formula(arg) if arg is not None else None
    if fm is None:
        return None
    # which classes may every / some value have
    if nm == "any":
        if val:
            return {"nonfinite"} if not fm["finite"] else set()
        out = set()
        if fm["nan"]:
            out.add("nan_ok")
        if fm["inf"]:
            out.add("inf_ok")
        return out
    if nm == "all":
        if val:
            out = set()
            if not fm["nan"]:
                out.add("nan_ok")
            if not fm["inf"]:
                out.add("inf_ok")
            return out
        return {"nonfinite"} if fm["finite"] else set()
    out = set()
    if fm["nan"] != val:
        out.add("nan_ok")
    if fm["inf"] != val:
        out.add("inf_ok")
    if fm["finite"] != val:
        out.add("nonfinite")
    return out


def _mentions(t, name):
    return any(x[0] in ("attr", "fresh") and x[-1] == name for x in subterms(t))


def _opt_term(t, attrs):
    if t[0] == "attr" and t[2] in attrs:
        return True
    return t[0] == "call" and any(x == ("c", OPT) for x in t[2])


def _option(p, rep, cls):
    """attributes holding the option; default must be on"""
    attrs = set()
    n = 0
    for g in p.all_funcs():
        if g.module is not cls.module:
            continue
        for c in ast.walk(g.node):
            if isinstance(c, ast.Call) and c.args and isinstance(c.args[0], ast.Constant) and c.args[0].value == OPT:
                d = c.args[1] if len(c.args) > 1 else next((k.value for k in c.keywords if k.arg == "default"), None)
                n += 1
                rep.check("R3", isinstance(d, ast.Constant) and d.value is True, g.where, "default-on", f"{OPT} is not on by default", c.lineno)
        for a in ast.walk(g.node):
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Attribute):
                if any(isinstance(x, ast.Constant) and x.value == OPT for x in ast.walk(a.value)):
                    attrs.add(a.targets[0].attr)
    # the attribute is not written elsewhere
    for g in p.all_funcs():
        if g.module is not cls.module:
            continue
        for a in ast.walk(g.node):
            if isinstance(a, (ast.Assign, ast.AugAssign)):
                for t in a.targets if isinstance(a, ast.Assign) else [a.target]:
                    if isinstance(t, ast.Attribute) and t.attr in attrs and not any(isinstance(x, ast.Constant) and x.value == OPT for x in ast.walk(a.value)):
                        rep.bad("R3", g.where, "option-overwritten", f"{t.attr} is changed independently of the option {OPT}", a.lineno)
    return attrs


def _loss_vars(fl, frame_func, is_source):
    """(frame, var) -> holds losses; by closure over assignments"""
    res = set()
    changed = True
    assigns = []
    for nk in fl.env:
        n = nk[1]
        if n.kind == "assign" and n.d["target"][0] in ("n", "t"):
            assigns.append((nk, (nk[0], n.d["target"]), n.d["value"]))
        elif n.kind == "call":
            srcs = list(n.d["args"]) + [v for _, v in n.d["kwargs"]]
            f = n.d["func"]
            if f[0] == "a":
                srcs.append(f[1])
            assigns.append((nk, (nk[0], ("t", n.d["dest"])), ("tup", tuple(srcs))))
    from ..flow import _uses

    while changed:
        changed = False
        for nk, tgt, v in assigns:
            if tgt in res:
                continue
            acc = set()
            _uses(v, acc)
            if is_source(fl.term(nk, v)) or any((nk[0], ("n", x) if isinstance(x, str) else x) in res for x in acc):
                res.add(tgt)
                changed = True
    return res


def _torch(p, rep):
    cls = p.get_class(TORCH_ENGINE)
    fl, f = train_flow(p)
    if fl is None:
        rep.errors.append("Engine.train_epoch not found")
        return
    attrs = _option(p, rep, cls)
    ev = events(fl)
    _sim(p, rep, fl, f, ev, attrs, lambda t: mentions_attr(t, "losses"))


def _is_test_call(c):
    n = (c.ext() or c.name or "").split(".")[-1]
    return n in ("any", "all", "isnan", "isinf", "isfinite")


def _sim(p, rep, fl, f, ev, attrs, is_source):
    from ..flow import _uses

    lossv = _loss_vars(fl, f, is_source)
    seen = set()

    def bad(rule, construct, msg, nk):
        if (rule, construct) not in seen:
            seen.add((rule, construct))
            rep.bad(rule, nk[0].func.where, construct, msg, nk[1].line, fl.witness())

    # which loss variables are refreshed in an iteration: assignments to a loss variable
    upd = {}
    for nk in fl.env:
        n = nk[1]
        if n.kind == "assign" and n.d["target"][0] == "n" and (nk[0], n.d["target"]) in lossv:
            upd[nk] = (nk[0], n.d["target"][1])
    # tested variables: names used in the arguments of the test (incl. comprehension iterables)
    tests = {}
    filtered = False
    for nk, c in fl.calls.items():
        if nk in fl.inlined or not _is_test_call(c):
            continue
        tests[nk] = c
    inner = {}
    for nk in fl.env:
        if nk[1].kind == "iter":
            acc = set()
            _uses(nk[1].d["iter"], acc)
            # resolve temporaries
            names = _names_of(fl, nk, acc)
            if any((nk[0], ("n", x)) in lossv for x in names):
                toks = set()
                for tk in tests:
                    if tk[0] is nk[0] and _inside_loop(nk[1].ast, tk[1].ast, nk[0].func.node):
                        for val in (True, False):
                            toks |= _verdict_of_call(tk[1].ast, val) or set()
                toks.discard("nonfinite")
                if toks:
                    inner[nk] = toks

    # filters in the comprehension that is tested
    for nk, c in tests.items():
        for a in c.args:
            for x in subterms(a):
                if x[0] == "comp" and len(x) > 3 and x[3]:
                    bad("R1", "filtered-test", "only some of the losses are tested for inf/nan", nk)

    # state: (fwd, updated vars, verdict set, enabled)
    INIT = (0, frozenset(), frozenset(), None)

    def finite(v):
        return {"nan_ok", "inf_ok"} <= v

    def end_iter(nk, st, what):
        fwd, u, v, en = st
        if "nonfinite" in v:
            bad("R2", f"continue-{what}", f"{what} is reachable after a loss was found to be inf or nan", nk)
        elif fwd and en is not False and not finite(v):
            miss = "inf and nan" if not v & {"nan_ok", "inf_ok"} else ("inf" if "nan_ok" in v else "nan")
            bad("R1", f"unchecked-{miss}", f"{what} is reachable without the losses of the batch having been tested for {miss}", nk)

    def step(nk, st, lab):
        fwd, u, v, en = st
        n = nk[1]
        exc = lab == "exc"
        if nk in upd and not exc:
            u = u | {upd[nk]}
        e = ev.get(nk)
        if e == "NEXT" and lab != "done" and not exc:
            end_iter(nk, st, "the next batch")
            return (0, frozenset(), frozenset(), None)
        if e == "FWD" and not exc and "nonfinite" not in v:
            fwd = 1
        if n.kind == "iter" and nk in inner and not n.d.get("incomp") and not n.d.get("comp") and lab in ("iter", "done"):
            # explicit loop over the losses: tokens established in every iteration hold afterwards
            cur = {x[2:] for x in v if x.startswith("l:")}
            acc = {x[2:] for x in v if x.startswith("a:")} & cur if "L" in v else set(inner[nk])
            keep = {x for x in v if x[:2] not in ("l:", "a:") and x != "L"}
            v = keep | ({"L"} | {"a:" + x for x in acc} if lab == "iter" else acc)
        if "nonfinite" in v and n.kind == "call" and nk not in fl.inlined and not exc:
            c = fl.calls.get(nk)
            if c is not None and (c.name in PERSIST and (c.funcs() or c.name != "save")):
                bad("R2", f"persist-{c.name}", f"{c.name} is called after a loss was found to be inf or nan", nk)
        return (fwd, u, frozenset(v), en)

    def hook(nk, st, t, val):
        fwd, u, v, en = st
        if _opt_term(t, attrs):
            if en is not None and en != val:
                return None
            return (fwd, u, v, val)
        r = _nonfinite_atom(t, val)
        if r is None and not any(x[0] == "call" and str(x[1][-1]).split(".")[-1] in ("any", "all") for x in alts(t)):
            return st
        if _in_comp(nk):
            return st
        # is it about losses updated in this iteration?
        tks = _about_losses(fl, nk, t, u, lossv, tests)
        if not tks:
            return st
        rs = [_verdict_of_call(tk[1].ast, val) for tk in tks]
        if any(x is None for x in rs):
            toks = {r} if r else set()
        else:
            toks = set.intersection(*map(set, rs))
        if "finite" in toks:
            toks = (toks - {"finite"}) | {"nan_ok", "inf_ok"}
        if "L" in v:
            return (fwd, u, v | {("l:" + x) if x != "nonfinite" else x for x in toks}, en)
        return (fwd, u, v | toks, en)

    def _in_comp(nk):
        return nk[1].d.get("incomp") is True

    def on_end(nk, st, kind):
        if kind == "exit":
            end_iter(nk, st, "the normal end of the epoch")

    n = fl.simulate(INIT, step, on_end=on_end, cond_hook=hook)
    rep.flow(fl, n)
    if not tests:
        rep.bad("R1", f.where, "no-test", "no test of losses for inf/nan found")
    for r in ("R1", "R2"):
        if not any(s[0] == r for s in seen):
            rep.ok(r, f"{f.where}: {len(tests)} tests")


def _inside_loop(it, call, func):
    for x in ast.walk(func):
        if isinstance(x, (ast.For, ast.AsyncFor)) and (x.iter is it or x is it):
            return any(y is call for s in x.body for y in ast.walk(s))
    return False


def _names_of(fl, nk, acc):
    """local names an IR use-set goes back to (through temporaries)"""
    names = set()
    todo = list(acc)
    done = set()
    from ..flow import _uses

    while todo:
        x = todo.pop()
        if x in done:
            continue
        done.add(x)
        if isinstance(x, str):
            names.add(x)
            continue
        for nk2 in fl.env:
            if nk2[0] is not nk[0]:
                continue
            n = nk2[1]
            if n.kind == "call" and ("t", n.d["dest"]) == x:
                a2 = set()
                for y in list(n.d["args"]) + [v for _, v in n.d["kwargs"]] + ([n.d["func"][1]] if n.d["func"][0] == "a" else []):
                    _uses(y, a2)
                todo.extend(a2)
            elif n.kind == "assign" and n.d["target"] == x:
                a2 = set()
                _uses(n.d["value"], a2)
                todo.extend(a2)
    return names


def _about_losses(fl, nk, t, updated, lossv, tests):
    """the tested term was built from a loss variable that was updated in this iteration. Matches the test calls which
    produce this term, and looks at the variables they read."""
    from ..flow import _uses

    res = []
    exact = {}
    if nk[1].kind == "branch":
        acc = set()
        _uses(nk[1].d["cond"], acc)
        for tk, c in tests.items():
            if tk[0] is nk[0] and ("t", tk[1].d["dest"]) in acc:
                exact[tk] = c
    for tk, c in (exact or tests).items():
        last = (c.ext() or c.name or "").split(".")[-1]
        if not any(x[0] == "call" and str(x[1][-1]).split(".")[-1] == last for x in alts(t)):
            continue
        fr = tk[0]
        acc = set()
        n = tk[1]
        for y in n.d["args"]:
            _uses(y, acc)
        if n.d["func"][0] == "a":
            _uses(n.d["func"][1], acc)
        names = _names_of(fl, tk, acc)
        # comprehension variables: names bound by iteration nodes
        grew = True
        while grew:
            grew = False
            for nk2 in fl.env:
                m = nk2[1]
                if nk2[0] is fr and m.kind in ("assign",) and m.d["target"][0] == "n" and m.d["target"][1] in names and m.d["value"][0] == "elem":
                    a2 = set()
                    _uses(m.d["value"], a2)
                    nn = _names_of(fl, nk2, a2) - names
                    if nn:
                        names |= nn
                        grew = True
                if nk2[0] is fr and m.kind == "iter" and m.d.get("comp"):
                    pass
        # comprehension: iterables are part of the argument's expression
        for nk2 in fl.env:
            if nk2[0] is fr and nk2[1].kind == "iter" and nk2[1].line == n.line:
                a2 = set()
                _uses(nk2[1].d["iter"], a2)
                names |= _names_of(fl, nk2, a2)
        # parameters of inlined helpers
        frames = [(fr, x) for x in names]
        out = set()
        while frames:
            fr1, x = frames.pop()
            out.add((fr1, x))
            if fr1.parent is not None and x in fr1.func.param_names() and fr1.call is not None and fr1.call.kind == "call":
                pn = fr1.func.param_names()
                i = pn.index(x)
                o = 1 if (fr1.func.cls is not None and not fr1.func.is_static) else 0
                kw = dict(fr1.call.d["kwargs"])
                args = fr1.call.d["args"]
                src = kw.get(x) or (args[i - o] if 0 <= i - o < len(args) else None)
                if src is not None:
                    a2 = set()
                    _uses(src, a2)
                    for y in _names_of(fl, (fr1.parent, fr1.call), a2):
                        frames.append((fr1.parent, y))
        if any(x in updated for x in out):
            res.append(tk)
    return res


# ---------------------------------------------------------------- TensorFlow engine


def _tf(p, rep):
    cls = p.get_class(TF_RUNNER)
    if cls is None:
        return
    f = p.find_method(cls, "run")
    if f is None:
        rep.errors.append("tf Runner.run not found")
        return
    _option(p, rep, cls)
    fl = Flow(f, cls=cls, inline=lambda g: g.module is cls.module and _small2(g), max_depth=3)
    ev = {}
    collect = set()
    for nk, c in fl.calls.items():
        if nk in fl.inlined:
            continue
        if c.name == "have_more_data":
            ev[nk] = "NEXT"
        elif c.name == "_collect_eval_info":
            ev[nk] = "COLLECT"
        elif c.name == "_finalize":
            ev[nk] = "FINALIZE"
    if "NEXT" not in ev.values() or "FINALIZE" not in ev.values():
        rep.errors.append("tf Runner.run: loop or finalisation not found")
        return
    seen = set()

    def bad(rule, construct, msg, nk):
        if (rule, construct) not in seen:
            seen.add((rule, construct))
            rep.bad(rule, nk[0].func.where, construct, msg, nk[1].line, fl.witness())

    def end(nk, st, what):
        got, v, en = st
        if "nonfinite" in v:
            bad("R2", f"tf-continue-{what}", f"{what} is reachable after a loss was found to be inf or nan", nk)
        elif got and en is not False and not ("finite" in v or {"nan_ok", "inf_ok"} <= v):
            bad("R1", "tf-unchecked", f"{what} is reachable without the accumulated scores having been tested for inf and nan", nk)

    def step(nk, st, lab):
        e = ev.get(nk)
        if e is None or lab == "exc":
            return st
        if e == "NEXT":
            end(nk, st, "the next batch")
            return (0, frozenset(), None)
        if e == "COLLECT":
            return (1, frozenset(), st[2])
        if e == "FINALIZE":
            end(nk, st, "successful finalisation")
        return st

    def hook(nk, st, t, val):
        got, v, en = st
        if _opt_term(t, set()):
            if en is not None and en != val:
                return None
            return (got, v, val)
        r = _nonfinite_atom(t, val)
        if r is None or not _mentions(t, "_results_accumulated") or not got:
            return st
        return (got, v | {r}, en)

    n = fl.simulate((0, frozenset(), None), step, cond_hook=hook, pure=lambda t: True if t[0] == "call" and any(x == ("c", OPT) for x in t[2]) else False)
    rep.flow(fl, n)
    for r in ("R1", "R2"):
        if not any(s[0] == r for s in seen):
            rep.ok(r, f.where)
    # Engine.train_epoch: a runner that was not finalised never leads to scores/checkpoints under the regular name
    ecls, g = entry(p, TF_ENGINE, "train_epoch")
    if g is None:
        rep.errors.append("tf Engine.train_epoch not found")
        return
    fl2 = Flow(g, cls=ecls, inline=lambda h: h.name in ("exit_due_to_error",) or (h.module is ecls.module and _small2(h)), max_depth=3)
    runs = {nk for nk, c in fl2.calls.items() if c.name == "run" and any(h.name == "run" and h.cls is not None and h.cls.name == "Runner" for h in c.funcs())}
    if not runs:
        rep.errors.append("tf Engine.train_epoch: Runner.run call not found")
        return
    seen2 = set()

    def step2(nk, st, lab):
        c = fl2.calls.get(nk)
        if nk in runs and lab != "exc":
            return "run"
        if st == "run" and c is not None and nk not in fl2.inlined and lab != "exc":
            if c.name == "set_epoch_error" or (c.name == "save" and mentions_attr(c.recv or ("x",), "learning_rate_control")) or (
                c.name in ("save_model", "_save_model") and c.args and c.args[0][0] != "cat" and not (c.args[0][0] == "bin")
            ):
                if c.name not in seen2:
                    seen2.add(c.name)
                    rep.bad("R2", nk[0].func.where, f"tf-{c.name}-unfinalized", f"{c.name} is reached without having established that the training run was finalised without error", nk[1].line, fl2.witness())
        return st

    def hook2(nk, st, t, val):
        if st == "run" and val and any(x[0] in ("attr", "fresh") and x[-1] == "finalized" for x in alts(t)):
            return "ok"
        return st

    n = fl2.simulate("init", step2, cond_hook=hook2)
    rep.flow(fl2, n)
    if not seen2:
        rep.ok("R2", g.where)


def _small2(g):
    return sum(isinstance(n, ast.stmt) for n in ast.walk(g.node)) <= 8


# ---------------------------------------------------------------- callers


def _callers(p, rep):
    """every function on the call chain main -> train epoch: an exception raised by the inner call leaves the function,
    or the process reports failure"""
    chain = [
        ("returnn.torch.engine", "Engine", "train", {"train_epoch"}),
        ("returnn.tf.engine", "Engine", "train", {"train_epoch"}),
        ("returnn.__main__", None, "execute_main_task", {"train"}),
        ("returnn.__main__", None, "main", {"execute_main_task"}),
    ]
    for mod, cn, fn, inner in chain:
        f = None
        for g in p.all_funcs():
            if g.module.name == mod and g.name == fn and (g.cls.name if g.cls else None) == cn and not isinstance(g.node, ast.Lambda):
                f = g
                break
        if f is None:
            if mod != "returnn.tf.engine":
                rep.errors.append(f"{mod}:{fn} not found")
            continue
        fl = Flow(f, cls=f.cls, inline=lambda h: False)
        calls = {nk for nk, c in fl.calls.items() if c.name in inner and not (c.ext() or "").startswith("sys")}
        if not calls:
            # maybe moved into a helper of the same module
            fl = Flow(f, cls=f.cls, inline=lambda h: h.module is f.module and any(
                isinstance(x, ast.Attribute) and x.attr in inner or isinstance(x, ast.Name) and x.id in inner for x in ast.walk(h.node)
            ) and h.name not in inner, max_depth=2)
            calls = {nk for nk, c in fl.calls.items() if c.name in inner}
        if not calls:
            rep.errors.append(f"{f.where}: call of {sorted(inner)} not found")
            continue
        seen = set()

        # failing: the exceptional edge of the inner call was taken (an ordinary Exception, not KeyboardInterrupt)
        def step(nk, st, lab):
            if nk in calls and lab == "exc":
                return "failed"
            if nk in calls:
                return st
            n = nk[1]
            if st == "failed" and n.kind == "except":
                if _is_kbd(n):
                    return None
            return st

        def on_end(nk, st, kind):
            if st == "failed" and kind == "exit" and "x" not in seen:
                seen.add("x")
                rep.bad("R4", f.where, "swallowed", f"an error in {sorted(inner)[0]} is swallowed: {f.name} returns normally", nk[1].line, fl.witness())

        def ef(nk, lab, nk2):
            if lab == "exc" and nk not in calls and nk[1].kind == "call":
                return False
            return True

        n = fl.simulate("ok", step, on_end=on_end, edge_filter=ef)
        rep.flow(fl, n)
        if not seen:
            rep.ok("R4", f.where)


def _is_kbd(n):
    t = n.d.get("types")
    return bool(t) and all(str(x).split(".")[-1] in ("KeyboardInterrupt", "GeneratorExit", "StopIteration") for x in t)
