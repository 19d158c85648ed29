"""
C17 evaluation and forwarding never change the model.
"""

from __future__ import annotations
import ast
from ..flow import Flow, alts, fmt, subterms, relevance_by_names, static_callees, norm_cond
from ..project import walk_own, dotted_name
from .engine_common import TORCH_ENGINE, entry, allowed_module
from .common import is_call_to
from .train_loop import mentions_attr, is_optimizer, _small

EVAL_ENTRIES = ("eval_model", "forward_with_callback")


def check(p, rep):
    rep.rule("R1", "in evaluation/forwarding every model run happens after the model was put into evaluation mode")
    rep.rule("R2", "in evaluation/forwarding every model run happens with gradient computation off")
    rep.rule("R3", "in evaluation/forwarding every model run has train_flag off")
    rep.rule("R4", "no backward pass, optimizer step, clearing of gradients, or step counter change is reachable from evaluation/forwarding")
    rep.rule("R5", "training puts the model into training mode before its first model run, and evaluation within it does not leave it in evaluation mode")
    rep.rule("R6", "the train flag given to a model run reaches the run context (also through the distributed wrapper)")
    rep.rule("R7", "frontend modules update running statistics and inject noise only under the train flag (or an explicit user option)")
    rep.assumptions += ["user-defined step functions and callbacks do not call the optimizer"]
    cls = p.get_class(TORCH_ENGINE)
    if cls is None:
        rep.errors.append("torch Engine not found")
        return
    for m in EVAL_ENTRIES:
        f = p.find_method(cls, m)
        if f is None:
            rep.errors.append(f"Engine.{m} not found")
            continue
        _eval_entry(p, rep, cls, f)
    _train(p, rep, cls)
    _run_step(p, rep, cls)
    _frontend(p, rep)


def _inline(p, not_inline=()):
    rel = relevance_by_names(p, {"_run_step", "eval", "train", "no_grad", "inference_mode", "eval_model"})

    def inline(g):
        if not allowed_module(g, ("returnn.torch.engine", "returnn.engine.base")):
            return False
        if g.name in ("_run_step", "_load_model", "_create_model", "_create_data_loader", "_save_model", "_save_optimizer") + tuple(not_inline):
            return False
        return rel(g) or _small(g)

    return inline


def _is_model(t):
    return any(x[0] == "attr" and x[2] in ("_pt_model", "_orig_model", "_ddp_pt_model") for x in alts(t))


def _nograd(t):
    return all(_nograd1(x) for x in alts(t))


def _nograd1(x):
    if True:
        if x[0] == "call":
            n = str(x[1][-1]).split(".")[-1]
            if n in ("no_grad", "inference_mode", "stop_gradient_scope") and not any(y == ("c", False) for y in x[2]):
                return True
            if n == "set_grad_enabled" and x[2] and x[2][0] == ("c", False):
                return True
    return False


def _mode_events(fl):
    ev = {}
    for nk, c in fl.calls.items():
        if nk in fl.inlined:
            continue
        if c.recv is not None and _is_model(c.recv) and c.name in ("eval", "train"):
            if c.name == "train" and (c.arg(0, "mode") == ("c", False)):
                ev[nk] = "eval"
            elif c.name == "train" and c.arg(0, "mode") not in (None, ("c", True)):
                ev[nk] = "unk"
            else:
                ev[nk] = c.name
        elif c.name == "_run_step" or any(g.name == "_run_step" for g in c.funcs()):
            ev[nk] = "run"
        elif c.name in ("eval_model", "forward_with_callback"):
            ev[nk] = "evalcall"
    return ev


def _eval_entry(p, rep, cls, f):
    fl = Flow(f, cls=cls, inline=_inline(p, EVAL_ENTRIES), max_depth=5)
    ev = _mode_events(fl)
    runs = [nk for nk, e in ev.items() if e == "run"]
    if not runs:
        rep.errors.append(f"{f.where}: no model run found")
        return
    seen = set()

    def bad(rule, construct, msg, nk):
        if (rule, construct) not in seen:
            seen.add((rule, construct))
            rep.bad(rule, nk[0].func.where, construct, msg, nk[1].line, fl.witness())

    # state: (mode, nograd depth)
    def step(nk, st, lab):
        mode, depth = st
        n = nk[1]
        if n.kind == "enter" and lab != "exc" and _nograd(fl.term(nk, n.d["value"])):
            depth = min(depth + 1, 3)
        elif n.kind == "exitwith" and _nograd(fl.term(nk, n.d["value"])):
            depth = max(depth - 1, 0)
        e = ev.get(nk)
        if e in ("eval", "train", "unk"):
            mode = e if lab != "exc" else mode
        elif e == "run":
            if mode != "eval":
                bad("R1", f"run-mode-{mode}", "the model can be run without having been put into evaluation mode", nk)
            if depth <= 0:
                bad("R2", "run-with-grad", "the model can be run with gradient computation enabled", nk)
        return (mode, depth)

    n = fl.simulate(("unk", 0), step)
    rep.flow(fl, n)
    for nk in runs:
        c = fl.calls[nk]
        if not any(s[0] == "R1" for s in seen):
            rep.ok("R1", f"{nk[0].func.where}: _run_step")
        if not any(s[0] == "R2" for s in seen):
            rep.ok("R2", f"{nk[0].func.where}: _run_step")
        tf = c.kwargs.get("train_flag")
        if tf is None and len(c.args) > 1:
            tf = c.args[1]
        if tf is None:
            okf = _default_false(c)
        else:
            okf = all(x in (("c", False), ("c", None)) for x in alts(tf))
        rep.check("R3", okf, nk[0].func.where, "train-flag", "the model is run with train_flag in evaluation/forwarding", c.line)
    # R4: reachability
    reach = _reach(p, f)
    rep.analysed(*reach)
    okr = True
    for g in reach:
        for n in walk_own(g.node):
            what = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                a = n.func.attr
                if a == "backward" and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("self", "cls")):
                    what = "a backward pass"
                elif a == "zero_grad":
                    what = "a clearing of gradients"
                elif a == "step" and _opt_recv(n.func.value):
                    what = "an optimizer step"
            elif isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Attribute) and t.attr == "global_train_step":
                        what = "a change of the global step counter"
            if what:
                okr = False
                rep.bad("R4", g.where, f"reach-{what.split()[-1]}", f"{what} is reachable from {f.name}", n.lineno)
    if okr:
        rep.ok("R4", f"{f.where}: {len(reach)} reachable functions")


def _default_false(c):
    for g in c.funcs():
        a = g.node.args
        for arg, d in list(zip(a.kwonlyargs, a.kw_defaults)) + list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])):
            if arg.arg == "train_flag":
                return isinstance(d, ast.Constant) and not d.value
    return False


def _opt_recv(v):
    d = dotted_name(v) or ""
    if isinstance(v, ast.Call):
        d = dotted_name(v.func) or ""
    last = d.split(".")[-1]
    return last in ("_updater", "updater", "optimizer", "get_optimizer", "_grad_scaler", "grad_scaler", "get_pt_optimizer")


STOP_MODULES = ("returnn.torch.util.debug_inf_nan", "returnn.util.debug")


def _reach(p, f):
    res = []
    todo = [f]
    while todo:
        g = todo.pop()
        if g in res:
            continue
        res.append(g)
        for h in static_callees(p, g):
            if h.module.name in STOP_MODULES or h in res:
                continue
            if allowed_module(h, ("returnn.torch.engine", "returnn.engine", "returnn.torch.updater", "returnn.torch.distributed", "returnn.torch.util")):
                if h.name in ("_load_model", "_create_model", "__init__"):
                    continue
                todo.append(h)
        # nested functions of g
        for n in ast.walk(g.node):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not g.node:
                for h in p.all_funcs():
                    if h.node is n and h not in res:
                        todo.append(h)
    return res


def _train(p, rep, cls):
    f = p.find_method(cls, "train_epoch")
    if f is None:
        rep.errors.append("Engine.train_epoch not found")
        return
    fl = Flow(f, cls=cls, inline=_inline(p, EVAL_ENTRIES), max_depth=5)
    ev = _mode_events(fl)
    seen = set()

    def step(nk, st, lab):
        mode, depth = st
        n = nk[1]
        if n.kind == "enter" and lab != "exc" and _nograd(fl.term(nk, n.d["value"])):
            depth = min(depth + 1, 3)
        elif n.kind == "exitwith" and _nograd(fl.term(nk, n.d["value"])):
            depth = max(depth - 1, 0)
        e = ev.get(nk)
        if e in ("eval", "train", "unk"):
            mode = e
        elif e == "evalcall":
            mode = "eval"
        elif e == "run" and lab != "exc":
            if mode != "train" and "m" not in seen:
                seen.add("m")
                rep.bad("R5", nk[0].func.where, "train-run-mode", f"the model can be run for training while it is in {'evaluation' if mode == 'eval' else 'an undetermined'} mode", n.line, fl.witness())
            if depth > 0 and "g" not in seen:
                seen.add("g")
                rep.bad("R5", nk[0].func.where, "train-run-nograd", "the model is run for training with gradient computation off", n.line, fl.witness())
        return (mode, depth)

    n = fl.simulate(("unk", 0), step)
    rep.flow(fl, n)
    if not any(e == "run" for e in ev.values()):
        rep.errors.append(f"{f.where}: no model run found")
    elif not seen:
        rep.ok("R5", f.where)


def _run_step(p, rep, cls):
    f = p.find_method(cls, "_run_step")
    if f is None:
        rep.errors.append("Engine._run_step not found")
        return
    fl = Flow(f, cls=cls, inline=lambda g: allowed_module(g, ("returnn.torch.engine",)) and _small(g), max_depth=3)
    rep.flow(fl)
    n = 0
    for nk, c in fl.calls.items():
        nm = c.name or ""
        ext = c.ext() or ""
        if any(g.name == "init_train_step_run_ctx" for g in c.funcs()) or ext.endswith("init_train_step_run_ctx") or nm == "init_train_step_run_ctx":
            n += 1
            v = c.kwargs.get("train_flag")
            okv = v is not None and all(x[0] == "param" and x[2] == "train_flag" for x in alts(v))
            rep.check("R6", okv, nk[0].func.where, "init-train-ctx", f"the run context gets train_flag={fmt(v) if v else 'its default'} instead of the caller's", c.line)
        elif any(x[0] == "attr" and x[2] == "_ddp_pt_model" for y in [fl.ev(c.node.d["func"], fl.env[nk], nk[0])] for x in alts(y)):
            n += 1
            v = c.kwargs.get("train_flag")
            okv = v is not None and all(x[0] == "param" and x[2] == "train_flag" for x in alts(v))
            w = c.kwargs.get("train_func")
            okw = w is not None and all(x[0] == "param" and x[2] == "train_func" for x in alts(w))
            rep.check("R6", okv and okw, nk[0].func.where, "ddp-forward", "the distributed wrapper is called without passing the caller's train_flag/train_func on", c.line)
    if n < 1:
        rep.errors.append("_run_step: no run context initialisation found")
    # the functions creating the run context
    for name, want in (("init_train_step_run_ctx", "param"), ("init_forward_step_run_ctx", False)):
        g = None
        for h in p.all_funcs():
            if h.name == name and h.module.name == "returnn.frontend.run_ctx":
                g = h
        if g is None:
            continue
        fl2 = Flow(g)
        for nk, c in fl2.calls.items():
            if any(k.name == "RunCtx" for k in c.classes()):
                v = c.kwargs.get("train_flag")
                if want == "param":
                    okv = v is not None and v[0] == "param" and v[2] == "train_flag"
                else:
                    okv = v is None or v == ("c", False)
                rep.check("R6", okv, g.where, "run-ctx", f"RunCtx is created with train_flag={fmt(v) if v else 'default'}", c.line)
    rc = p.get_class("returnn.frontend.run_ctx.RunCtx")
    if rc is not None:
        init = p.find_method(rc, "__init__")
        prop = p.find_method(rc, "train_flag")
        a = init.node.args
        d = {x.arg: dv for x, dv in zip(a.kwonlyargs, a.kw_defaults)}
        if "train_flag" in d:
            okd = isinstance(d["train_flag"], ast.Constant) and d["train_flag"].value is False
            rep.check("R6", okd, init.where, "default-train-flag", "RunCtx has train_flag on by default")
        from .common import return_terms

        if prop is not None:
            fl3 = Flow(prop, cls=rc)
            ts = [t for _, t in return_terms(fl3)]
            stored = set()
            fl4 = Flow(init, cls=rc)
            for nk in fl4.env:
                n = nk[1]
                if n.kind == "assign" and n.d["target"][0] == "a":
                    v = fl4.term(nk, n.d["value"])
                    if v[0] == "param" and v[2] == "train_flag":
                        stored.add(n.d["target"][2])
            okp = bool(ts) and all(t[0] == "attr" and t[2] in stored for t in ts)
            rep.check("R6", okp, prop.where, "train-flag-property", "RunCtx.train_flag does not return the flag it was created with")


# ---------------------------------------------------------------- frontend

NOISE = ("_dropout",)


def implies_train(t) -> bool:
    """truth of t implies the train flag, or an explicit option of the user"""
    t, pol = norm_cond(t)
    if not pol:
        # not self.update_only_in_train: explicit option
        return t[0] == "attr" and t[1][0] == "self" and "train" in t[2]
    if t[0] == "attr" and t[2] == "train_flag":
        return True
    if t[0] == "attr" and t[2] == "_train_flag":
        return True
    if t[0] == "param":
        return True  # explicit option of the caller (on_forward)
    if t[0] == "phi":
        return all(implies_train(x) for x in t[1])
    if t == ("c", False) or t == ("c", None):
        return True
    if t[0] == "bool":
        return (any if t[1] == "And" else all)(implies_train(x) for x in t[2])
    if is_call_to(t, "opt_logical_and", "logical_and"):
        return any(implies_train(x) for x in t[2])
    if is_call_to(t, "opt_logical_or", "logical_or"):
        return all(implies_train(x) for x in t[2])
    if t[0] == "cmp" and t[1] == "Is" and ("c", None) in t[2:4]:
        # no running statistics: nothing to update
        return any("running" in str(x[2]) for x in subterms(t) if x[0] in ("attr", "param"))
    return False


def _sensitive(p, g):
    """calls in g (own or nested code) which update parameters or inject train-only noise: (call node, what, path of enclosing functions)"""
    res = []

    def walk(n, encl):
        for c in ast.iter_child_nodes(n):
            e2 = encl
            if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                e2 = encl + [c]
            if isinstance(c, ast.Call):
                w = None
                if isinstance(c.func, ast.Attribute):
                    if c.func.attr in ("assign", "assign_add", "assign_key") and _self_attr(c.func.value):
                        w = f"update of {dotted_name(c.func.value)}"
                    elif c.func.attr == "dropout" and any(k.arg == "on_forward" and isinstance(k.value, ast.Constant) and k.value.value for k in c.keywords):
                        w = "unconditional dropout"
                    elif c.func.attr in ("random_normal", "random_uniform", "random") and g.module.name == "returnn.frontend.parametrizations":
                        w = "weight noise"
                elif isinstance(c.func, ast.Name) and c.func.id in NOISE:
                    w = "dropout"
                if w:
                    res.append((c, w, e2))
            walk(c, e2)

    walk(g.node, [])
    return res


def _self_attr(v):
    return isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == "self"


def _frontend(p, rep):
    n_sites = 0
    for g in p.all_funcs():
        if not g.module.name.startswith("returnn.frontend.") or g.module.name.startswith("returnn.frontend._"):
            continue
        if g.parent is not None and not g.cls and False:
            continue
        if g.name in ("__init__", "assign", "_dropout", "setup", "right_inverse") or g.module.name.endswith((".parametrize", ".parameter", ".init", ".loss")):
            continue
        if isinstance(g.node, ast.Lambda) or _is_nested(p, g):
            continue
        sites = _sensitive(p, g)
        if not sites:
            continue
        rep.analysed(g)
        fl = Flow(g, cls=g.cls)
        for call, what, encl in sites:
            n_sites += 1
            okg = False
            if encl:
                h = encl[0]
                okg = _nested_guarded(fl, g, h)
            else:
                okg = _direct_guarded(fl, g, call)
            rep.check("R7", okg, g.where, f"guard-{what}", f"{what} is not restricted to training (train flag)", call.lineno)
    if n_sites < 3:
        rep.errors.append(f"frontend: only {n_sites} train-only operations found")
    # torch batch norm
    for g in p.all_funcs():
        if g.module.name == "returnn.torch.frontend._backend" and g.name == "batch_norm":
            fl = Flow(g)
            for nk, c in fl.calls.items():
                if (c.ext() or "").endswith("functional.batch_norm"):
                    v = c.kwargs.get("training")
                    okv = v is not None and all(implies_train(x) for x in alts(v))
                    rep.check("R7", okv, g.where, "torch-batch-norm", "torch batch_norm can update its running statistics outside of training", c.line)
            rep.flow(fl)


_nested_cache = {}


def _is_nested(p, g):
    k = id(p)
    if k not in _nested_cache:
        s = set()
        for h in p.all_funcs():
            for n in ast.walk(h.node):
                if n is not h.node and isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    s.add(n)
        _nested_cache[k] = s
    return g.node in _nested_cache[k]


def _nested_guarded(fl, g, h):
    """the nested function/lambda h is only used as the true branch of cond(pred, ...) with pred implying training"""
    uses = 0
    okn = 0
    for n in ast.walk(g.node):
        if isinstance(n, ast.Call):
            args = list(n.args) + [k.value for k in n.keywords]
            hit = None
            for i, a in enumerate(n.args):
                if a is h or (isinstance(h, ast.FunctionDef) and isinstance(a, ast.Name) and a.id == h.name):
                    hit = i
            for k in n.keywords:
                if k.value is h or (isinstance(h, ast.FunctionDef) and isinstance(k.value, ast.Name) and k.value.id == h.name):
                    hit = k.arg
            if isinstance(h, ast.FunctionDef) and isinstance(n.func, ast.Name) and n.func.id == h.name:
                uses += 1
                if _direct_guarded(fl, g, n):
                    okn += 1
                continue
            if hit is None:
                continue
            uses += 1
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
            if nm == "cond" and hit in (1, "true_fn"):
                for nk, c in fl.calls.items():
                    if c.node.line == n.lineno and (c.name == "cond" or (c.ext() or "").endswith(".cond")):
                        if _pred_ok(fl, nk):
                            okn += 1
                            break
    return uses > 0 and okn == uses


def _pred_ok(fl, nk0):
    """on every path, the predicate of the cond call implies training"""
    d = nk0[1].d
    e = d["args"][0] if d["args"] else dict(d["kwargs"]).get("pred")
    if e is None:
        return False
    rel = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x[0] in ("n", "t") and x not in rel:
            rel.add(x)
            for nk in fl.env:
                if nk[1].kind == "assign" and nk[1].d["target"] == x:
                    todo.append(nk[1].d["value"])
    res = {"ok": True, "n": 0}

    def hook(nk, st, t, val):
        if (val and implies_train(t)) or (not val and implies_train(("u", "Not", t))):
            return (1, st[1])
        return st

    def val_of(nk, st, x):
        m = dict(st[1])
        return m[x] if x in m else fl.term(nk, x)

    def step(nk, st, lab):
        n = nk[1]
        if n.kind == "assign" and n.d["target"] in rel:
            m = dict(st[1])
            m[n.d["target"]] = val_of(nk, st, n.d["value"])
            return (st[0], frozenset(m.items()))
        if nk == nk0:
            res["n"] += 1
            t = val_of(nk, st, e)
            if not all(implies_train(x) or (x == ("c", True) and st[0]) for x in alts(t)):
                res["ok"] = False
        return st

    fl.simulate((0, frozenset()), step, cond_hook=hook)
    return res["ok"] and res["n"] > 0


def _direct_guarded(fl, g, call):
    nodes = {nk for nk, c in fl.calls.items() if c.node.line == call.lineno and c.name == (call.func.attr if isinstance(call.func, ast.Attribute) else call.func.id)}
    if not nodes:
        return False
    state = {"ok": True}

    def hook(nk, st, t, val):
        if val and implies_train(t):
            return 1
        if not val and implies_train(("u", "Not", t)):
            return 1
        return st

    def step(nk, st, lab):
        if nk in nodes and not st:
            state["ok"] = False
        return st

    fl.simulate(0, step, cond_hook=hook)
    return state["ok"]
