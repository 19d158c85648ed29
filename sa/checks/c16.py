"""
C16 gradient post-processing happens in the right order, once, on real gradients.
"""

from __future__ import annotations
import ast
from ..flow import Flow, alts, fmt, subterms
from .engine_common import TORCH_ENGINE, entry, allowed_module
from .common import is_call_to
from .train_loop import train_flow, events, mentions_attr

UPD = "returnn.torch.updater.Updater"
KEYS = {"noise": "gradient_noise", "clipv": "gradient_clip", "clipn": "gradient_clip_global_norm"}
TXT = {"noise": "gradient noise", "clipv": "clipping by value", "clipn": "clipping by global norm"}


def check(p, rep):
    rep.rule("R1", "with a gradient scaler: unscale, post-process, scaler.step, scaler.update, each exactly once and in this order; no direct optimizer step")
    rep.rule("R2", "without a gradient scaler: exactly one direct optimizer step and no scaler operation")
    rep.rule("R3", "each configured post-processing is applied exactly once per step, and an unconfigured one never")
    rep.rule("R4", "noise before clipping; gradients are not modified after the optimizer consumed them")
    rep.rule("R5", "post-processing sees all parameters of the network (no exhausted generator, no subset) and the configured value")
    rep.rule("R6", "the loss is scaled iff a gradient scaler is used, and the same scaler is handed to the optimizer step")
    rep.rule("R7", "the gradient noise function changes the gradient of every trainable parameter that has one")
    rep.assumptions += ["torch's GradScaler, clip_grad_value_ and clip_grad_norm_ do what their documentation says"]
    _step(p, rep)
    _engine(p, rep)
    _noise(p, rep)


def writes_grad(node) -> bool:
    for n in ast.walk(node):
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Attribute) and t.attr == "grad":
                    return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.endswith("_") and not n.func.attr.startswith("_"):
            b = n.func.value
            while isinstance(b, ast.Attribute) and b.attr == "data":
                b = b.value
            if isinstance(b, ast.Attribute) and b.attr == "grad":
                return True
    return False


def _config_attrs(p, cls):
    """attribute -> config key it was read from"""
    f = p.find_method(cls, "__init__")
    res = {}
    if f is None:
        return res
    fl = Flow(f, cls=cls, inline=lambda g: allowed_module(g, ("returnn.torch.updater",)), max_depth=3)
    for nk in fl.env:
        n = nk[1]
        if n.kind == "assign" and n.d["target"][0] == "a":
            v = fl.term(nk, n.d["value"])
            for x in subterms(v):
                if x[0] == "call" and x[2] and x[2][0][0] == "c" and x[2][0][1] in KEYS.values():
                    res.setdefault(n.d["target"][2], set()).add(x[2][0][1])
    return res


def _op_of_call(c, nk, fl):
    if nk in fl.inlined:
        return None
    e = c.ext() or ""
    last = e.split(".")[-1] or c.name
    if c.name in ("clip_grad_value_",) or last == "clip_grad_value_":
        return "clipv"
    if c.name in ("clip_grad_norm_", "clip_grad_norm") or last == "clip_grad_norm_":
        return "clipn"
    for g in c.funcs():
        if writes_grad(g.node):
            return "noise"
    return None


def _step(p, rep):
    cls, f = entry(p, UPD, "step")
    if f is None:
        rep.errors.append("Updater.step not found")
        return
    cfg = _config_attrs(p, cls)
    for op, key in KEYS.items():
        if not any(key in v for v in cfg.values()):
            rep.bad("R3", f"{f.module.relpath}:Updater.__init__", f"config-{key}", f"the option {key} is not read (or not stored) by the updater")

    def inline(g):
        return allowed_module(g, ("returnn.torch.updater",)) and not writes_grad(g.node)

    fl = Flow(f, cls=cls, inline=inline, max_depth=4)
    scaler = None
    for a in f.param_names():
        if "scaler" in a:
            scaler = a
    ev = {}

    def is_scaler(t):
        return any(x[0] == "param" and x[2] == scaler for x in alts(t)) or mentions_attr(t, "_grad_scaler")

    for nk, c in fl.calls.items():
        if nk in fl.inlined:
            continue
        op = _op_of_call(c, nk, fl)
        if op:
            ev[nk] = (op,)
        elif c.recv is not None and is_scaler(c.recv) and c.name in ("unscale_", "step", "update"):
            ev[nk] = ("s_" + c.name,)
        elif c.name == "step":
            ev[nk] = ("o_step",)
    for nk in fl.env:
        n = nk[1]
        if n.kind == "assign" and n.d["target"][0] == "a" and n.d["target"][2] == "grad":
            ev[nk] = ("noise", "direct")
    seen = set()

    def bad(rule, construct, msg, nk=None):
        if (rule, construct) in seen:
            return
        seen.add((rule, construct))
        nk = nk or fl.sim_cur[0]
        rep.bad(rule, nk[0].func.where, construct, msg, nk[1].line, fl.witness())

    def cfg_key(t):
        ks = set()
        for x in subterms(t):
            if x[0] == "attr":
                ks |= cfg.get(x[2], set())
            if x[0] == "c" and x[1] in KEYS.values():
                ks.add(x[1])
        return ks

    # arguments
    for nk, e in ev.items():
        if e[0] not in KEYS or len(e) > 1:
            continue
        c = fl.calls[nk]
        val = c.arg(1, {"noise": "std", "clipv": "clip_value", "clipn": "max_norm"}[e[0]])
        ps = c.arg(0, "parameters") if e[0] != "noise" else (c.args[0] if c.args else c.arg(0, "params"))
        ks = set() if val is None else cfg_key(val)
        rep.check("R5", KEYS[e[0]] in ks, nk[0].func.where, f"value-{e[0]}", f"{TXT[e[0]]} does not use the configured {KEYS[e[0]]}", c.line)
        okp = ps is not None and all(_all_params(x, fl) for x in alts(ps))
        rep.check("R5", okp, nk[0].func.where, f"params-{e[0]}", f"{TXT[e[0]]} is not applied to all parameters of the network ({fmt(ps)[:80] if ps else None})", c.line)

    def gens(nk):
        """local variables passed that hold a generator of parameters"""
        n = nk[1]
        res = []
        for a in n.d.get("args", ()):
            if a[0] == "n" and all(is_call_to(x, "parameters", "named_parameters") or x[0] == "comp" and x[1] == "gen" for x in alts(fl.term(nk, a))):
                res.append((nk[0], a[1]))
        return res

    ORDER = {"s_unscale_": 0, "noise": 1, "clipv": 2, "clipn": 2, "s_step": 3, "o_step": 3, "s_update": 4}
    # state: (frozenset of (event, count)), scaler known (None/True/False), config known, used generators
    INIT = (frozenset(), None, frozenset(), frozenset())

    def step(nk, st, lab):
        cnt, sc, conf, used = st
        n = nk[1]
        if lab == "exc":
            return None
        if n.kind == "assign" and n.d["target"][0] == "n":
            used = used - {(nk[0], n.d["target"][1])}
        e = ev.get(nk)
        if e is None:
            return (cnt, sc, conf, used)
        name = e[0]
        d = dict(cnt)
        if name in KEYS and len(e) == 1:
            for g in gens(nk):
                if g in used:
                    bad("R5", f"exhausted-{name}", f"{TXT[name]} gets a parameter generator that was already consumed", nk)
                used = used | {g}
        if name in ("noise", "clipv", "clipn"):
            if d.get("s_step") or d.get("o_step"):
                bad("R4", f"{name}-after-step", f"{TXT[name]} after the optimizer already consumed the gradients", nk)
            if sc is not False and not d.get("s_unscale_") and sc is True:
                bad("R1", f"{name}-before-unscale", f"{TXT[name]} on gradients that are still scaled", nk)
            if name == "noise" and (d.get("clipv") or d.get("clipn")) and not d.get("noise"):
                bad("R4", "noise-after-clip", "gradient noise is added after clipping", nk)
        if name == "s_unscale_" and any(d.get(x) for x in ("noise", "clipv", "clipn", "s_step")):
            bad("R1", "unscale-late", "gradients are unscaled after they were post-processed or consumed", nk)
        if name == "s_update" and not d.get("s_step"):
            bad("R1", "update-before-step", "the scaler is updated before the step", nk)
        if len(e) > 1:
            d[name] = 1
        else:
            d[name] = min(d.get(name, 0) + 1, 2)
        if name.startswith("s_") and sc is False:
            return None
        return (frozenset(d.items()), sc, conf, used)

    def hook(nk, st, t, val):
        cnt, sc, conf, used = st
        if t[0] == "cmp" and t[1] == "Is" and ("c", None) in t[2:4]:
            x = t[2] if t[3] == ("c", None) else t[3]
            if is_scaler(x):
                if sc is not None and sc != (not val):
                    return None
                sc = not val
        elif is_scaler(t):
            if sc is not None and sc != val:
                return None
            sc = val
        else:
            ks = cfg_key(t)
            if len(ks) == 1:
                k = next(iter(ks))
                on = None
                if t[0] == "attr" or t[0] == "call":
                    on = val
                elif t[0] == "cmp" and t[1] == "Lt" and t[2] == ("c", 0):
                    on = val
                elif t[0] == "cmp" and t[1] == "Lt" and t[2] == ("c", 0.0):
                    on = val
                elif t[0] == "cmp" and t[1] == "Eq" and any(x in (("c", 0), ("c", 0.0)) for x in t[2:4]):
                    on = not val
                elif t[0] == "cmp" and t[1] == "Is" and ("c", None) in t[2:4]:
                    on = None if not val else False
                    if not val:
                        on = None
                if on is not None:
                    if (k, not on) in conf:
                        return None
                    conf = conf | {(k, on)}
        return (cnt, sc, conf, used)

    ends = [0]

    def on_end(nk, st, kind):
        if kind != "exit":
            return
        ends[0] += 1
        cnt, sc, conf, used = st
        d = dict(cnt)
        if sc is True or (sc is None and any(k.startswith("s_") for k in d)):
            for k, tx in (("s_unscale_", "unscaled"), ("s_step", "stepped through the scaler"), ("s_update", "followed by a scaler update")):
                if d.get(k, 0) != 1 and not (k == "s_unscale_" and d.get(k, 0) == 0 and not any(d.get(o) for o in KEYS)):
                    bad("R1", f"{k}-{d.get(k, 0)}", f"with a gradient scaler, a step is {tx} {d.get(k, 0)} times", nk)
            if d.get("o_step"):
                bad("R1", "direct-step", "with a gradient scaler, the optimizer is stepped directly", nk)
        else:
            if d.get("o_step", 0) != 1:
                bad("R2", f"steps-{d.get('o_step', 0)}", f"without a gradient scaler, the optimizer is stepped {d.get('o_step', 0)} times", nk)
        for op, key in KEYS.items():
            on = True if (key, True) in conf else (False if (key, False) in conf else None)
            k = d.get(op, 0)
            if k > 1:
                bad("R3", f"{op}-twice", f"{TXT[op]} is applied twice in a step", nk)
            if on is True and not k:
                bad("R3", f"{op}-missing", f"{TXT[op]} is configured but not applied on some path", nk)
            elif on is False and k:
                bad("R3", f"{op}-unconfigured", f"{TXT[op]} is applied though not configured", nk)
            elif on is None and k:
                bad("R3", f"{op}-unguarded", f"{TXT[op]} is applied without testing whether it is configured (a value of 0 wipes the gradients)", nk)
            elif on is None and not k:
                bad("R3", f"{op}-never", f"{TXT[op]} is not applied on some path on which it may be configured", nk)

    n = fl.simulate(INIT, step, on_end=on_end, cond_hook=hook)
    rep.flow(fl, n)
    if not ends[0]:
        rep.errors.append("Updater.step: no path to a normal return found")
    for r in ("R1", "R2", "R3", "R4"):
        if not any(s[0] == r for s in seen):
            rep.ok(r, f"{f.where}: {len(ev)} operations, {ends[0]} path classes")


def _all_params(t, fl):
    if is_call_to(t, "parameters", "named_parameters", "values"):
        return True
    if t[0] == "comp":
        # [p for p in X] or [p for p in X if p.grad is not None]
        return any(is_call_to(x, "parameters", "named_parameters") or (x[0] == "attr" and x[2] == "param_groups") for x in subterms(t)) and not (
            len(t) > 3 and t[3] and not _grad_filter(fl)
        )
    if is_call_to(t, "list", "tuple", "iter", "filter", "sorted") and t[2]:
        return all(_all_params(x, fl) for x in alts(t[2][-1]))
    if t[0] == "new":
        return any(is_call_to(x, "parameters", "named_parameters") for x in subterms(t)) or True
    return False


def _grad_filter(fl):
    """all comprehension filters in the analysed functions only look at grad / requires_grad"""
    for fr in {nk[0] for nk in fl.env}:
        for n in ast.walk(fr.func.node):
            if isinstance(n, ast.comprehension):
                for c in n.ifs:
                    attrs = {x.attr for x in ast.walk(c) if isinstance(x, ast.Attribute)}
                    if not attrs or not attrs <= {"grad", "requires_grad"}:
                        return False
    return True


def _engine(p, rep):
    fl, f = train_flow(p)
    if fl is None:
        rep.errors.append("Engine.train_epoch not found")
        return
    ev = events(fl)
    seen = set()

    def bad(construct, msg, nk):
        if construct not in seen:
            seen.add(construct)
            rep.bad("R6", nk[0].func.where, construct, msg, nk[1].line, fl.witness())

    def hook(nk, st, t, val):
        x = None
        if t[0] == "cmp" and t[1] == "Is" and ("c", None) in t[2:4]:
            x, v = (t[2] if t[3] == ("c", None) else t[3]), not val
        else:
            x, v = t, val
        if x[0] == "attr" and x[2] == "_grad_scaler":
            if st is not None and st != v and st != "init":
                return None
            return v
        return st

    def step(nk, st, lab):
        if lab == "exc":
            return None
        e = ev.get(nk)
        if e == "BWD":
            c = fl.calls[nk]
            scaled = [any(is_call_to(x, "scale") for x in subterms(y)) for y in alts(c.recv)]
            if st == "init":
                if not all(scaled) or not any(scaled):
                    pass
                bad("unconditional", "the loss is scaled (or not) without testing for a gradient scaler", nk) if len(set(scaled)) == 1 else None
            elif st is True and not all(scaled):
                # a merged receiver is resolved by the branch itself
                if not any(scaled):
                    bad("unscaled-backward", "a gradient scaler is used, but the loss is not scaled before backward", nk)
            elif st is False and all(scaled):
                bad("scaled-backward", "no gradient scaler, but the loss is scaled", nk)
        elif e == "STEP":
            c = fl.calls[nk]
            if any(g.full.endswith("Updater.step") for g in c.funcs()) or c.name == "step":
                a = c.arg(99, "grad_scaler")
                if a is None and c.args:
                    a = c.args[0]
                if st is False:
                    okv = a is None or a == ("c", None) or mentions_attr(a, "_grad_scaler")
                else:
                    okv = a is not None and mentions_attr(a, "_grad_scaler")
                if not okv:
                    bad("scaler-not-passed", "the optimizer step does not get the gradient scaler the loss was scaled with", nk)
        return st

    n = fl.simulate("init", step, cond_hook=hook, edge_filter=lambda a, l, b: l != "exc")
    rep.flow(fl, n)
    if not seen:
        for nk, e in ev.items():
            if e in ("BWD", "STEP"):
                rep.ok("R6", nk[0].func.where)
    # no other place of the engine post-processes gradients
    for m in ("returnn.torch.engine",):
        mod = p.modules.get(m)
        if mod is None:
            continue
        for g in p.all_funcs():
            if g.module is mod:
                rep.analysed(g)
                if writes_grad(g.node):
                    rep.bad("R4", g.where, "grad-write", "the engine itself modifies gradients outside of the updater step")


def _noise(p, rep):
    """functions of the updater which write gradients"""
    n = 0
    for g in p.all_funcs():
        if g.module.name != "returnn.torch.updater" or not writes_grad(g.node):
            continue
        n += 1
        rep.analysed(g)
        fl = Flow(g, inline=lambda h: False)
        writes = {
            nk for nk in fl.env if nk[1].kind == "assign" and nk[1].d["target"][0] == "a" and nk[1].d["target"][2] == "grad"
        } | {nk for nk, c in fl.calls.items() if c.recv is not None and c.name.endswith("_") and c.recv[0] == "attr" and c.recv[2] == "grad"}
        seen = set()

        # within one iteration: if grad present and trainable -> written exactly once
        def step(nk, st, lab):
            if lab == "exc":
                return None
            if nk[1].kind == "iter" and not nk[1].d.get("comp"):
                if st != "out" and not st[0] and not st[1] and "miss" not in seen:
                    seen.add("miss")
                    rep.bad("R7", g.where, "param-skipped", "a trainable parameter with a gradient does not get noise", nk[1].line, fl.witness())
                return (0, 0) if lab != "done" else "out"
            if nk in writes and st != "out":
                if st[0] and "twice" not in seen:
                    seen.add("twice")
                    rep.bad("R7", g.where, "twice", "noise is added twice to a gradient", nk[1].line, fl.witness())
                return (1, st[1])
            return st

        def hook(nk, st, t, val):
            if st == "out":
                return st
            if t[0] == "attr" and t[2] == "requires_grad" and not val:
                return (st[0], 1)
            if t[0] == "cmp" and t[1] == "Is" and ("c", None) in t[2:4] and mentions_attr(t, "grad") and val:
                return (st[0], 1)
            return st

        def on_end(nk, st, kind):
            if kind == "exit" and st != "out" and "left" not in seen:
                seen.add("left")
                rep.bad("R7", g.where, "loop-left", "the loop over the parameters is left before all were visited", nk[1].line, fl.witness())

        k = fl.simulate("out", step, cond_hook=hook, on_end=on_end)
        rep.flow(fl, k)
        if not seen:
            rep.ok("R7", g.where)
    if not n:
        rep.ok("R7", "no function of the updater writes gradients")
