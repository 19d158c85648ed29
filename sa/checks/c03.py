"""
C03 checkpoint / optimizer state round trip.
"""

from __future__ import annotations
from ..flow import Flow, alts, fmt, subterms, contains, relevance_by_names, mk_lin, lin_parts
from ..fileeff import effect
from .engine_common import TORCH_ENGINE, entry, allowed_module, has_const

UPD = "returnn.torch.updater.Updater"
MODS = ("returnn.torch.engine", "returnn.torch.updater", "returnn.engine")


def check(p, rep):
    rep.rule("R1", "the checkpoint stores model state, epoch and global step under their names with the engine's current values")
    rep.rule("R2", "every entry read from a checkpoint / optimizer file is one that is written there; model, epoch, step and optimizer are read")
    rep.rule("R3", "resuming training continues with exactly the stored global step, and with the epoch after the stored one")
    rep.rule("R4", "parameters missing in the loaded checkpoint lead to an error on every path")
    rep.rule("R5", "a resumed optimizer always loads the stored state; on differing parameter order it is remapped by name first")
    rep.rule("R6", "model and optimizer files are looked up under the names they are saved under; resuming loads the optimizer state of the last finished epoch")
    rep.rule("R7", "parameters required by the current optimizer but absent in the stored optimizer state lead to an error")
    rep.assumptions += ["torch.save/torch.load and state_dict/load_state_dict round-trip values", "strict=False reports all missing keys in its result"]
    saved = _save_model(p, rep)
    _load_model(p, rep, saved)
    _optimizer(p, rep)
    _names(p, rep)


def _payload(fl):
    for nk, c in fl.calls.items():
        if c.ext() == "torch.save":
            d = c.arg(0, "obj")
            for a in alts(d):
                if a[0] == "dict":
                    yield nk, c, {k[1]: v for k, v in a[1] if k[0] == "c"}
                else:
                    yield nk, c, None


def _save_model(p, rep):
    cls, f = entry(p, TORCH_ENGINE, "_save_model")
    if f is None:
        cls, f = entry(p, TORCH_ENGINE, "train_epoch")
    fl = Flow(f, cls=cls, inline=lambda g: allowed_module(g, MODS) and relevance_by_names(p, {"torch.save", "state_dict"})(g), max_depth=3)
    rep.flow(fl)
    slf = ("self", cls.full)
    want = {
        "model": lambda t: t[0] == "call" and t[1][0] == "m" and t[1][2] == "state_dict" and t[1][1] == ("attr", slf, "_pt_model"),
        "epoch": lambda t: t == ("attr", slf, "epoch"),
        "step": lambda t: t == ("attr", slf, "global_train_step"),
    }
    keys = set()
    n = 0
    for nk, c, d in _payload(fl):
        if c.frame.func.cls is not None and c.frame.func.cls.full == UPD:
            continue
        if d is None:
            rep.errors.append(f"checkpoint payload in {c.frame.func.where} is not a dict the analysis can enumerate")
            continue
        n += 1
        keys |= set(d)
        for k, pred in want.items():
            if k not in d:
                rep.bad("R1", c.frame.func.where, f"missing:{k}", f"the checkpoint does not store {k!r}", c.line)
            else:
                ts = alts(_deref(fl, nk, d[k]))
                rep.check("R1", all(pred(t) for t in ts), c.frame.func.where, f"value:{k}", f"the checkpoint stores {fmt(d[k])} as {k!r}", c.line)
    rep.need("R1", n, 1, "torch.save of a model checkpoint")
    return keys


def _deref(fl, nk, t):
    return t


def _reads(fl, src_pred):
    """constant keys read from any term satisfying src_pred (.get / [] / in)"""
    res = []
    for nk, c in fl.calls.items():
        if c.name in ("get", "pop", "__getitem__") and c.recv is not None and c.args and c.args[0][0] == "c":
            if any(src_pred(a) for a in alts(c.recv)):
                res.append((c.args[0][1], c.frame.func.where, c.line))
    seen = set()
    for nk, node in [(k, k[1]) for k in fl.env]:
        for key in ("value", "cond"):
            e = node.d.get(key)
            if not isinstance(e, tuple) or node.kind in ("exitwith",):
                continue
            try:
                t = fl.term(nk, e)
            except Exception:
                continue
            for s in subterms(t):
                if s[0] == "sub" and s[2][0] == "c" and any(src_pred(a) for a in alts(s[1])):
                    kk = (s[2][1], nk[0].func.where)
                    if kk not in seen:
                        seen.add(kk)
                        res.append((s[2][1], nk[0].func.where, node.line))
    for nk, c in fl.calls.items():
        for t in list(c.args) + list(c.kwargs.values()) + ([c.recv] if c.recv is not None else []):
            for s in subterms(t):
                if s[0] == "sub" and s[2][0] == "c" and any(src_pred(a) for a in alts(s[1])):
                    kk = (s[2][1], nk[0].func.where)
                    if kk not in seen:
                        seen.add(kk)
                        res.append((s[2][1], nk[0].func.where, c.line))
    return res


def _is_ckpt_filename(t):
    return any(x[0] == "call" and str(x[1][-1]).endswith("get_epoch_model") for x in subterms(t))


def _load_model(p, rep, saved):
    cls, f = entry(p, TORCH_ENGINE, "_load_model")
    if f is None:
        rep.errors.append("Engine._load_model not found")
        return
    rel = relevance_by_names(p, {"load_state_dict", "torch.load", "global_train_step", "set_epoch"})

    def inline(g):
        return allowed_module(g, MODS[:2]) and g.name not in ("_create_model", "set_epoch") and rel(g)

    def is_load(t):
        return t[0] == "call" and t[1] == ("ext", "torch.load") and any(_is_ckpt_filename(x) for x in t[2])

    # --- R2
    fl = Flow(f, cls=cls, inline=inline, max_depth=4)
    rep.flow(fl)
    reads = _reads(fl, is_load)
    got = {k for k, _, _ in reads}
    for k, where, line in reads:
        rep.check("R2", k in saved, where, f"read:{k}", f"reads checkpoint entry {k!r}, which is never written", line)
    for k in ("model", "epoch", "step"):
        rep.check("R2", k in got, f.where, f"restored:{k}", f"checkpoint entry {k!r} is never read back")
    # --- R3
    ep_call = None

    def assume(t):
        # resume training from an existing checkpoint
        if t[0] == "item" and t[2] == 1 and _is_ckpt_filename(t):
            return True
        if t[0] == "cmp" and t[1] == "Is" and ("c", None) in t[2:4]:
            o = t[3] if t[2] == ("c", None) else t[2]
            if o[0] == "item" and _is_ckpt_filename(o) and o[2] == 1:
                return False
            if o[0] == "item" and _is_ckpt_filename(o) and o[2] == 0:
                return False
        if t[0] == "cmp" and t[1] == "Eq" and ("c", "train") in t[2:4] and has_const(t, "task"):
            return True
        return None

    fl2 = Flow(f, cls=cls, inline=inline, max_depth=4, assume=assume)
    rep.flow(fl2)
    n = 0
    for nk in fl2.env:
        node = nk[1]
        if node.kind == "assign" and node.d["target"][0] == "a" and node.d["target"][2] == "global_train_step":
            n += 1
            v = fl2.term(nk, node.d["value"])
            ok = all(_is_step_read(a, is_load) for a in alts(v))
            rep.check("R3", ok, nk[0].func.where, "global_train_step", f"after resuming, the global step is {fmt(v)[:200]} instead of the stored step", node.line)
    for nk, c in fl2.calls.items():
        if c.name == "set_epoch":
            n += 1
            v = c.arg(0, "epoch")
            ok = all(_is_epoch_plus1(a) for a in alts(v))
            rep.check("R3", ok, c.frame.func.where, "set_epoch", f"after resuming, the epoch is {fmt(v)[:200]} instead of the one after the stored epoch", c.line)
    rep.need("R3", n, 2, "restores of epoch/global step in _load_model")
    # --- R4
    loads = {}
    for nk, c in fl.calls.items():
        if c.name == "load_state_dict" and c.recv is not None:
            strict = c.arg(1, "strict")
            src = c.arg(0, "state_dict")
            main = any(is_load(s) for s in subterms(src)) if src else False
            loads[nk] = (strict == ("c", False), main, c)
    mains = [nk for nk, (_, m, _) in loads.items() if m]
    rep.need("R4", len(mains), 1, "load_state_dict of the main checkpoint")
    for nk in mains:
        lax, _, c = loads[nk]
        if not lax:
            rep.ok("R4", f"{c.frame.func.where}: strict load_state_dict")
            continue
        _missing_rule(fl, rep, nk, c)


def _is_step_read(t, is_load):
    if t[0] == "call" and t[1][0] == "m" and t[1][2] == "get" and t[2] and t[2][0] == ("c", "step"):
        return any(is_load(a) for a in alts(t[1][1]))
    if t[0] == "sub" and t[2] == ("c", "step"):
        return any(is_load(a) for a in alts(t[1]))
    return False


def _is_epoch_plus1(t):
    c, d = lin_parts(t)
    if c != 1 or len(d) != 1:
        return False
    (x, k), = d.items()
    return k == 1 and all((a[0] == "item" and a[2] == 0 and _is_ckpt_filename(a)) or has_const(a, "epoch") for a in alts(x))


def _missing_rule(fl, rep, lnk, c):
    lc = fl._call_value(c, fl.call_key(c))

    def is_missing(t):
        return any(
            (x[0] == "item" and x[1] == lc and x[2] == 0) or (x[0] == "attr" and x[1] == lc and x[2] == "missing_keys")
            for x in subterms(t)
        )

    def from_missing(t, conts):
        return is_missing(t) or any(x in conts for x in subterms(t))

    # containers receiving the missing keys
    conts = set()
    upd = {}
    for nk, cc in fl.calls.items():
        if cc.name in ("update", "extend", "add", "append", "union") and cc.recv is not None and any(is_missing(a) for a in cc.args):
            for r in alts(cc.recv):
                conts.add(r)
                upd[nk] = r

    def tests_missing(t):
        x = t
        if x[0] == "cmp" and any(y[0] == "c" for y in x[2:4]):
            x = x[2] if x[3][0] == "c" else x[3]
        if x[0] == "call" and x[1] == ("ext", "len"):
            x = x[2][0]
        return x in conts or is_missing(x) and x[0] != "call"

    seen = set()

    def hook(nk, st, t, val):
        if st == "loaded" and tests_missing(t):
            pos = val
            if t[0] == "cmp" and t[1] == "Eq":
                pos = not val
            elif t[0] == "cmp" and t[1] == "Lt":
                pos = val if t[2][0] == "c" else not val
            return "missing" if pos else "checked"
        return st

    def step(nk, st, lab):
        if nk == lnk and lab != "exc":
            return "loaded"
        if nk[1].kind == "call" and lab != "exc" and st in ("loaded", "checked"):
            cc = fl.calls[nk]
            if cc.name in ("clear",) and cc.recv is not None and any(r in conts for r in alts(cc.recv)):
                return "dropped"
        return st

    def on_end(nk, st, kind):
        if kind == "exit" and st in ("loaded", "missing", "dropped") and st not in seen:
            seen.add(st)
            msg = {
                "loaded": "the missing keys reported by load_state_dict are not tested on some path",
                "missing": "loading continues although parameters are missing in the checkpoint",
                "dropped": "the missing keys are discarded before they are tested",
            }[st]
            rep.bad("R4", c.frame.func.where, f"missing-keys:{st}", msg, c.line, fl.witness())

    n = fl.simulate("init", step, on_end=on_end, cond_hook=hook)
    rep.flow(fl, n)
    if not seen:
        rep.ok("R4", f"{c.frame.func.where}: missing keys of main checkpoint")


def _optimizer(p, rep):
    cls, f = entry(p, UPD, "save_optimizer")
    cls2, g = entry(p, UPD, "load_optimizer")
    if f is None or g is None:
        rep.errors.append("Updater.save_optimizer/load_optimizer not found")
        return
    slf = ("self", cls.full)
    inl = lambda h: allowed_module(h, ("returnn.torch.updater",))
    fl = Flow(f, cls=cls, inline=inl, max_depth=3)
    rep.flow(fl)
    keys = set()
    n = 0
    opt = ("attr", slf, "optimizer")
    for nk, c, d in _payload(fl):
        if d is None:
            rep.errors.append("optimizer payload is not an enumerable dict")
            continue
        n += 1
        keys |= set(d)
        v = d.get("optimizer")
        ok = v is not None and all(t[0] == "call" and t[1][0] == "m" and t[1][2] == "state_dict" and t[1][1] == opt for t in alts(v))
        rep.check("R1", ok, c.frame.func.where, "value:optimizer", f"the optimizer file stores {fmt(v) if v else 'nothing'} as 'optimizer'", c.line)
        rep.check("R1", "param_names" in d, c.frame.func.where, "value:param_names", "the optimizer file does not store the parameter names", c.line)
    rep.need("R1", n, 1, "torch.save of the optimizer state")
    fl = Flow(g, cls=cls, inline=inl, max_depth=3)

    def is_load(t):
        return t[0] == "call" and t[1] == ("ext", "torch.load")

    reads = _reads(fl, lambda t: is_load(t))
    old_format = {"param_groups", "state"}
    for k, where, line in reads:
        rep.check("R2", k in keys or k in old_format, where, f"read-opt:{k}", f"reads optimizer-state entry {k!r}, which is never written", line)
    loads = {}
    for nk, c in fl.calls.items():
        if c.name == "load_state_dict" and c.recv is not None and opt in alts(c.recv):
            loads[nk] = c
            t = c.arg(0, "state_dict")
            ok = t is not None and any(is_load(s) for s in subterms(t))
            rep.check("R5", ok, c.frame.func.where, "load_state_dict", f"the optimizer is restored from {fmt(t)[:120]}, not from the stored state", c.line)
    rep.need("R5", len(loads), 1, "load_state_dict of the optimizer")

    def names_from_ckpt(t):
        return any(
            (s[0] == "sub" and s[2] == ("c", "param_names"))
            or (s[0] == "call" and s[1][0] == "m" and s[1][2] == "get" and s[2][:1] == (("c", "param_names"),))
            for s in subterms(t)
        )

    seen = set()
    # critical containers: lists filled with current parameters that are absent in the stored names
    crit = set()
    for nk, c in fl.calls.items():
        if c.name in ("append", "add") and c.recv is not None and c.args and c.recv[0] == "new":
            crit.add(c.recv)

    def hook(nk, st, t, val):
        if t[0] == "cmp" and t[1] == "Eq" and (names_from_ckpt(t[2]) != names_from_ckpt(t[3])) and not has_const(t, "param_groups"):
            if not any(x[0] == "call" and x[1] == ("ext", "len") for x in t[2:4]) and not contains(t, ("c", "params")):
                return st | ({"same"} if val else {"differ"})
        return st

    raising = _raising_branches(fl)

    def step(nk, st, lab):
        node = nk[1]
        if node.kind == "branch" and nk in raising and lab != raising[nk]:
            t, _ = fl.cond_term(nk)
            for x in alts(t):
                if x in crit:
                    return st | {"critchecked"}
        if node.kind == "assign" and node.d["target"][0] == "sub":
            tg = node.d["target"]
            if tg[2] == ("c", "state"):
                return st | {"remap-state"}
            if tg[2] == ("c", "params"):
                return st | {"remap-params"}
        if nk in loads and lab != "exc":
            c = loads[nk]
            if "differ" in st:
                if "remap-state" not in st and "r" not in seen:
                    seen.add("r")
                    rep.bad("R5", c.frame.func.where, "remap", "parameter names differ from the stored ones but the optimizer state is loaded without remapping", c.line, fl.witness())
                if "critchecked" not in st and "c" not in seen:
                    seen.add("c")
                    rep.bad("R7", c.frame.func.where, "critical", "parameter names differ, and required parameters missing in the stored optimizer state are not rejected", c.line, fl.witness())
            return st | {"loaded"}
        return st

    def on_end(nk, st, kind):
        if kind == "exit" and "loaded" not in st and "e" not in seen:
            seen.add("e")
            rep.bad("R5", g.where, "not-loaded", "load_optimizer can return without loading the stored state", 0, fl.witness())

    hooked = []

    def hook2(nk, st, t, val):
        st2 = hook(nk, st, t, val)
        if st2 != st:
            hooked.append(nk)
        return st2

    n = fl.simulate(frozenset(), step, on_end=on_end, cond_hook=hook2, correlate=False)
    rep.flow(fl, n)
    if not hooked:
        rep.bad("R5", g.where, "compare-names", "the stored parameter names are not compared with the current ones before loading")
    for k, r in (("r", "R5"), ("e", "R5"), ("c", "R7")):
        if k not in seen:
            rep.ok(r, g.where)
    # remap direction: the map that is looked up with stored state indices must be keyed by stored indices
    maps = set()
    for nk in fl.env:
        for key in ("cond", "value", "elt", "key"):
            e = nk[1].d.get(key)
            if isinstance(e, tuple) and e and isinstance(e[0], str):
                for s in subterms(fl.term(nk, e)):
                    if s[0] == "sub" and s[1][0] == "new" and has_const(s[2], "state"):
                        maps.add(s[1])
                    if s[0] == "cmp" and s[1] == "In" and s[3][0] == "new" and has_const(s[2], "state"):
                        maps.add(s[3])
    for nk in fl.env:
        node = nk[1]
        if node.kind == "assign" and node.d["target"][0] == "sub":
            base = fl.term(nk, node.d["target"][1])
            key = fl.term(nk, node.d["target"][2])
            val = fl.term(nk, node.d["value"])
            if base in maps:
                ok = key[0] == "idx" and names_from_ckpt(key) and not (val[0] == "idx" and names_from_ckpt(val))
                rep.check("R5", ok, nk[0].func.where, "remap-direction", f"the state remapping is looked up by stored index but maps {fmt(key)[:80]} to {fmt(val)[:80]}", node.line)


def _raising_branches(fl):
    """branch node -> label of the side that always raises"""
    res = {}
    for nk in fl.env:
        if nk[1].kind == "branch":
            for nk2, lab in fl.successors(nk):
                if lab in ("T", "F") and _always_raises(fl, nk2):
                    res[nk] = lab
    return res


def _always_raises(fl, nk, limit=200):
    seen = set()
    work = [nk]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > limit:
            return False
        if x[1].kind == "raise":
            continue
        if x[1].kind in ("exit", "return"):
            return False
        for y, lab in fl.successors(x):
            if lab != "exc":
                work.append(y)
    return True


def _names(p, rep):
    cls, f = entry(p, TORCH_ENGINE, "init_train_from_config")
    if f is None:
        rep.errors.append("Engine.init_train_from_config not found")
        return
    rel = relevance_by_names(p, {"load_optimizer", "create_optimizer"})
    fl = Flow(f, cls=cls, inline=lambda g: allowed_module(g, ("returnn.torch.engine",)) and rel(g), max_depth=3)
    loads = {nk: c for nk, c in fl.calls.items() if c.is_func("returnn.torch.updater:Updater.load_optimizer")}
    creates = {nk for nk, c in fl.calls.items() if c.is_func("returnn.torch.updater:Updater.create_optimizer")}
    rep.need("R6", len(creates), 1, "creation of the optimizer")
    if not loads:
        rep.bad("R6", f.where, "load_optimizer", "resuming training never loads the stored optimizer state")
        return
    # file name of saving
    scls, sf = entry(p, TORCH_ENGINE, "train_epoch")
    rel2 = relevance_by_names(p, {"save_optimizer"})
    fls = Flow(sf, cls=scls, inline=lambda g: allowed_module(g, ("returnn.torch.engine",)) and rel2(g), max_depth=3)
    saves = [c for nk, c in fls.calls.items() if c.is_func("returnn.torch.updater:Updater.save_optimizer")]
    rep.need("R6", len(saves), 1, "save_optimizer calls")
    se = ("attr", ("self", cls.full), "_start_epoch")

    def is_se(t):
        return t == se or (t[0] == "call" and str(t[1][-1]).endswith("get_train_start_epoch"))

    def shape(t, epoch_of):
        def sub(x):
            if isinstance(x, tuple) and x and x[0] == "call" and str(x[1][-1]).endswith("get_epoch_model_filename"):
                ep = dict(x[3]).get("epoch") or (x[2][0] if x[2] else None)
                epoch_of.append(ep)
                return ("FILE",)
            if isinstance(x, tuple):
                return tuple(sub(y) for y in x)
            return x
        return sub(t)

    for nk, c in loads.items():
        lt = c.arg(0, "filename")
        le = []
        ls = {shape(a, le) for a in alts(lt)}
        ss = set()
        for sc in saves:
            x = []
            ss |= {shape(a, x) for a in alts(sc.arg(0, "filename"))}
        rep.check("R6", ls <= ss, c.frame.func.where, "opt-filename", f"optimizer state is saved as {sorted(map(fmt_shape, ss))} but looked up as {sorted(map(fmt_shape, ls))}", c.line)
        for ep in le:
            cc, dd = lin_parts(ep) if ep is not None else (0, {})
            ok = ep is not None and cc == -1 and len(dd) == 1 and all(v == 1 and is_se(k) for k, v in dd.items())
            rep.check("R6", ok, c.frame.func.where, "opt-epoch", f"resuming loads the optimizer state of epoch {fmt(ep) if ep else 'current'} instead of the last finished epoch", c.line)
    seen = set()

    def hook(nk, st, t, val):
        if t[0] == "cmp" and t[1] == "Lt" and is_se(t[3]) and t[2] == ("c", 1):
            # 1 < start_epoch
            return st | ({"resume"} if val else {"fresh"})
        if t[0] == "cmp" and t[1] == "Lt" and is_se(t[2]) and t[3] == ("c", 2):
            return st | ({"fresh"} if val else {"resume"})
        if t[0] == "cmp" and t[1] == "Eq" and any(is_se(x) for x in t[2:4]) and ("c", 1) in t[2:4]:
            return st | ({"fresh"} if val else {"resume"})
        return st

    def step(nk, st, lab):
        if lab == "exc":
            return st
        if nk in creates:
            return st | {"created"}
        if nk in loads:
            if "created" not in st and "o" not in seen:
                seen.add("o")
                rep.bad("R6", f.where, "order", "optimizer state is loaded before the optimizer is created", 0, fl.witness())
            return st | {"loaded"}
        return st

    def on_end(nk, st, kind):
        if kind == "exit" and "loaded" not in st and "fresh" not in st and "n" not in seen:
            seen.add("n")
            rep.bad("R6", f.where, "resume-without-load", "on some path, a resumed training does not load the optimizer state", 0, fl.witness())

    n = fl.simulate(frozenset(), step, on_end=on_end, cond_hook=hook, correlate=False)
    rep.flow(fl, n)
    for k in ("o", "n"):
        if k not in seen:
            rep.ok("R6", f.where)


def fmt_shape(t):
    return repr(t)[:150]
