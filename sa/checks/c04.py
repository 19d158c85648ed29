"""
C04 only the designated process writes or deletes training artifacts.
"""

from __future__ import annotations
from ..flow import Flow, alts, fmt, subterms, relevance_by_names, norm_cond, const_truth
from ..fileeff import effect
from .engine_common import TORCH_ENGINE, entry, allowed_module, pure_perm, has_const

TF_ENGINE = "returnn.tf.engine.Engine"
LRC_SAVE = "returnn.learning_rate_control:LearningRateControl.save"


def check(p, rep):
    rep.rule("R1", "every write/rename/delete of a training artifact happens only where the write permission was tested true")
    rep.rule("R2", "the write permission is denied for any torch-distributed or horovod rank other than 0 and in a dry run")
    rep.rule("R3", "the PyTorch engine additionally denies it on the meta device, and consults the common permission")
    rep.assumptions += ["rank() returns the rank of this process", "training artifacts are files written by the engine, updater and learning-rate control"]
    roots = [
        (TORCH_ENGINE, "train_epoch", ("returnn.torch.engine", "returnn.torch.updater", "returnn.engine"), True),
        (TORCH_ENGINE, "eval_model", ("returnn.torch.engine", "returnn.torch.updater", "returnn.engine"), True),
        (TORCH_ENGINE, "cleanup_old_models", ("returnn.torch.engine", "returnn.engine"), True),
        (TORCH_ENGINE, "train", ("returnn.torch.engine", "returnn.torch.updater", "returnn.engine"), True),
        (TORCH_ENGINE, "init_train_from_config", ("returnn.torch.engine", "returnn.torch.updater", "returnn.engine"), True),
        (TF_ENGINE, "train_epoch", ("returnn.tf.engine", "returnn.engine"), False),
        (TF_ENGINE, "train", ("returnn.tf.engine", "returnn.engine"), False),
        (TF_ENGINE, "init_train_epoch", ("returnn.tf.engine", "returnn.engine"), False),
        (TF_ENGINE, "cleanup_old_models", ("returnn.tf.engine", "returnn.engine"), False),
    ]
    total = {True: 0, False: 0}
    for cn, meth, mods, torch_ in roots:
        cls, f = entry(p, cn, meth)
        if f is None:
            rep.errors.append(f"{cn}.{meth} not found")
            continue
        total[torch_] += _root(p, rep, cls, f, mods, torch_, meth)
    rep.need("R1", total[True], 5, "file effects of the torch engine")
    rep.need("R1", total[False], 3, "file effects of the TF engine")
    _perm(p, rep)
    _do_save(p, rep)


ROOT_METHODS = {"train_epoch", "eval_model", "cleanup_old_models", "init_train_epoch"}


def _root(p, rep, cls, f, mods, torch_, meth):
    rel = relevance_by_names(
        p,
        {"rename", "replace", "move", "torch.save", "unlink", "remove", "rmtree", "save", "open", "makedirs", "save_optimizer", "delete_model", "should_write_to_disk", "save_params_to_file"},
    )

    def inline(g):
        if g.name in ROOT_METHODS and g.name != meth:
            return False  # analysed as its own root
        if g.cls is not None and g.cls.name in ("LearningRateControl", "Runner"):
            return False
        if g.name in ("get_existing_models", "_load_model", "should_write_to_disk", "init_network_from_config", "_create_data_loader"):
            return False
        return allowed_module(g, mods) and rel(g)

    fl = Flow(f, cls=cls, inline=inline, max_depth=5)
    ev = {}
    for nk, c in fl.calls.items():
        if nk in fl.inlined:
            continue
        if c.is_func(LRC_SAVE):
            ev[nk] = ("save", "score file")
        elif c.name == "save_params_to_file":
            ev[nk] = ("save", "model")
        elif any(g.name == "delete_model" for g in c.funcs()):
            ev[nk] = ("delete", "model")
        else:
            e = effect(c)
            if e is not None and e[0] in ("write", "openw", "rename", "remove"):
                ev[nk] = (e[0], fmt(e[1])[:60])
    seen = set()

    def is_perm(t):
        return all(
            x[0] == "call" and str(x[1][-1]).split(":")[-1].split(".")[-1] in ("should_write_to_disk", "_do_save")
            for x in alts(t)
        )

    def hook(nk, st, t, val):
        if is_perm(t):
            return "yes" if val else "no"
        return st

    def step(nk, st, lab):
        if nk in ev and st != "yes" and nk not in seen:
            seen.add(nk)
            c = fl.calls[nk]
            k = ev[nk]
            rep.bad("R1", c.frame.func.where, f"{c.name}:{k[0]}:{k[1]}", f"{k[0]} of {k[1]} is reachable from {f.qualname} without a positive test of the write permission", c.line, fl.witness())
        return st

    n = fl.simulate("?", step, cond_hook=hook, pure=pure_perm, correlate=is_perm, edge_filter=lambda a, l, b: l != "exc" or b[1].kind not in ("excexit",))
    rep.flow(fl, n)
    for nk, k in ev.items():
        if nk not in seen:
            rep.ok("R1", f"{fl.calls[nk].frame.func.where}: {k[0]} {k[1]} (from {f.qualname})")
    return len(ev)


def _key_of(t):
    """config key a term depends on"""
    for s in subterms(t):
        if s[0] == "c" and s[1] in ("torch_distributed", "use_horovod", "dry_run"):
            return s[1]
    return None


def _facts(t, val):
    if t[0] == "bool":
        res = set()
        if (t[1] == "And") == val:
            for x in t[2]:
                tt, pol = norm_cond(x)
                res |= _facts(tt, val == pol)
        return res
    k = _key_of(t)
    is_rank = any(s[0] == "call" and str(s[1][-1]).split(":")[-1].split(".")[-1] == "rank" for s in subterms(t))
    if is_rank:
        zero = None
        if t[0] == "cmp" and t[1] == "Eq" and ("c", 0) in t[2:4]:
            zero = val
        elif t[0] == "cmp" and t[1] == "Lt" and t[2] == ("c", 0):
            zero = not val
        elif t[0] == "cmp" and t[1] == "Lt" and t[3] == ("c", 1):
            zero = val
        elif t[0] == "call":
            zero = not val
        if zero:
            hv = any("horovod" in str(s) or "hvd" in str(s) for s in subterms(t))
            return {"hv_rank0" if hv else "td_rank0"}
        return set()
    if k == "torch_distributed":
        if t[0] == "cmp" and t[1] == "Is" and ("c", None) in t[2:4]:
            return {"td_off"} if val else set()
        return {"td_off"} if not val else set()
    if k == "use_horovod":
        return {"hv_off"} if not val else set()
    if k == "dry_run":
        return {"dry_off"} if not val else set()
    return set()


def _perm(p, rep):
    f = p.get_func_any("returnn.util.basic.should_write_to_disk")
    if f is None:
        rep.errors.append("should_write_to_disk not found")
        return
    fl = Flow(f, inline=lambda g: allowed_module(g, ("returnn.util.basic",)) and relevance_by_names(p, {"rank", "is_true", "typed_value"})(g) and g.cls is None, max_depth=3)
    seen = set()

    def hook(nk, st, t, val):
        return st | _facts(t, val)

    nret = [0]

    def step(nk, st, lab):
        node = nk[1]
        if node.kind == "return" and nk[0].parent is None:
            v = fl.term(nk, node.d["value"])
            t, pol = norm_cond(v)
            ct = fl._flag_val(nk, node.d["value"], fl.sim_cur[2])
            ct = const_truth(ct) if ct is not None and ct != ("nn",) else const_truth(t) if not any(x[0] == "phi" for x in subterms(t)) else None
            if ct is not None and const_truth(t) is not None:
                ct = ct if pol else not ct
            nret[0] += 1
            if ct is False:
                return st
            st2 = st | _facts(t, pol) if ct is None else st
            # horovod is only for TF, torch distributed only for torch: either one is ruled out by the other being used
            miss = []
            if "dry_off" not in st2:
                miss.append("dry run")
            if not (st2 & {"td_off", "td_rank0"}):
                miss.append("torch-distributed rank != 0")
            if not (st2 & {"hv_off", "hv_rank0", "td_rank0"}):
                miss.append("horovod rank != 0")
            for m in miss:
                if m not in seen:
                    seen.add(m)
                    rep.bad("R2", f.where, m, f"permission to write is granted without excluding: {m}", node.line, fl.witness())
        return st

    n = fl.simulate(frozenset(), step, cond_hook=hook)
    rep.flow(fl, n)
    rep.need("R2", nret[0], 1, "returns of should_write_to_disk")
    for m in ("dry run", "torch-distributed rank != 0", "horovod rank != 0"):
        if m not in seen:
            rep.ok("R2", m)


def _do_save(p, rep):
    cls, f = entry(p, TORCH_ENGINE, "_do_save")
    if f is None:
        rep.errors.append("Engine._do_save not found")
        return
    fl = Flow(f, cls=cls, inline=lambda g: g.name == "_do_save" or allowed_module(g, ("returnn.torch.engine", "returnn.engine")), max_depth=3)
    seen = set()

    def facts(t, val):
        if t[0] == "bool":
            res = set()
            if (t[1] == "And") == val:
                for x in t[2]:
                    tt, pol = norm_cond(x)
                    res |= facts(tt, val == pol)
            return res
        if t[0] == "call" and str(t[1][-1]).endswith("should_write_to_disk"):
            return {"perm"} if val else set()
        if t[0] == "cmp" and t[1] == "Eq" and ("c", "meta") in t[2:4]:
            return {"notmeta"} if not val else set()
        return set()

    def hook(nk, st, t, val):
        return st | facts(t, val)

    def step(nk, st, lab):
        node = nk[1]
        if node.kind == "return" and nk[0].parent is None:
            v = fl.term(nk, node.d["value"])
            t, pol = norm_cond(v)
            ct = const_truth(t)
            if ct is None:
                fv = fl._flag_val(nk, node.d["value"], fl.sim_cur[2])
                if fv is not None and fv[0] == "c":
                    ct, pol = bool(fv[1]), True
            if ct is not None and (ct if pol else not ct) is False:
                return st
            st2 = st | (facts(t, pol) if ct is None else set())
            for need, what in (("perm", "the common write permission"), ("notmeta", "meta device")):
                if need not in st2 and need not in seen:
                    seen.add(need)
                    rep.bad("R3", f.where, need, f"the engine permits saving without testing: {what}", node.line, fl.witness())
        return st

    n = fl.simulate(frozenset(), step, cond_hook=hook)
    rep.flow(fl, n)
    for need in ("perm", "notmeta"):
        if need not in seen:
            rep.ok("R3", need)
