"""the training loop of the torch engine: flow, events, shared by C15, C16, C26"""

from __future__ import annotations
from ..flow import Flow, alts, subterms, relevance_by_names, lin_parts, fmt
from ..project import dotted_name
from .engine_common import TORCH_ENGINE, entry, allowed_module
from .common import strings_in

ACCUM = "accum_grad_multiple_step"
NAMES = {
    "zero_grad", "_run_step", "backward", "global_train_step", "_train_dataloader", "train_epoch",
    "_stop_on_nonfinite_train_score", "set_current_train_step", "get_optimizer", "no_sync",
}
NOT_INLINE = {
    "_run_step", "eval_model", "forward_with_callback", "_load_model", "_save_model", "_save_optimizer", "cleanup_old_models",
    "init_train_epoch", "set_current_train_step", "get_existing_models", "_create_model", "_create_data_loader",
}


def mentions_attr(t, name) -> bool:
    return any(x[0] == "attr" and x[2] == name for x in subterms(t))


def train_flow(p, meth="train_epoch"):
    cls, f = entry(p, TORCH_ENGINE, meth)
    if f is None:
        return None, None
    rel = relevance_by_names(p, NAMES)

    def inline(g):
        if not allowed_module(g, ("returnn.torch.engine", "returnn.engine.base")) or g.name in NOT_INLINE:
            return False
        if ACCUM in strings_in(g.node):
            return True
        if any(n in ("isnan", "isinf", "isfinite") for n in _names(g)):
            return True
        return rel(g) or _has_step(g) or _small(g)

    fl = Flow(f, cls=cls, inline=inline, max_depth=5)
    return fl, f


def _names(g):
    from ..flow import names_used

    return names_used(g)


def _small(g):
    """small helpers are always looked into"""
    import ast

    return g.module.name == "returnn.torch.engine" and sum(isinstance(n, ast.stmt) for n in ast.walk(g.node)) <= 8


def _has_step(g):
    import ast

    return any(
        isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "step" for n in ast.walk(g.node)
    )


def loader_next(fl):
    """nodes which fetch the next batch of the train data loader"""
    res = set()
    for nk in fl.env:
        n = nk[1]
        if n.kind == "iter" and not n.d.get("comp") and mentions_attr(fl.term(nk, n.d["iter"]), "_train_dataloader"):
            res.add(nk)
        c = fl.calls.get(nk)
        if c is not None and nk not in fl.inlined:
            if c.ext() == "next" and c.args and mentions_attr(c.args[0], "_train_dataloader"):
                res.add(nk)
            elif c.name == "__next__" and c.recv is not None and mentions_attr(c.recv, "_train_dataloader"):
                res.add(nk)
    return res


def is_optimizer(t) -> bool:
    return any(
        (x[0] == "attr" and x[2] == "optimizer")
        or (x[0] == "call" and str(x[1][-1]).endswith("get_optimizer"))
        for a in alts(t)
        for x in [a]
    )


def events(fl):
    """node -> event name"""
    ev = {}
    for nk in loader_next(fl):
        ev[nk] = "NEXT"
    for nk, c in fl.calls.items():
        if nk in fl.inlined or nk not in fl.env:
            continue
        if c.name == "zero_grad":
            ev[nk] = "ZERO"
        elif c.name == "backward":
            ev[nk] = "BWD"
        elif c.name == "_run_step" or any(g.name == "_run_step" for g in c.funcs()):
            ev[nk] = "FWD"
        elif any(g.full == "returnn.torch.updater:Updater.step" or g.full.endswith("Updater.step") for g in c.funcs()):
            ev[nk] = "STEP"
        elif c.name == "step" and c.recv is not None and (is_optimizer(c.recv) or mentions_attr(c.recv, "_grad_scaler") or mentions_attr(c.recv, "_updater")):
            ev[nk] = "STEP"
        elif c.name == "set_current_train_step" or any(g.name == "set_current_train_step" for g in c.funcs()):
            ev[nk] = "SETSTEP"
        elif c.name == "no_sync":
            ev[nk] = "NOSYNC"
    for nk in fl.env:
        n = nk[1]
        if n.kind == "assign" and n.d["target"][0] == "a" and n.d["target"][2] == "global_train_step":
            ev[nk] = "CNT"
    return ev
