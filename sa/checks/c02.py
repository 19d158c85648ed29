"""
C02 crash-consistent order of end-of-epoch persistence.
"""

from __future__ import annotations
from ..flow import Flow, alts, fmt, subterms, relevance_by_names, lin_parts
from ..fileeff import effect
from .engine_common import TORCH_ENGINE, entry, allowed_module, pure_perm, has_const

LRC = "returnn.learning_rate_control.LearningRateControl"
MODS = ("returnn.torch.engine", "returnn.torch.updater", "returnn.engine")


def check(p, rep):
    rep.rule("R1", "the train scores of the epoch are recorded and the score file is saved before the model checkpoint is published")
    rep.rule("R2", "the model checkpoint is published before its optimizer state")
    rep.rule("R3", "an older checkpoint/optimizer state is deleted only after the newer one was published (no publication after a deletion)")
    rep.rule("R4", "whenever writing is permitted, a checkpoint that is published is accompanied by its optimizer state")
    rep.rule("R5", "a resumed run starts training only if the scores of the last epoch are there (or no score file / first epoch)")
    rep.rule("R6", "evaluation scores are recorded before the score file is saved with them")
    rep.assumptions += ["a crash can happen between any two calls; calls are the unit of progress"]
    _train_epoch(p, rep)
    _train(p, rep)
    _eval(p, rep)


def _kind_of_path(t):
    if has_const(t, ".opt"):
        return "opt"
    return "model"


def _train_epoch(p, rep):
    cls, f = entry(p, TORCH_ENGINE, "train_epoch")
    if f is None:
        rep.errors.append("Engine.train_epoch not found")
        return
    rel = relevance_by_names(
        p, {"rename", "replace", "move", "torch.save", "unlink", "remove", "save", "set_epoch_error", "save_optimizer", "delete_model", "should_write_to_disk"}
    )

    def inline(g):
        if g.cls is not None and g.cls.full == LRC:
            return False
        if g.name in ("eval_model", "_load_model", "get_existing_models"):
            return False
        return allowed_module(g, MODS) and rel(g)

    fl = Flow(f, cls=cls, inline=inline, max_depth=7)
    ev = {}
    tmps = set()
    for nk, c in fl.calls.items():
        if nk in fl.inlined:
            continue
        e = effect(c)
        if e and e[0] == "rename":
            tmps |= set(alts(e[1]))
    for nk, c in fl.calls.items():
        if nk in fl.inlined:
            continue
        if c.is_func(LRC + ".save", "returnn.learning_rate_control:LearningRateControl.save"):
            ev[nk] = ("lrsave",)
        elif c.is_func("returnn.learning_rate_control:LearningRateControl.set_epoch_error"):
            ev[nk] = ("scores",)
        else:
            e = effect(c)
            if e and e[0] == "rename":
                ev[nk] = ("pub", _kind_of_path(e[2]), e[2])
            elif e and e[0] == "remove" and not any(x in tmps for x in alts(e[1])):
                ev[nk] = ("del", _kind_of_path(e[1]), e[1])
    kinds = [v[:2] for v in ev.values()]
    rep.need("R1", kinds.count(("pub", "model")), 1, "publication of a model checkpoint in train_epoch")
    rep.need("R2", kinds.count(("pub", "opt")), 1, "publication of an optimizer state in train_epoch")
    rep.need("R1", kinds.count(("lrsave",)), 1, "save of the score file in train_epoch")
    seen = set()

    def bad(rule, key, where, construct, msg, line):
        if (rule, key) in seen:
            return
        seen.add((rule, key))
        rep.bad(rule, where, construct, msg, line, fl.witness())

    def step(nk, st, lab):
        e = ev.get(nk)
        if e is None or lab == "exc":
            return st
        c = fl.calls[nk]
        where = c.frame.func.where
        if e[0] == "scores":
            return (st - {"lrsave"}) | {"scores"}
        if e[0] == "lrsave":
            return st | {"lrsave"} if "scores" in st else st
        if e[0] == "pub":
            if e[1] == "model":
                if "lrsave" not in st:
                    bad("R1", nk, where, "publish-model", "model checkpoint is published on a path where the scores of this epoch are not yet in the score file", c.line)
            else:
                if "pub:model" not in st:
                    bad("R2", nk, where, "publish-opt", "optimizer state is published before the model checkpoint of the same epoch", c.line)
            if any(x.startswith("del:") for x in st):
                bad("R3", nk, where, f"publish-{e[1]}-after-delete", "published after older files were already deleted: a crash in between loses both", c.line)
            return st | {"pub:" + e[1]}
        if e[0] == "del":
            if e[1] == "opt" and c.frame.func.name != "delete_model":
                # the engine deletes an older optimizer state as part of saving the new one
                if "pub:opt" not in st and "cleanup" not in st and not _in_cleanup(c):
                    bad("R3", nk, where, "delete-opt", f"deletes {fmt(e[2])} before the optimizer state of the current epoch is published", c.line)
            return st | {"del:" + e[1]}
        return st

    def on_end(nk, st, kind):
        if kind == "exit" and ("pub:model" in st) != ("pub:opt" in st):
            bad("R4", "end", f.where, "model-without-opt", "train_epoch can finish having published only one of model checkpoint and optimizer state", 0)

    def ef(nk, lab, nk2):
        return lab != "exc"  # exceptions abort the epoch; every prefix of a normal path is already covered

    n = fl.simulate(frozenset(), step, on_end=on_end, pure=pure_perm, edge_filter=ef)
    rep.flow(fl, n)
    for nk, e in ev.items():
        if not any(k == nk for _, k in seen):
            rep.ok({"pub": "R1" if e[1:2] == ("model",) else "R2", "del": "R3"}.get(e[0], "R1"), f"{fl.calls[nk].frame.func.where}: {e[0]} {e[1] if len(e) > 1 else ''}")
    if ("R4", "end") not in seen:
        rep.ok("R4", f.where)


def _in_cleanup(c):
    fr = c.frame
    while fr is not None:
        if fr.func.name == "cleanup_old_models":
            return True
        fr = fr.parent
    return False


def _train(p, rep):
    cls, f = entry(p, TORCH_ENGINE, "train")
    if f is None:
        rep.errors.append("Engine.train not found")
        return
    rel = relevance_by_names(p, {"_is_dataset_evaluated"})

    def inline(g):
        if g.name in ("train_epoch", "init_train_epoch", "eval_model", "_is_dataset_evaluated"):
            return False
        return allowed_module(g, MODS) and rel(g)

    fl = Flow(f, cls=cls, inline=inline, max_depth=5)
    sites = [nk for nk, c in fl.calls.items() if any(g.name == "train_epoch" for g in c.funcs())]
    rep.need("R5", len(sites), 1, "calls of train_epoch in Engine.train")
    seen = set()

    def is_eval_train(t):
        if t[0] != "call" or not str(t[1][-1]).endswith("_is_dataset_evaluated"):
            return False
        vals = list(t[2]) + [v for _, v in t[3]]
        return any(x == ("c", "train") for x in vals) and not any(x[0] == "kw" and x[1] == "epoch" for x in vals)

    def hook(nk, st, t, val):
        if is_eval_train(t) and not any(k == "epoch" for k, _ in t[3]):
            return (st | {"ok"}) if val else (st | {"missing"})
        if t[0] == "attr" and t[2] == "filename" and not val:
            return st | {"ok"}
        if t[0] == "cmp" and any(x[0] == "attr" and x[2] == "_start_epoch" for x in t[2:4]) and ("c", 1) in t[2:4]:
            if t[1] == "Eq" and val:
                return st | {"ok"}
            if t[1] in ("Lt", "LtE", "Gt", "GtE"):
                # start_epoch <= 1
                lhs_attr = t[2][0] == "attr"
                if (lhs_attr and ((t[1] == "Gt" and not val) or (t[1] == "LtE" and val))) or (
                    not lhs_attr and ((t[1] == "Lt" and not val) or (t[1] == "GtE" and val))
                ):
                    return st | {"ok"}
        return st

    def step(nk, st, lab):
        if nk in sites and "ok" not in st and lab != "exc":
            c = fl.calls[nk]
            if nk not in seen:
                seen.add(nk)
                rep.bad("R5", c.frame.func.where, "train_epoch", "training continues from a checkpoint without having established that the scores of its epoch are stored", c.line, fl.witness())
        return st

    n = fl.simulate(frozenset(), step, cond_hook=hook, pure=pure_perm)
    rep.flow(fl, n)
    for nk in sites:
        if nk not in seen:
            rep.ok("R5", f.where)


def _eval(p, rep):
    cls, f = entry(p, TORCH_ENGINE, "eval_model")
    if f is None:
        rep.errors.append("Engine.eval_model not found")
        return
    rel = relevance_by_names(p, {"save", "set_epoch_error", "should_write_to_disk"})

    def inline(g):
        if g.cls is not None and g.cls.full == LRC:
            return False
        return allowed_module(g, MODS) and rel(g)

    fl = Flow(f, cls=cls, inline=inline, max_depth=5)
    saves = {nk for nk, c in fl.calls.items() if c.is_func("returnn.learning_rate_control:LearningRateControl.save")}
    sets = {nk for nk, c in fl.calls.items() if c.is_func("returnn.learning_rate_control:LearningRateControl.set_epoch_error")}
    rep.need("R6", len(saves), 1, "saves of the score file in eval_model")
    rep.need("R6", len(sets), 1, "recordings of scores in eval_model")
    seen = set()

    def hook(nk, st, t, val):
        # not permitted to write
        if _is_perm(t) and not val or (t[0] == "cmp" and t[1] == "Eq" and ("c", "meta") in t[2:4] and val):
            return st | {"noperm"}
        return st

    def step(nk, st, lab):
        if lab == "exc":
            return st
        if nk in sets:
            return st | {"dirty"}
        if nk in saves:
            return st - {"dirty"}
        return st

    def on_end(nk, st, kind):
        if kind == "exit" and "dirty" in st and "noperm" not in st and "x" not in seen:
            seen.add("x")
            rep.bad("R6", f.where, "eval-scores-unsaved", "evaluation scores are recorded but on some path not saved although writing is permitted", 0, fl.witness())

    n = fl.simulate(frozenset(), step, on_end=on_end, cond_hook=hook, pure=pure_perm)
    rep.flow(fl, n)
    if not seen:
        rep.ok("R6", f.where)


def _is_perm(t):
    return t[0] == "call" and str(t[1][-1]).endswith(("should_write_to_disk", "_do_save"))
