"""
C05 checkpoint cleanup keeps what it must keep.
"""

from __future__ import annotations
import ast
from ..flow import Flow, alts, fmt, subterms, contains, relevance_by_names, lin_parts, norm_cond
from ..fileeff import effect
from .engine_common import TORCH_ENGINE, entry, allowed_module, has_const, pure_perm

GROW = {"update", "add", "union", "__ior__"}
SHRINK = {"difference_update", "remove", "discard", "clear", "pop", "symmetric_difference_update"}


def check(p, rep):
    rep.rule("R1", "an epoch is deleted only if it is an existing one and not in the keep set")
    rep.rule("R2", "the keep set only grows, except for restricting it to existing epochs")
    rep.rule("R3", "before anything is deleted, the keep set received: the configured epochs, the last keep_last_n epochs, and per score key the keep_best_n epochs of lowest score")
    rep.rule("R4", "the engine's own deletion of outdated optimizer states leaves those of the two latest epochs")
    rep.rule("R5", "all recorded score keys take part, except ones that carry no information")
    rep.rule("R6", "models are deleted only through the cleanup that computes the keep set; a dry run deletes nothing")
    rep.assumptions += ["scores are losses: lower is better"]
    cls, f = entry(p, TORCH_ENGINE, "cleanup_old_models")
    if f is None:
        rep.errors.append("cleanup_old_models not found")
        return

    rel = relevance_by_names(p, {"keep_last_n", "keep_best_n", "keep", "delete_model", "epoch_data", "sorted", "intersection_update", "difference", "should_write_to_disk"})

    def inline(g):
        if g.name in ("get_existing_models", "delete_model"):
            return False
        if g.cls is not None and g.cls.name == "LearningRateControl":
            return False
        return allowed_module(g, ("returnn.engine", "returnn.torch.engine")) and rel(g)

    fl = Flow(f, cls=cls, inline=inline, max_depth=4)
    dels = {nk: c for nk, c in fl.calls.items() if nk not in fl.inlined and (c.name == "delete_model" or (effect(c) or ("",))[0] == "remove")}
    rep.need("R1", len(dels), 1, "deletions in cleanup_old_models")

    def is_existing(t):
        return any(x[0] == "call" and str(x[1][-1]).endswith("get_existing_models") for x in subterms(t))

    # keep sets
    keeps = set()
    form = {}
    for nk, c in dels.items():
        t = c.args[0] if c.args else ("c", None)
        ks = set()
        for s in subterms(t):
            if s[0] == "call" and s[1][0] == "m" and s[1][2] == "difference" and is_existing(s[1][1]):
                ks |= {a for a in s[2] if a[0] == "new"}
            if s[0] == "b" and s[1] == "Sub" and is_existing(s[2]):
                ks |= {a for a in subterms(s[3]) if a[0] == "new"}
            if s[0] == "lin":
                _, d = lin_parts(s)
                pos = [k for k, v in d.items() if v == 1]
                neg = [k for k, v in d.items() if v == -1]
                if any(is_existing(x) for x in pos):
                    ks |= {a for x in neg for a in subterms(x) if a[0] == "new"}
        form[nk] = ks
        keeps |= ks
    # guard form: "if epoch in keep: continue" (also inside a comprehension)
    guard_terms = {}
    for nk in fl.env:
        if nk[1].kind == "branch":
            t, _ = fl.cond_term(nk)
            if t[0] == "cmp" and t[1] == "In" and is_existing(t[2]) and t[3][0] == "new":
                guard_terms[nk] = t
    for nk, c in dels.items():
        if not form[nk]:
            gk = {t[3] for t in guard_terms.values()}
            keeps |= gk
    rep.check("R1", bool(keeps), f.where, "keep-set", "the epochs that are deleted are not computed as existing epochs minus a keep set")
    if not keeps:
        return
    for nk, c in dels.items():
        t = c.args[0] if c.args else ("c", None)
        rep.check("R1", is_existing(t), c.frame.func.where, "existing", f"deletes {fmt(t)[:100]}, which is not the file of an existing model", c.line)

    # R2
    for nk, c in fl.calls.items():
        if c.recv is not None and any(r in keeps for r in alts(c.recv)):
            if c.name in SHRINK:
                rep.bad("R2", c.frame.func.where, f"{c.name}", f"the keep set is reduced by {c.name}({', '.join(fmt(a)[:60] for a in c.args)})", c.line)
            elif c.name == "intersection_update":
                ok = all(is_existing(a) and not any(s[0] == "sub" for s in subterms(a)) for a in c.args)
                rep.check("R2", ok, c.frame.func.where, "intersection", f"the keep set is restricted to {fmt(c.args[0])[:80]}", c.line)
    rep.ok("R2", f"keep set(s) in {f.where}: no reducing operation")

    # R3 events
    ev = {}
    for nk, c in fl.calls.items():
        if c.name in GROW and c.recv is not None and any(r in keeps for r in alts(c.recv)) and c.args:
            kinds = set()
            a = c.args[0]
            for t in alts(a):
                for s in subterms(t):
                    if s[0] == "call" and s[1][0] == "m" and s[1][2] == "get" and s[2][:1] == (("c", "keep"),):
                        kinds.add("keep")
                    if s[0] == "sub" and s[1:2] and s[2] == ("c", "keep"):
                        kinds.add("keep")
                    if s[0] == "sub" and s[2][0] == "slice" and has_const(s[2], "keep_last_n"):
                        lo, hi = s[2][1], s[2][2]
                        cc, dd = lin_parts(lo)
                        good = (
                            is_existing(s[1])
                            and hi == ("c", None)
                            and cc <= 0
                            and len(dd) == 1
                            and list(dd.values()) == [-1]
                            and _sorted_asc(s[1])
                        )
                        if good:
                            kinds.add("last")
                        else:
                            rep.bad("R3", c.frame.func.where, "last-slice", f"keeps {fmt(s)[:120]}: not the last keep_last_n epochs", c.line)
                    if s[0] == "sub" and s[2][0] == "slice" and has_const(s[2], "keep_best_n"):
                        lo, hi = s[2][1], s[2][2]
                        cc, dd = lin_parts(hi)
                        good = lo in (("c", None), ("c", 0)) and cc >= 0 and len(dd) == 1 and list(dd.values()) == [1] and _sorted_asc(s[1])
                        if good:
                            kinds.add("best")
                        else:
                            rep.bad("R3", c.frame.func.where, "best-slice", f"keeps {fmt(s)[:120]}: not the keep_best_n lowest scores", c.line)
                    if s[0] == "call" and str(s[1][-1]).endswith("nsmallest") and has_const(s, "keep_best_n"):
                        kinds.add("best")
            if kinds:
                ev[nk] = kinds
    # the loop over score keys in which the best epochs are added
    best_loops = {}
    for nk, kinds in ev.items():
        if "best" in kinds:
            best_loops[nk] = True
    for k, what in (("keep", "the configured epochs"), ("last", "the last epochs"), ("best", "the best epochs per score")):
        rep.check("R3", any(k in v for v in ev.values()), f.where, f"kept:{k}", f"{what} are never added to the keep set")
    seen = set()

    def hook(nk, st, t, val):
        if nk in guard_terms:
            return (st - {"g1", "g0"}) | ({"g1"} if val else {"g0"})
        if has_const(t, "dry_run") and not val:
            return st | {"notdry"}
        if t[0] == "call" and str(t[1][-1]).split(":")[-1].split(".")[-1] in ("should_write_to_disk", "_do_save") and val:
            return st | {"notdry"}
        return st

    def step(nk, st, lab):
        node = nk[1]
        if nk in ev and lab != "exc":
            return st | ev[nk]
        if node.kind == "iter":
            t = fl.term(nk, node.d["iter"])
            if lab == "iter":
                st = st - {"g0", "g1"}
            if _loop_has_best(fl, nk, ev):
                if lab == "done":
                    st = st | {"bestloop"}
                    if "inbest" in st and "best" not in st and "skip" not in seen:
                        seen.add("skip")
                        rep.bad("R3", nk[0].func.where, "best-skipped", "the best epochs of some score key are not added to the keep set on some path", node.line, fl.witness())
                elif lab == "iter":
                    if "inbest" in st and "best" not in st and "skip" not in seen:
                        seen.add("skip")
                        rep.bad("R3", nk[0].func.where, "best-skipped", "the best epochs of some score key are not added to the keep set on some path", node.line, fl.witness())
                    st = (st - {"best"}) | {"inbest"}
            return st
        if nk in dels and lab != "exc":
            c = dels[nk]
            for k, what in (("keep", "the configured epochs"), ("last", "the last epochs"), ("bestloop", "the best epochs")):
                if k not in st and k not in seen:
                    seen.add(k)
                    rep.bad("R3", c.frame.func.where, f"delete-before:{k}", f"models are deleted on a path where {what} were not yet added to the keep set", c.line, fl.witness())
            if not form[nk] and "g0" not in st and "g" not in seen:
                seen.add("g")
                rep.bad("R1", c.frame.func.where, "unguarded", "a model is deleted without testing that it is not in the keep set", c.line, fl.witness())
            if "notdry" not in st and "dry" not in seen:
                seen.add("dry")
                rep.bad("R6", c.frame.func.where, "dry-run", "models are deleted on a path where dry run is not excluded", c.line, fl.witness())
        return st

    n = fl.simulate(frozenset(), step, cond_hook=hook, pure=pure_perm, correlate=lambda t: False)
    rep.flow(fl, n)
    for k, r in (("keep", "R3"), ("last", "R3"), ("bestloop", "R3"), ("skip", "R3"), ("g", "R1"), ("dry", "R6")):
        if k not in seen:
            rep.ok(r, f"{f.where}: {k}")
    _score_keys(fl, rep, f)
    _opt(p, rep)
    _who(p, rep, fl)


def _sorted_asc(t):
    for s in subterms(t):
        if s[0] == "call" and s[1] == ("ext", "sorted"):
            kw = dict(s[3])
            if kw.get("reverse") not in (None, ("c", False)):
                return False
            return True
    return any(s[0] in ("top", "phi", "deep") for s in subterms(t))


def _loop_has_best(fl, ink, ev):
    fr, node = ink
    key = ("lb", ink)
    cache = fl.__dict__.setdefault("_lb_cache", {})
    if key in cache:
        return cache[key]
    # does the loop body of this iter node (the smallest enclosing one) contain a "best" event?
    res = False
    for nk, kinds in ev.items():
        if "best" in kinds and nk[0] is fr and _innermost_loop(fl, nk) == node:
            res = True
    cache[key] = res
    return res


def _innermost_loop(fl, nk):
    """innermost for-statement iter node whose body contains the (statement of the) node"""
    fr, node = nk
    from ..ir import get_ir

    best = None
    for n in get_ir(fr.func).nodes:
        if n.kind == "iter" and isinstance(n.ast, (ast.For,)):
            for x in ast.walk(n.ast):
                if x is node.ast:
                    if best is None or any(y is n.ast for y in ast.walk(best.ast)):
                        best = n
                    break
    return best


def _score_keys(fl, rep, f):
    """score key containers: receives .error.keys() of all epochs; keys are dropped only if uninformative"""
    conts = set()
    upd = []
    for nk, c in fl.calls.items():
        if c.name in ("update", "add") and c.recv is not None and c.args:
            a = c.args[0]
            if any(s[0] == "attr" and s[2] == "error" for s in subterms(a)) and any(s[0] == "attr" and s[2] == "epoch_data" for s in subterms(a)):
                if a[0] != "comp" and any(x[0] == "new" for x in alts(c.recv)):
                    conts |= set(alts(c.recv))
                    upd.append(nk)
    if not conts:
        return  # other formulation; nothing to decide here
    drops = {}
    for nk, c in fl.calls.items():
        if c.name in SHRINK and c.recv is not None and any(s in conts for s in subterms(c.recv)):
            drops[nk] = c
    seen = set()

    def uninformative(t, val):
        if t[0] == "cmp" and t[1] == "Eq" and val:
            s = fmt(t, -5)
            names = {x[1][-1] for x in subterms(t) if x[0] == "call"}
            if {"min", "max"} <= names or ("len" in names and ("c", 0) in t[2:4]):
                return True
            if "len" in names and ("c", 1) in t[2:4]:
                return True
        if t[0] == "cmp" and t[1] == "Lt" and not val and {"min", "max"} <= {x[1][-1] for x in subterms(t) if x[0] == "call"}:
            return True
        if not val and t[0] == "sub":
            return True
        return False

    def hook(nk, st, t, val):
        if uninformative(t, val):
            return "ok"
        return st

    def step(nk, st, lab):
        node = nk[1]
        if node.kind == "iter" and isinstance(node.ast, ast.For):
            return ""
        if nk in drops and st != "ok" and nk not in seen:
            seen.add(nk)
            c = drops[nk]
            rep.bad("R5", c.frame.func.where, f"drop:{c.name}", "a recorded score key is excluded from the best-epoch selection although its values differ", c.line, fl.witness())
        return st

    n = fl.simulate("", step, cond_hook=hook, correlate=lambda t: False)
    rep.flow(fl, n)
    for nk in drops:
        if nk not in seen:
            rep.ok("R5", f"{drops[nk].frame.func.where}: score key dropped only if uninformative")
    # every iteration over the epochs collects its keys
    skipped = set()

    def step2(nk, st, lab):
        node = nk[1]
        if nk in upd and lab != "exc":
            return "done"
        if node.kind == "iter":
            for u in upd:
                if u[0] is nk[0] and _innermost_loop(fl, u) is node:
                    if st == "in":
                        if "s" not in skipped:
                            skipped.add("s")
                            rep.bad("R5", nk[0].func.where, "collect", "the score keys of some epoch are not collected", node.line, fl.witness())
                    return "in" if lab == "iter" else ""
        return st

    fl.simulate("", step2, correlate=lambda t: False, edge_filter=lambda a, l, b: l != "exc")
    if not skipped:
        rep.ok("R5", f"{f.where}: keys of all epochs collected")


def _opt(p, rep):
    cls, f = entry(p, TORCH_ENGINE, "train_epoch")
    rel = relevance_by_names(p, {"unlink", "remove", "rmtree", "os.remove"})

    def inline(g):
        if g.name in ("cleanup_old_models", "eval_model", "_load_model"):
            return False
        return allowed_module(g, ("returnn.torch.engine", "returnn.torch.updater", "returnn.engine")) and rel(g)

    fl = Flow(f, cls=cls, inline=inline, max_depth=4)
    rep.flow(fl)
    n = 0
    for nk, c in fl.calls.items():
        e = effect(c)
        if nk in fl.inlined or not e or e[0] != "remove":
            continue
        for t in alts(e[1]):
            if has_const(t, ".tmp"):
                continue
            n += 1
            eps = []
            for s in subterms(t):
                if s[0] == "call" and str(s[1][-1]).endswith("get_epoch_model_filename"):
                    eps.append(dict(s[3]).get("epoch") or (s[2][0] if s[2] else ("c", None)))
            ok = bool(eps)
            for ep in eps:
                cc, dd = lin_parts(ep)
                ok = ok and cc <= -2 and list(dd.values()) == [1] and all(k[0] == "attr" and k[2] == "epoch" for k in dd)
            rep.check("R4", ok and has_const(t, ".opt"), c.frame.func.where, "opt-delete", f"training deletes {fmt(t)[:120]}: only optimizer states at least two epochs old may be deleted here", c.line)


def _who(p, rep, fl):
    inl = {nk[0].func for nk in fl.env}
    n = 0
    for f in p.all_funcs():
        if f.module.name.startswith("returnn.tf.compat"):
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "delete_model":
                n += 1
                ok = f in inl
                if ok:
                    rep.ok("R6", f"{f.where}: delete_model")
                elif not any(f2 is not f and f2.parent is f for f2 in inl):
                    rep.bad("R6", f.where, "delete_model", "deletes model files outside of the cleanup that computes the keep set", x.lineno)
    rep.need("R6", n, 1, "calls of delete_model")
