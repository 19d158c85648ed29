"""
C18 all ranks execute matching collective operations (PyTorch distributed).
"""

from __future__ import annotations
import ast
from ..flow import Flow, alts, fmt, subterms, relevance_by_names
from ..taint import Graph, Taint
from .engine_common import TORCH_ENGINE, entry, allowed_module
from .train_loop import mentions_attr, NOT_INLINE
from .common import is_call_to

COLL = {
    "all_reduce", "broadcast", "broadcast_object_list", "barrier", "all_gather", "all_gather_object", "reduce", "gather",
    "scatter", "reduce_scatter", "all_to_all", "monitored_barrier", "scatter_object_list", "gather_object",
}
SYMMETRIC = COLL - {"broadcast", "broadcast_object_list", "reduce", "gather", "scatter"}
LOCAL_CALLS = {"rank", "local_rank", "get_rank", "_do_save", "should_write_to_disk", "get_run_ctx", "getpid", "gethostname", "_run_step", "get_local_rank"}
LOADERS = ("_train_dataloader", "_eval_dataloaders")


def check(p, rep):
    rep.rule("R1", "no collective operation is control dependent on rank-local values (own data, own rank, own losses, write permission), unless agreed by a collective before")
    rep.rule("R2", "evaluation on rank 0 only: rank 0 sends any number of 'more' and exactly one 'end' signal per dataset, all other ranks receive until 'end'")
    rep.rule("R3", "every batch is preceded by an agreement of all ranks that all of them have one")
    rep.assumptions += [
        "configuration, learning-rate history file and model checkpoint are the same for all ranks",
        "an exception on a rank ends the job (all ranks are torn down)",
    ]
    rel = relevance_by_names(p, COLL | {"step_after_param_update", "_sync_params_avg", "_run_step", "backward"})

    def inline(g):
        if g.name in ("step_after_param_update", "_sync_params_avg"):
            return True
        if not allowed_module(g, ("returnn.torch.engine", "returnn.torch.distributed", "returnn.torch.updater")) or g.name in NOT_INLINE:
            return False
        if g.name in ("get_ctx", "__init__") or g.name.startswith("_create"):
            return False
        return rel(g) or sum(isinstance(n, ast.stmt) for n in ast.walk(g.node)) <= 6

    n = 0
    cls, train = entry(p, TORCH_ENGINE, "train_epoch")
    for meth in ("train_epoch", "eval_model"):
        cls, f = entry(p, TORCH_ENGINE, meth)
        if f is None:
            rep.errors.append(f"Engine.{meth} not found")
            continue
        fl = Flow(f, cls=cls, inline=inline, max_depth=5)
        n += _control(p, rep, fl, f, meth)
        if meth == "eval_model":
            _eval_protocol(p, rep, fl, f)
        else:
            _agree(p, rep, fl, f)
    # every other function which uses collectives
    done = {"train_epoch", "eval_model"}
    for g in p.all_funcs():
        if not g.module.name.startswith("returnn.torch") or g.name in done or isinstance(g.node, ast.Lambda):
            continue
        if not any(isinstance(x, ast.Call) and isinstance(x.func, (ast.Attribute, ast.Name)) and (x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id) in COLL for x in ast.walk(g.node)):
            continue
        fl = Flow(g, cls=g.cls, inline=inline, max_depth=3)
        if any(_is_coll(c) for nk, c in fl.calls.items()):
            n += _control(p, rep, fl, g, g.name)
    if n == 0:
        rep.errors.append("no collective operations found")


def _is_coll(c):
    if c.name not in COLL:
        return False
    e = c.ext() or ""
    return "distributed" in e or e.startswith("dist.") or (c.name not in ("reduce", "gather", "broadcast", "scatter") and not c.funcs())


def _dist(t):
    return any(x[0] in ("attr", "fresh") and x[-1] == "_torch_distributed_ctx" for x in alts(t))


def _drop(fl):
    """only paths of a distributed run"""

    def drop(nk, lab, nk2):
        if lab == "exc":
            # an exceptional edge which is handled (e.g. StopIteration) is kept for the loader only
            return not _is_next(fl, nk)
        if nk[1].kind == "branch" and lab in ("T", "F"):
            t, pos = fl.cond_term(nk)
            val = (lab == "T") == pos
            if _dist_truth(t, val) is False:
                return True
        return False

    return drop


def _loader(t):
    for x in alts(t):
        while is_call_to(x, "iter", "enumerate") and x[2]:
            x = x[2][0]
        if x[0] == "sub":
            x = x[1]
        if x[0] in ("attr", "fresh") and x[-1] in LOADERS:
            return True
        if x[0] == "phi" and _loader(x):
            return True
    return False


def _is_next(fl, nk):
    c = fl.calls.get(nk)
    if c is None:
        return False
    return (c.ext() == "next" and c.args and _loader(c.args[0])) or (
        c.name == "__next__" and c.recv is not None and _loader(c.recv)
    )


def _control(p, rep, fl, f, name):
    g = Graph(fl, _drop(fl))
    colls = {nk: c for nk, c in fl.calls.items() if nk in g.live and nk not in fl.inlined and _is_coll(c)}
    if not colls and name not in ("train_epoch", "eval_model"):
        return 0
    # in a training step of a distributed run, the backward pass and the parameter sync are collective, too
    if name == "train_epoch":
        for nk, c in fl.calls.items():
            if nk in g.live and nk not in fl.inlined and c.name == "backward":
                colls[nk] = c

    def source(nk, c):
        if c is not None:
            if _is_next(fl, nk):
                return True
            if c.name in LOCAL_CALLS or any(h.name in LOCAL_CALLS for h in c.funcs()):
                return True
            e = c.ext() or ""
            return e.startswith(("time.", "random.", "numpy.random.", "os.getpid"))
        if nk[1].kind == "iter":
            return any(mentions_attr(fl.term(nk, nk[1].d["iter"]), a) for a in LOADERS)
        if nk[1].kind == "assign" and nk[1].d["value"][0] == "elem":
            return any(mentions_attr(fl.term(nk, nk[1].d["value"]), a) for a in LOADERS)
        return False

    def sanitize(nk, c):
        if not _is_coll(c):
            return ()
        if c.name in ("all_reduce", "broadcast", "broadcast_object_list", "all_gather", "all_gather_object"):
            a = nk[1].d["args"]
            return a[:1]
        return ()

    def branchy(nk):
        return _is_next(fl, nk)

    tt = Taint(g, source, sanitize, branchy=branchy, source_term=lambda a: a in ("_rank", "_local_rank"))
    seen = set()
    for b in tt.tainted_branches():
        reg = g.region(b)
        for k in reg:
            if k not in colls:
                continue
            c = colls[k]
            if name == "eval_model" and c.name == "broadcast":
                continue  # R2
            key = (k[0].func.where, c.name)
            if key in seen:
                continue
            seen.add(key)
            cond = fmt(fl.term(b, b[1].d["cond"]))[:80] if b[1].kind == "branch" else "end of this rank's data"
            rep.bad(
                "R1",
                k[0].func.where,
                f"rank-local-{c.name}",
                f"whether {c.name} is executed depends on a rank-local decision at line {b[1].line} ({cond}): other ranks may wait forever",
                k[1].line,
            )
    rep.flow(fl, len(g.live))
    if not seen:
        for k, c in colls.items():
            rep.ok("R1", f"{k[0].func.where}:{c.name}")
    return len(colls)


def _const_tensor(t):
    """torch.tensor([True]) etc -> constant"""
    for x in alts(t):
        if is_call_to(x, "tensor", "as_tensor", "full", "ones", "zeros"):
            vals = [y[1] for y in subterms(x) if y[0] == "c" and isinstance(y[1], (bool, int)) and not isinstance(y[1], str)]
            bs = [v for v in vals if isinstance(v, bool)]
            if is_call_to(x, "ones"):
                return True
            if is_call_to(x, "zeros"):
                return False
            if len(bs) == 1:
                return bs[0]
            if len(vals) == 1:
                return bool(vals[0])
    return None


def _rank_cmp(t, val):
    """-> True: this is rank 0; False: another rank; None: no statement"""
    if t[0] == "cmp" and ("c", 0) in t[2:] and any(_is_rank(x) for x in t[2:]):
        if t[1] in ("Eq", "=="):
            return val
        if t[1] in ("NotEq", "!=", "Gt", ">"):
            return not val
        if t[1] in ("Lt", "<"):  # 0 < rank
            return not val if t[2] == ("c", 0) else None
    if _is_rank(t):
        return not val
    return None


def _is_rank(t):
    return any(is_call_to(x, "rank", "get_rank") or (x[0] in ("attr", "fresh") and x[-1] == "_rank") for x in alts(t))


def _dist_truth(t, val):
    """-> True: distributed run, False: not, None: no statement"""
    if _dist(t):
        return val
    if t[0] == "cmp" and t[1] in ("Is", "Eq") and ("c", None) in t[2:] and any(_dist(x) for x in t[2:]):
        return not val
    return None


def _eval_protocol(p, rep, fl, f):
    heads = [nk for nk in fl.env if nk[1].kind == "iter" and not nk[1].d.get("comp") and mentions_attr(fl.term(nk, nk[1].d["iter"]), "eval_datasets") and not _loader(fl.term(nk, nk[1].d["iter"]))]
    bc = {nk: c for nk, c in fl.calls.items() if nk not in fl.inlined and _is_coll(c) and c.name == "broadcast"}
    if not bc:
        return  # other protocol: R1 alone decides
    if not heads:
        rep.errors.append("eval_model: loop over the eval datasets not found")
        return
    seen = set()

    def bad(construct, msg, nk):
        if construct not in seen:
            seen.add(construct)
            rep.bad("R2", nk[0].func.where, construct, msg, nk[1].line, fl.witness())

    def end(nk, st):
        rank, ph = st
        if rank is True and ph not in ("F", "U"):
            bad("no-end", "rank 0 goes on to the next dataset without the end signal: the other ranks wait forever", nk)
        if rank is False and ph != "E":
            bad("no-wait", "a rank other than 0 goes on before rank 0 signalled the end of the evaluation of the dataset", nk)

    def step(nk, st, lab):
        rank, ph = st
        if nk in heads and lab in ("iter", "done"):
            end(nk, st)
            return (None, "-")
        if nk in bc and lab != "exc":
            c = bc[nk]
            src = c.kwargs.get("src") or (c.args[1] if len(c.args) > 1 else None)
            if src is not None and src != ("c", 0):
                bad("src", "the evaluation signal is not sent by rank 0", nk)
            if rank is None:
                return (rank, ph)
            if rank:
                v = _const_tensor(c.args[0]) if c.args else None
                if ph == "F":
                    bad("after-end", "rank 0 sends another signal after the end signal", nk)
                return (rank, "U" if v is None else "T" if v else "F")
            return (rank, "W")
        return st

    def hook(nk, st, t, val):
        rank, ph = st
        d = _dist_truth(t, val)
        if d is not None:
            return st if d else None
        r = _rank_cmp(t, val)
        if r is not None:
            if rank is not None and rank != r:
                return None
            return (r, ph)
        if rank is False and any(is_call_to(x, "tensor", "as_tensor", "full", "ones") for x in subterms(t)):
            if ph == "-" and _const_tensor(t) is not None:
                return st if _const_tensor(t) == val else None
            if ph in ("W", "E"):
                return (rank, "E" if not val else "W2")
        return st

    def ef(nk, lab, nk2):
        return lab != "exc"

    # bool of tensor element, loops: rank is constant within an iteration
    n = fl.simulate((None, "-"), step, cond_hook=hook, edge_filter=ef)
    rep.flow(fl, n)
    if not seen:
        rep.ok("R2", f"{f.where}: {len(bc)} signals")


def _agree(p, rep, fl, f):
    """between fetching a batch and running it, all ranks agreed (all_reduce MIN over have-data) and only then run"""
    seen = set()

    def bad(construct, msg, nk):
        if construct not in seen:
            seen.add(construct)
            rep.bad("R3", nk[0].func.where, construct, msg, nk[1].line, fl.witness())

    nexts = {nk for nk in fl.env if _is_next(fl, nk) or (nk[1].kind == "iter" and _loader(fl.term(nk, nk[1].d["iter"])))}
    runs = {nk for nk, c in fl.calls.items() if c.name == "_run_step"}
    if not nexts or not runs:
        rep.errors.append("train_epoch: data fetch or step not found")
        return

    def step(nk, st, lab):
        if nk in nexts:
            return "fetched" if lab != "exc" else "fetched"
        c = fl.calls.get(nk)
        if lab == "exc":
            return st
        if c is not None and nk not in fl.inlined and _is_coll(c) and st == "fetched":
            if c.name in ("all_reduce", "all_gather", "all_gather_object"):
                op = c.kwargs.get("op") or (c.args[1] if len(c.args) > 1 else None)
                if c.name == "all_reduce":
                    nm = fmt(op) if op is not None else "SUM"
                    if not any(x in nm for x in ("MIN", "PRODUCT", "BAND")):
                        # SUM etc would need a comparison with the world size
                        return "reduced-" + nm.split(".")[-1]
                return "agreed"
        if nk in runs:
            if st == "fetched":
                bad("no-agreement", "a batch is processed without all ranks having agreed that all of them have one", nk)
            elif isinstance(st, str) and st.startswith("reduced-MAX"):
                bad("wrong-op", "the agreement is reached when any rank has data, not when all have", nk)
            elif isinstance(st, str) and st.startswith("reduced-"):
                bad("wrong-op", "the agreement does not tell that all ranks have data", nk)
        return st

    def hook(nk, st, t, val):
        d = _dist_truth(t, val)
        if d is not None:
            return st if d else None
        if isinstance(st, str) and st.startswith("reduced-") and any(is_call_to(x, "size", "get_world_size") for x in subterms(t)):
            return "agreed"
        return st

    n = fl.simulate("-", step, cond_hook=hook)
    rep.flow(fl, n)
    if not seen:
        rep.ok("R3", f.where)
