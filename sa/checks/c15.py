"""
C15 each optimizer step uses exactly the accumulated gradients of its batches.
"""

from __future__ import annotations
from ..flow import alts, fmt, subterms, lin_parts, norm_cond
from ..project import Func
from .train_loop import train_flow, events, ACCUM


def check(p, rep):
    rep.rule("R1", "per batch exactly one training forward pass and one backward pass, backward after forward")
    rep.rule("R2", "a backward pass never adds to gradients left from before the last optimizer step or from a previous epoch")
    rep.rule("R3", "accumulated gradients are never cleared without having been used by an optimizer step (within an epoch)")
    rep.rule("R4", "an optimizer step happens in an iteration iff the number of accumulated batches reached accum_grad_multiple_step")
    rep.rule("R5", "the global step counter is increased by one exactly once per batch, then handed to the updater")
    rep.rule("R6", "gradient synchronisation between ranks is never suppressed in the iteration that steps")
    rep.assumptions += [
        "zero_grad/backward/optimizer.step have torch's semantics; a failing call (exception) ends the epoch unless caught",
        "accum_grad_multiple_step is >= 1",
    ]
    fl, f = train_flow(p)
    if fl is None:
        rep.errors.append("Engine.train_epoch not found")
        return
    ev = events(fl)
    kinds = list(ev.values())
    for k, r in (("NEXT", "R1"), ("FWD", "R1"), ("BWD", "R1"), ("STEP", "R4"), ("ZERO", "R2"), ("CNT", "R5")):
        if k not in kinds:
            rep.bad(r, f.where, f"no-{k}", f"the training loop does not contain any {_TXT[k]}")
    if any(k not in kinds for k in ("NEXT", "FWD", "BWD", "STEP", "ZERO", "CNT")):
        return
    cmps, counters = _accum_cmps(fl)
    if not cmps:
        rep.bad("R4", f.where, "no-accum-test", "no comparison of an accumulation counter with accum_grad_multiple_step decides about the step")
    fl.opaque_cmp = lambda nk: nk in cmps
    upd = _counter_updates(fl, counters)
    seen = set()

    def bad(rule, key, nk, construct, msg):
        if (rule, construct) in seen:
            return
        seen.add((rule, construct))
        rep.bad(rule, nk[0].func.where, construct, msg, nk[1].line, fl.witness())

    # CNT sanity
    for nk, e in ev.items():
        if e == "CNT":
            tgt = nk[1].d["target"]
            cur = fl.term(nk, ("a", tgt[1], tgt[2]))
            v = fl.term(nk, nk[1].d["value"])
            okv = any(
                lin_parts(x)[0] == 1 and lin_parts(x)[1] in [{y: 1} for y in alts(cur)] + [{cur: 1}] for x in alts(v)
            ) or _ir_plus_one(nk[1].d["value"], tgt)
            if not okv:
                rep.bad("R5", nk[0].func.where, "counter-step", f"global_train_step is set to {fmt(v)[:80]}, not increased by one", nk[1].line)
            else:
                rep.ok("R5", f"{nk[0].func.where}: increment by one")

    # state: (grad, fwd, bwd, cnt, setstep, due, stepped, nosync, c, k, d, cmpok)
    INIT = ("unknown", None, 0, 0, 0, None, 0, 0, None, 0, None, 1)

    def cap(x, lim=3):
        return x if x is None or -lim <= x <= lim else None

    def end_iter(nk, st):
        grad, fwd, bwd, cnt, setstep, due, stepped, nosync, c, k, d, cmpok = st
        if fwd:
            if bwd != 1:
                bad("R1", None, nk, f"backward-{bwd}", f"a batch is processed with {bwd} backward passes")
            if fwd != 1:
                bad("R1", None, nk, "forward-twice", "a batch is processed by more than one training forward pass")
            if cnt != 1:
                bad("R5", None, nk, f"count-{cnt}", f"a batch advances the global step counter {cnt} times")
            if cnt and not setstep:
                bad("R5", None, nk, "count-not-propagated", "the updater is not told the new global step before the next batch")
            if due is None:
                if cmps:
                    bad("R4", None, nk, "step-undecided", "a batch is finished without comparing the accumulation count with accum_grad_multiple_step")
            elif due and not stepped:
                bad("R4", None, nk, "step-missing", "accumulation count reached, but no optimizer step is done")
            elif not due and stepped:
                bad("R4", None, nk, "step-early", "optimizer step although the accumulation count is not reached")
            if stepped > 1:
                bad("R4", None, nk, "step-twice", "two optimizer steps for one batch")
        elif fwd == 0 and nk[1].kind != "exit" and (bwd or cnt or stepped):
            bad("R1", None, nk, "work-without-forward", "backward/step/counter without a forward pass of the batch")
        elif fwd == 0 and ev.get(nk) == "NEXT":
            bad("R1", None, nk, "batch-dropped", "a batch is fetched, but the next one is fetched without having trained on it")

    def step(nk, st, lab):
        grad, fwd, bwd, cnt, setstep, due, stepped, nosync, c, k, d, cmpok = st
        exc = lab == "exc"
        if nk in upd and not exc:
            u = upd[nk]
            if u[0] == "set":
                c = u[1]
                d = None if k is None or c is None else cap(c - k)
            elif u[0] == "add":
                c = cap(None if c is None else c + u[1])
                d = cap(None if d is None else d + u[1])
            else:
                c = d = None
        if nk in cmps and not exc:
            off, kind = cmps[nk]
            # value compared = c + off; must equal the number of batches incl. this one
            dd = None if d is None else d + off - (0 if bwd else 1)
            if kind == "gt" and dd is not None:
                dd -= 1
            if kind == "bad" or dd != 0:
                bad(
                    "R4", None, nk, "accum-count",
                    "the value compared with accum_grad_multiple_step is not the number of batches accumulated since the gradients were cleared"
                    + ("" if dd is None else f" (off by {dd})"),
                )
        e = ev.get(nk)
        if e is None or (exc and e != "BWD"):
            return (grad, fwd, bwd, cnt, setstep, due, stepped, nosync, c, k, d, cmpok)
        if e == "NEXT":
            if lab == "done":
                return st
            end_iter(nk, st)
            fwd, bwd, cnt, setstep, due, stepped, nosync = 0, 0, 0, 0, None, 0, 0
        elif e == "ZERO":
            if grad == "acc":
                bad("R3", None, nk, "zero-discards", "gradients accumulated from earlier batches are cleared without an optimizer step")
            grad = "fresh"
            k = 0
            d = cap(c)
        elif e == "FWD":
            call = fl.calls[nk]
            tf = call.arg(1, "train_flag")
            if tf is not None and all(x == ("c", False) for x in alts(tf)) or tf is None:
                bad("R1", None, nk, "forward-no-train-flag", "the forward pass of training is run without train_flag")
            fwd = min((fwd or 0) + 1, 2)
        elif e == "BWD":
            if exc:
                return (grad, fwd, 0, cnt, setstep, due, stepped, nosync, c, k, d, cmpok)
            if not fwd:
                bad("R1", None, nk, "backward-before-forward", "backward pass before the forward pass of this batch")
            if grad in ("stale", "unknown"):
                bad(
                    "R2", None, nk, f"backward-on-{grad}",
                    "backward pass adds to gradients "
                    + ("already used by the previous optimizer step" if grad == "stale" else "possibly left over from the previous epoch"),
                )
            grad = "acc"
            bwd = min(bwd + 1, 2)
            k = cap(None if k is None else k + 1)
            d = cap(None if d is None else d - 1)
        elif e == "STEP":
            if grad != "acc" or not bwd:
                bad("R1", None, nk, "step-before-backward", "optimizer step without the backward pass of the current batch before it")
            if nosync:
                bad("R6", None, nk, "step-unsynced", "optimizer step on gradients whose synchronisation between ranks was suppressed")
            stepped = min(stepped + 1, 2)
            grad = "stale"
        elif e == "CNT":
            cnt = min(cnt + 1, 2)
            setstep = 0
        elif e == "SETSTEP":
            setstep = 1
        elif e == "NOSYNC":
            nosync = 1
        return (grad, fwd, bwd, cnt, setstep, due, stepped, nosync, c, k, d, cmpok)

    def hook(nk, st, t, val):
        src = None
        if t[0] == "bsym":
            src = (t[1], t[2])
        elif nk in cmps:
            src = nk
            # plain comparison in a branch; t normalised to Lt(x, accum) / Lt(accum, x)
        if src not in cmps:
            return st
        if t[0] == "bsym":
            true_is = cmps_pol[src]
        else:
            if t[0] != "cmp":
                return st
            cond, tr = nk[1].d["cond"], True
            while cond[:2] == ("u", "Not"):
                cond, tr = cond[2], not tr
            if cond[0] != "cmp":
                return st
            _, pol = norm_cond(fl.ev(cond, fl.env[nk], nk[0]))
            true_is = cmps_pol[src] == pol
        due = val if true_is else not val
        st = list(st)
        if st[5] is not None and st[5] != due:
            return None  # the same comparison cannot have two outcomes within one batch
        st[5] = due
        return tuple(st)

    cmps_pol = {nk: _pol(nk, fl) for nk in cmps}

    def on_end(nk, st, kind):
        if kind == "exit":
            end_iter(nk, st)

    n = fl.simulate(INIT, step, on_end=on_end, cond_hook=hook)
    rep.flow(fl, n)
    for r in ("R1", "R2", "R3", "R4", "R6"):
        if not any(x[0] == r for x in seen):
            for nk, e in ev.items():
                if e in {"R1": ("FWD", "BWD"), "R2": ("BWD", "ZERO"), "R3": ("ZERO",), "R4": ("STEP",), "R6": ("STEP",)}[r]:
                    rep.ok(r, f"{nk[0].func.where}: {_TXT[e]}")


_TXT = {
    "NEXT": "fetch of the next batch", "FWD": "training forward pass", "BWD": "backward pass", "STEP": "optimizer step",
    "ZERO": "clearing of gradients", "CNT": "increment of global_train_step",
}


def _ir_plus_one(v, tgt):
    return v[0] == "b" and v[1] == "Add" and v[2] == tgt and v[3] == ("c", 1) or v[0] == "b" and v[1] == "Add" and v[3] == tgt and v[2] == ("c", 1)


def _is_accum(t):
    return any(x == ("c", ACCUM) for x in subterms(t))


def _accum_expr(fl, nk, e):
    """does the expression denote the accumulation setting (also through its definitions, when values of different
    iterations were merged)"""
    t = fl.term(nk, e)
    if _is_accum(t):
        return True
    if e[0] == "n":
        r = _resolve_ir(fl, nk[0], e)
        fr = nk[0]
        if r is not None and r[1] == 0 and r[0][0] != "self":
            fr, e = r[0][0], ("n", r[0][1])
        for nk2 in fl.env:
            n = nk2[1]
            if nk2[0] is fr and n.kind == "assign" and n.d["target"] == e:
                if _is_accum(fl.term(nk2, n.d["value"])):
                    return True
    return False


def _find_cmps(e):
    if isinstance(e, tuple):
        if len(e) == 4 and e[0] == "cmp" and isinstance(e[1], str):
            yield e
        for x in e:
            if isinstance(x, tuple):
                yield from _find_cmps(x)


def _resolve_ir(fl, frame, e):
    """(frame, key, offset) of a counter expression; parameters are resolved to the caller's argument"""
    off = 0
    while True:
        if e[0] == "b" and e[1] in ("Add", "Sub"):
            if e[3][0] == "c" and isinstance(e[3][1], int):
                off += e[3][1] if e[1] == "Add" else -e[3][1]
                e = e[2]
                continue
            if e[1] == "Add" and e[2][0] == "c" and isinstance(e[2][1], int):
                off += e[2][1]
                e = e[3]
                continue
            return None
        if e[0] == "n":
            if frame.parent is not None and frame.func.cls is not None or frame.parent is not None:
                pn = frame.func.param_names()
                if e[1] in pn and frame.call is not None and frame.call.kind == "call":
                    i = pn.index(e[1])
                    o = 1 if (frame.func.cls is not None and not frame.func.is_static) else 0
                    args = frame.call.d["args"]
                    kw = dict(frame.call.d["kwargs"])
                    if e[1] in kw:
                        e, frame = kw[e[1]], frame.parent
                        continue
                    if 0 <= i - o < len(args):
                        e, frame = args[i - o], frame.parent
                        continue
            return (frame, e[1]), off
        if e[0] == "a" and e[1] == ("n", "self"):
            return ("self", e[2]), off
        return None


def _accum_cmps(fl):
    """comparisons with the accumulation setting: node -> (offset, kind); counter keys"""
    res = {}
    counters = set()
    for nk in fl.env:
        n = nk[1]
        if n.kind not in ("assign", "branch", "return", "call"):
            continue
        for e in _find_cmps(tuple(x for x in n.d.values() if isinstance(x, tuple))):
            op, a, b = e[1], e[2], e[3]
            ta, tb = fl.term(nk, a), fl.term(nk, b)
            ia, ib = _accum_expr(fl, nk, a), _accum_expr(fl, nk, b)
            if ia == ib:
                continue
            x, tx = (b, tb) if ia else (a, ta)
            if tx[0] == "c" or op in ("Is", "IsNot", "In", "NotIn"):
                continue
            if ia:
                op = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
            r = _resolve_ir(fl, nk[0], x)
            if r is None:
                res[nk] = (0, "bad")
                continue
            key, off = r
            counters.add(key)
            # x op accum
            kind = {"GtE": "ge", "Lt": "ge", "Gt": "gt", "LtE": "gt"}.get(op, "bad")
            res[nk] = (off, kind)
    return res, counters


def _pol(nk, fl):
    """value of the (opaque) comparison that means 'count reached'"""
    for e in _find_cmps(tuple(x for x in nk[1].d.values() if isinstance(x, tuple))):
        op, a, b = e[1], e[2], e[3]
        ia = _accum_expr(fl, nk, a)
        if ia:
            op = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
        if op in ("GtE", "Gt", "Eq"):
            return True
        if op in ("Lt", "LtE", "NotEq"):
            return False
    return True


def _counter_updates(fl, counters):
    res = {}
    for nk in fl.env:
        n = nk[1]
        if n.kind != "assign":
            continue
        tgt = n.d["target"]
        if tgt[0] == "n":
            key = (nk[0], tgt[1])
        elif tgt[0] == "a" and tgt[1] == ("n", "self"):
            key = ("self", tgt[2])
        else:
            continue
        if key not in counters:
            continue
        v = n.d["value"]
        if v[0] == "c" and isinstance(v[1], int):
            res[nk] = ("set", v[1])
            continue
        r = _resolve_ir(fl, nk[0], v)
        if r is not None and r[0] == key:
            res[nk] = ("add", r[1])
        else:
            t = fl.term(nk, v)
            if t[0] == "c" and isinstance(t[1], int):
                res[nk] = ("set", t[1])
            else:
                res[nk] = ("top",)
    return res
