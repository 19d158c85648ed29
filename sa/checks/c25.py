"""
C25 forward callbacks see every sequence exactly once, between init and finish.
"""

from __future__ import annotations
import ast
from ..flow import Flow, alts, fmt, subterms, relevance_by_names
from .engine_common import TORCH_ENGINE, entry, allowed_module
from .common import is_call_to

ENG = "returnn.torch.engine"
EXT = "returnn.torch.data.extern_data"
NAMES = {"process_seq", "raw_dict_split_batch", "_create_data_loader", "raw_tensor", "finish"}


def check(p, rep):
    rep.rule("R1", "callback.init exactly once before the first batch, callback.finish exactly once after the last batch")
    rep.rule("R2", "for every batch, process_seq is called exactly once per batch entry, or the whole batch is put back split into parts")
    rep.rule("R3", "tag and outputs handed over are those of the same batch entry; all outputs; padding cut off")
    rep.rule("R4", "splitting a batch partitions it; put back batches are all delivered")
    rep.rule("R5", "sequences are not filtered out by length unless explicitly allowed")
    _forward(p, rep)
    _split(p, rep)
    _queue(p, rep)


def _is_param(t, name=None):
    return t[0] == "param" and (name is None or t[-1] == name)


def _forward(p, rep):
    cls, f = entry(p, TORCH_ENGINE, "forward_with_callback")
    if f is None:
        rep.errors.append("Engine.forward_with_callback not found")
        return
    rel = relevance_by_names(p, NAMES)

    def inline(g):
        if g.name in ("_create_data_loader", "_run_step", "train_epoch", "eval_model"):
            return False
        if not allowed_module(g, (ENG,)):
            return False
        return rel(g) or sum(isinstance(n, ast.stmt) for n in ast.walk(g.node)) <= 6

    fl = Flow(f, cls=cls, inline=inline, max_depth=4)
    seen = set()

    def bad(rule, construct, msg, nk, wit=True):
        if (rule, construct) not in seen:
            seen.add((rule, construct))
            rep.bad(rule, nk[0].func.where, construct, msg, nk[1].line, fl.witness() if wit else None)

    def is_cb(t):
        return any(x[0] == "param" and "callback" in str(x[-1]) for x in alts(t))

    ev = {}
    proc = []
    for nk, c in fl.calls.items():
        if nk in fl.inlined or c.recv is None or nk not in fl.env:
            continue
        if c.name == "process_seq":
            ev[nk] = "PROC"
            proc.append((nk, c))
        elif c.name in ("init", "finish") and is_cb(c.recv):
            ev[nk] = c.name.upper()
        elif c.name in ("extend", "append", "push", "put_back") and c.args and any(
            is_call_to(x, "raw_dict_split_batch") for x in subterms(c.args[0])
        ):
            ev[nk] = "REQUEUE"
    for nk in fl.env:
        n = nk[1]
        if n.kind == "iter" and not n.d.get("comp") and _loader(fl.term(nk, n.d["iter"])):
            ev[nk] = "NEXT"
    for nk, c in fl.calls.items():
        if c.ext() == "next" and c.args and _loader(c.args[0]):
            ev[nk] = "NEXT"
    if not proc:
        rep.bad("R2", f.where, "no-process", "process_seq of the callback is never called")
        return
    if "NEXT" not in ev.values():
        rep.errors.append(f"{f.where}: loop over the data loader not found")
        return
    # the innermost non-comprehension loop around process_seq which is not the data loader loop
    seqloops = {}
    for nk in fl.env:
        n = nk[1]
        if n.kind == "iter" and not n.d.get("comp") and ev.get(nk) != "NEXT":
            if any(pk[0] is nk[0] and _in_loop(nk, pk) for pk, _ in proc):
                ev[nk] = "SEQ"
                seqloops[nk] = fl.term(nk, n.d["iter"])
    for nk, t in seqloops.items():
        ok = _batch_range(t)
        rep.check("R2", ok, nk[0].func.where, "seq-range", f"the loop over the batch entries does not cover exactly the batch: {fmt(t)[:120]}", nk[1].line)

    def step(nk, st, lab):
        e = ev.get(nk)
        if e is None:
            return st
        ph, b = st
        if lab == "exc":
            if e == "NEXT" and nk[1].kind == "call" and b not in ("got", "seq0", "seq1"):
                return (ph, None)  # StopIteration
            return st
        if e == "INIT":
            if ph != 0:
                bad("R1", "init-twice", "callback.init can be called more than once or too late", nk)
            return (1, b)
        if e == "FINISH":
            if ph != 1:
                bad("R1", "finish-twice", "callback.finish is called twice or without init", nk)
            if b is not None:
                bad("R1", "finish-early", "callback.finish is called while batches are still to come", nk)
            return (2, b)
        if e == "NEXT":
            if ph != 1:
                bad("R1", "batch-outside", "batches are processed before callback.init or after callback.finish", nk)
            if b in ("got", "seq0", "seq1"):
                bad("R2", f"lost-{b}", "the next batch is fetched although not all sequences of the current batch were passed to the callback", nk)
            return (ph, None if lab == "done" else "got")
        if e == "SEQ":
            if lab == "done":
                if b == "seq0":
                    bad("R2", "seq-skipped", "a sequence can be skipped without calling process_seq", nk)
                return (ph, "done")
            if b == "seq0":
                bad("R2", "seq-skipped", "a sequence can be skipped without calling process_seq", nk)
            if b in ("done", "requeued"):
                bad("R2", "batch-twice", "the sequences of a batch can be passed to the callback twice", nk)
            return (ph, "seq0")
        if e == "PROC":
            if b == "seq1":
                bad("R2", "proc-twice", "process_seq is called twice for a sequence", nk)
            elif b != "seq0":
                bad("R2", "proc-outside", "process_seq is called outside of the loop over the batch entries", nk)
            if ph != 1:
                bad("R1", "proc-phase", "process_seq is called before init or after finish", nk)
            return (ph, "seq1")
        if e == "REQUEUE":
            if b in ("seq0", "seq1", "done"):
                bad("R2", "requeue-after", "a batch is put back after some of its sequences were already passed to the callback", nk)
            elif b == "requeued":
                bad("R2", "requeue-twice", "a batch is put back twice", nk)
            return (ph, "requeued")
        return st

    def on_end(nk, st, kind):
        if kind == "exit" and st[0] != 2:
            bad("R1", "no-finish", "the forward run ends normally without callback.finish", nk)

    n = fl.simulate((0, None), step, on_end=on_end)
    rep.flow(fl, n)
    for r in ("R1", "R2"):
        if not any(s[0] == r for s in seen):
            rep.ok(r, f.where)
    # put back: all of the split parts of the current batch
    for nk, c in fl.calls.items():
        if ev.get(nk) == "REQUEUE":
            ok = c.name == "extend" and all(is_call_to(x, "raw_dict_split_batch") for x in alts(c.args[0]))
            rep.check("R2", ok, nk[0].func.where, "requeue-part", "not all parts of the split batch are put back", nk[1].line)
            for x in subterms(c.args[0]):
                if is_call_to(x, "raw_dict_split_batch") and x[2]:
                    ok = any(y[0] == "elem" or is_call_to(y, "next") for y in alts(x[2][0]))
                    rep.check("R2", ok, nk[0].func.where, "requeue-other", "what is put back is not the current batch", nk[1].line)
                    break

    # ---- R3
    def is_index(t, depth=0):
        if t[0] == "freevar":
            vals = _free_values(fl, t)
            return bool(vals) and all(is_index(v, depth + 1) for v in vals) if depth < 3 else False
        if t[0] == "phi":
            return all(is_index(x, depth) for x in t[1])
        if t[0] == "elem" and any(t[1] == s or _same_alts(t[1], s) for s in seqloops.values()):
            return True
        if t[0] in ("idx", "sub") and t[-1] == ("c", 0) and t[1][0] == "elem":  # enumerate
            return any(t[1][1] == s for s in seqloops.values())
        if t[0] == "enumidx":
            return True
        return False

    nsub = 0
    for nk in fl.env:
        n = nk[1]
        exprs = []
        if n.kind == "assign":
            exprs.append(n.d["value"])
        elif n.kind == "call":
            exprs += list(n.d["args"]) + [v for _, v in n.d["kwargs"]]
            exprs.append(n.d["func"])
        for e in exprs:
            for s in _subs(e):
                base, idx = fl.term(nk, s[1]), fl.term(nk, s[2])
                if not any(x[0] in ("attr", "fresh") and x[-1] == "raw_tensor" for x in alts(base)):
                    continue
                if not _in_region(nk, seqloops):
                    continue
                nsub += 1
                ok = True
                for i in alts(idx):
                    if i[0] == "slice":
                        ok &= is_index(i[1]) and _plus_one(i[2], i[1])
                    elif i[0] == "tup" and i[1]:
                        ok &= is_index(i[1][0]) if isinstance(i[1], tuple) and i[1] and isinstance(i[1][0], tuple) else True
                    else:
                        ok &= is_index(i)
                rep.check("R3", ok, nk[0].func.where, "entry-index", f"an output or tag of another batch entry is used: [{fmt(idx)[:80]}]", n.line)
    for nk, c in proc:
        tag = c.kwargs.get("seq_tag") or (c.args[0] if c.args else None)
        if tag is not None:
            ok = any(x[0] in ("sub", "elem", "idx") for x in subterms(tag)) and any(x == ("c", "seq_tag") for x in subterms(tag))
            rep.check("R3", ok, nk[0].func.where, "tag-source", f"the tag handed to process_seq is not the sequence tag of the batch entry: {fmt(tag)[:100]}", nk[1].line)
    # all outputs: explicit loop over the outputs stores one entry per iteration
    for nk in fl.env:
        n = nk[1]
        if n.kind == "iter" and any(x[0] == "attr" and x[2] == "outputs" for x in subterms(fl.term(nk, n.d["iter"]))):
            _all_outputs(p, rep, fl, nk, bad)
    _padding(p, rep, fl, bad)
    if not any(s[0] == "R3" for s in seen):
        rep.ok("R3", f"{f.where}: {nsub} batch entry accesses")

    # ---- R5
    def hook5(nk, st, t, val):
        a, mn, mx = st
        if t[0] == "param" and t[-1] == "allow_skipping_seqs":
            return (val, mn, mx)
        if t[0] == "cmp" and t[1] in ("Is", "Eq", "is", "==") and ("c", None) in t[2:]:
            for nm in ("_min_seq_length", "_max_seq_length"):
                if any(x[0] == "attr" and x[2] == nm for x in t[2:]):
                    if nm == "_min_seq_length":
                        mn = val
                    else:
                        mx = val
        return (a, mn, mx)

    def step5(nk, st, lab):
        c = fl.calls.get(nk)
        if c is not None and c.name == "_create_data_loader" and lab != "exc":
            if st[0] is not True and not (st[1] and st[2]):
                bad("R5", "filter", "sequences can be dropped by the length filter although skipping was not allowed", nk)
        return st

    n = fl.simulate((None, None, None), step5, cond_hook=hook5)
    rep.flow(fl, n)
    for a, d in zip(f.node.args.kwonlyargs, f.node.args.kw_defaults):
        if a.arg == "allow_skipping_seqs":
            rep.check("R5", isinstance(d, ast.Constant) and d.value is False, f.where, "skip-default", "skipping sequences is allowed by default", f.node.lineno)
    if not any(s[0] == "R5" for s in seen):
        rep.ok("R5", f.where)


def _same_alts(a, b):
    return set(alts(a)) == set(alts(b))


def _loader(t):
    """the term is the data loader itself, or an iterator of it"""
    for x in alts(t):
        if is_call_to(x, "_create_data_loader"):
            return True
        if x[0] == "call" and is_call_to(x, "QueuedDataIter", "iter", "enumerate", "tqdm", "DataLoader") and x[2] and _loader(x[2][0]):
            return True
        if x[0] == "call" and x[1][0] == "cls" and x[2] and _loader(x[2][0]):
            return True
    return False


def _in_loop(ik, pk):
    """AST: the process_seq call lies in the body of the loop"""
    for x in ast.walk(ik[0].func.node):
        if isinstance(x, ast.For) and (x.iter is ik[1].ast or x is ik[1].ast):
            return any(y is pk[1].ast for s in x.body for y in ast.walk(s))
    return False


def _in_region(nk, seqloops):
    """node is in the loop over batch entries (or in a function called from there)"""
    for ik in seqloops:
        fr, n = nk
        while fr is not None:
            if fr is ik[0] and _in_loop(ik, (fr, n)) or fr is ik[0] and _ast_in_loop(ik, n.ast):
                return True
            n = fr.call if fr.parent is not None else None
            fr = fr.parent
            if n is None:
                break
    return False


def _ast_in_loop(ik, a):
    if a is None:
        return False
    for x in ast.walk(ik[0].func.node):
        if isinstance(x, ast.For) and (x.iter is ik[1].ast or x is ik[1].ast):
            return any(y is a for s in x.body for y in ast.walk(s))
    return False


def _batch_range(t):
    for x in alts(t):
        if is_call_to(x, "range"):
            a = x[2]
            if len(a) == 2 and a[0] == ("c", 0):
                a = a[1:]
            if len(a) != 1:
                return False
            for y in alts(a[0]):
                while is_call_to(y, "int", "item") and (y[2] or y[1][0] == "m"):
                    y = y[2][0] if y[2] else y[1][1]
                if y[0] in ("bin", "u") or is_call_to(y, "min", "max"):
                    return False
        elif is_call_to(x, "enumerate", "zip"):
            pass
        elif x[0] in ("sub",) and x[2][0] == "slice":
            return False
    return True


def _free_values(fl, t):
    """all values the free variable has in the frame of the enclosing function"""
    res = []
    for nk in fl.env:
        n = nk[1]
        if n.kind == "assign" and n.d["target"] == ("n", t[2]) and nk[0].func.full == t[1]:
            res.append(fl.term(nk, n.d["value"]))
    return res


def _subs(e):
    out = []

    def rec(x):
        if isinstance(x, tuple):
            if x and x[0] == "sub" and len(x) == 3:
                out.append(x)
            for y in x:
                rec(y)

    rec(e)
    return out


def _plus_one(hi, lo):
    for h in alts(hi):
        if not (h[0] == "bin" and h[1] in ("Add", "+") and ("c", 1) in h[2:]) and not (h[0] == "lin"):
            return False
    return True


def _all_outputs(p, rep, fl, ik, bad):
    n = ik[1]
    if n.d.get("comp"):
        for x in ast.walk(ik[0].func.node):
            if isinstance(x, (ast.DictComp, ast.ListComp, ast.GeneratorExp)) and any(g.iter is n.ast for g in x.generators):
                if any(g.ifs for g in x.generators):
                    bad("R3", "outputs-filtered", "not all outputs of the model are handed to the callback", ik, False)
        return

    # explicit loop: each iteration must store (subscript store or call) before the next
    def step(nk, st, lab):
        if nk == ik:
            if lab == "iter":
                if st == "it":
                    bad("R3", "outputs-filtered", "not all outputs of the model are handed to the callback", ik)
                return "it"
            if lab == "done" and st == "it":
                bad("R3", "outputs-filtered", "not all outputs of the model are handed to the callback", ik)
            return "out"
        m = nk[1]
        if st == "it" and nk[0] is ik[0] and lab != "exc":
            if m.kind == "assign" and m.d["target"][0] == "sub":
                return "stored"
            c = fl.calls.get(nk)
            if c is not None and c.name in ("mark_as_output", "__setitem__", "update", "append", "setdefault"):
                return "stored"
        return st

    fl.simulate("out", step)


def _padding(p, rep, fl, bad):
    """raw_tensor stores reached from the loop: with a padded dim, the padding was cut off"""
    from ..flow import norm_cond

    for fr in {nk[0] for nk in fl.env}:
        stores = {nk for nk in fl.env if nk[0] is fr and nk[1].kind == "assign" and nk[1].d["target"][0] == "a" and nk[1].d["target"][2] == "raw_tensor"}
        if not stores or fr.parent is None and not stores:
            continue
        if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "slice" for x in ast.walk(fr.func.node)) and not _cuts(fl, fr):
            # only relevant for functions selecting one entry
            pass
        sel = {nk for nk in fl.env if nk[0] is fr and _selects(fl, nk)}
        if not sel:
            continue
        cuts = _cuts(fl, fr)

        def step(nk, st, lab):
            if nk in sel and lab != "exc":
                return "sel"
            if nk in cuts and lab != "exc":
                return "cut"
            if nk in stores and st == "sel":
                bad("R3", "padding", "the outputs of a sequence are handed over without cutting off the padding", nk)
            return st

        def hook(nk, st, t, val):
            if st == "sel" and not nk[1].d.get("incomp"):
                neg = any(is_call_to(x, "any") for x in alts(t)) and not val
                pos = any(is_call_to(x, "all") for x in alts(t)) and val
                if neg or pos:
                    return "nopad"
            return st

        fl.simulate("-", step, cond_hook=hook)


def _selects(fl, nk):
    n = nk[1]
    es = [n.d["value"]] if n.kind == "assign" else list(n.d["args"]) + [n.d["func"]] if n.kind == "call" else []
    for e in es:
        for s in _subs(e):
            b = fl.term(nk, s[1])
            if any(x[0] in ("attr", "fresh") and x[-1] == "raw_tensor" for x in alts(b)):
                i = fl.term(nk, s[2])
                if any(y[0] == "freevar" or y[0] == "elem" or y[0] == "param" for y in subterms(i)):
                    return True
    return False


def _cuts(fl, fr):
    res = set()
    for nk in fl.env:
        if nk[0] is not fr or nk[1].kind != "assign":
            continue
        for s in _subs(nk[1].d["value"]):
            i = fl.term(nk, s[2])
            if any(is_call_to(x, "slice") or x[0] == "slice" for x in subterms(i)) and any(
                is_call_to(x, "get_dim_value", "get_dim_value_tensor") or (x[0] == "attr" and x[2] in ("size", "dimension", "shape", "dims")) for x in subterms(i)
            ):
                res.add(nk)
    return res


# ---------------------------------------------------------------- splitting


def _split(p, rep):
    f = None
    for g in p.all_funcs():
        if g.module.name == EXT and g.name == "raw_dict_split_batch":
            f = g
    if f is None:
        rep.errors.append("raw_dict_split_batch not found")
        return
    fl = Flow(f, inline=lambda g: g.module.name == EXT and g.name not in ("_make_split_seq_from_num_splits",), max_depth=2)
    seen = set()

    def bad(construct, msg, nk):
        if construct not in seen:
            seen.add(construct)
            rep.bad("R4", nk[0].func.where, construct, msg, nk[1].line, fl.witness())

    # partition: slices [off : off + n] with off starting at 0 and advancing to the upper bound
    parts = []
    for nk in fl.env:
        n = nk[1]
        if n.kind != "assign":
            continue
        for s in _subs(n.d["value"]):
            if s[2][0] == "slice" and n.d["target"][0] == "sub":
                parts.append((nk, s))
    use_split = [nk for nk, c in fl.calls.items() if (c.name or "") in ("split", "tensor_split", "array_split")]
    ok_parts = set()
    for nk, s in parts:
        lo, hi = s[2][1], s[2][2]
        if lo[0] != "n":
            continue
        v = lo[1]
        ups = [k for k in fl.env if k[0] is nk[0] and k[1].kind == "assign" and k[1].d["target"] == ("n", v)]
        tlo, thi = fl.term(nk, lo), fl.term(nk, hi)
        zero = [k for k in ups if k[1].d["value"] == ("c", 0)]
        adv = [k for k in ups if k not in zero]
        good = bool(zero) and bool(adv)
        for k in adv:
            # advanced by the same amount as the slice is long
            val = k[1].d["value"]
            good &= _same_step(val, v, hi) or fl.term(k, val) == thi
        # exactly once per slice, reset for each entry: automaton below
        ok_parts.add(nk)
        if not good:
            bad("partition", "the parts of a split batch do not cover it without gap or overlap", nk)
            continue

        def step(k, st, lab, nk=nk, zero=zero, adv=adv):
            if lab == "exc":
                return st
            if k in zero:
                return "at"
            if k == nk:
                if st != "at":
                    bad("partition", "the parts of a split batch do not cover it without gap or overlap", nk)
                return "used"
            if k in adv:
                if st not in ("used",):
                    bad("partition", "the parts of a split batch do not cover it without gap or overlap", nk)
                return "at"
            if k[1].kind == "iter" and not k[1].d.get("comp") and any(x[0] in ("param",) for x in subterms(fl.term(k, k[1].d["iter"]))) and _is_entry_loop(fl, k):
                return "fresh"
            return st

        fl.simulate("fresh", step)
    if not ok_parts and not use_split:
        rep.errors.append(f"{f.where}: slicing of the batch not recognised")
    # entries without a batch dimension are not sliced but go to every part
    def hook(nk, st, t, val):
        if any((x[0] == "attr" and x[2] in ("ndim", "shape")) or is_call_to(x, "dim", "ndim") for x in subterms(t)) or any(
            x[0] == "cmp" and any(y[0] == "key" for y in subterms(x)) for x in [t]
        ):
            return "tested"
        return st

    def step2(nk, st, lab):
        if nk[1].kind == "iter" and not nk[1].d.get("comp") and _is_entry_loop(fl, nk):
            return "no"
        if nk in ok_parts and st == "no" and lab != "exc":
            bad("scalar", "entries without a batch dimension (num_seqs, epoch, complete_frac) are sliced along the batch", nk)
        return st

    fl.simulate("no", step2, cond_hook=hook)
    # the split sizes add up to the batch size on every path to the slicing
    def hook3(nk, st, t, val):
        if t[0] == "cmp" and t[1] in ("Eq", "==", "eq") and val and any(is_call_to(x, "sum") for x in t[2:]):
            return "sum"
        return st

    def step3(nk, st, lab):
        if nk in ok_parts and st != "sum" and lab != "exc":
            bad("sum", "the sizes of the parts are not known to add up to the batch size", nk)
        return st

    n = fl.simulate("no", step3, cond_hook=hook3)
    rep.flow(fl, n)
    if not seen:
        rep.ok("R4", f.where)


def _is_entry_loop(fl, k):
    t = fl.term(k, k[1].d["iter"])
    return any(x[0] == "call" and str(x[1][-1]).endswith("items") for x in alts(t)) and any(x[0] == "param" for x in subterms(t))


def _same_step(val, v, hi):
    """val: IR of the new offset, hi: IR of the upper slice bound"""
    return val == hi


# ---------------------------------------------------------------- queue


def _queue(p, rep):
    cls = p.get_class("returnn.torch.data.queued_data_iter.QueuedDataIter")
    if cls is None:
        return
    f = p.find_method(cls, "__next__")
    g = p.find_method(cls, "extend")
    if f is None or g is None:
        rep.errors.append("QueuedDataIter.__next__/extend not found")
        return
    fl = Flow(f, cls=cls, inline=lambda h: h.cls is cls, max_depth=2)
    seen = set()
    # queue attribute: what extend fills
    flg = Flow(g, cls=cls, inline=lambda h: h.cls is cls, max_depth=2)
    q = set()
    for nk, c in flg.calls.items():
        if c.name in ("extend", "append", "appendleft", "extendleft", "insert", "put") and c.recv is not None:
            for x in alts(c.recv):
                if x[0] == "attr":
                    q.add(x[2])
    over = False
    for nk in flg.env:
        n = nk[1]
        if n.kind == "assign" and n.d["target"][0] == "a":
            a = n.d["target"][2]
            t = flg.term(nk, n.d["value"])
            q.add(a)
            if not any(x[0] in ("attr", "fresh") and x[-1] == a for x in subterms(t)) and nk[0].func is g:
                over = True
                rep.bad("R4", g.where, "queue-overwritten", "putting back items discards items which are still queued", n.line)
    if not q:
        rep.bad("R4", g.where, "queue", "put back items are not queued")
        return

    def hook(nk, st, t, val):
        def isq(x):
            return any(y[0] in ("attr", "fresh") and y[-1] in q for y in alts(x))

        if isq(t):
            return "empty" if not val else "nonempty"
        if is_call_to(t, "len", "bool") and t[2] and isq(t[2][0]):
            return "empty" if not val else "nonempty"
        if t[0] == "cmp" and any(is_call_to(x, "len") and x[2] and isq(x[2][0]) for x in t[2:]):
            if t[1] in ("Gt", "NotEq", ">", "!=") :
                return "empty" if not val else "nonempty"
            if t[1] in ("Eq", "==", "LtE", "<="):
                return "empty" if val else "nonempty"
            return "empty"  # other form: not judged
        return st

    handlers = [nk for nk in fl.env if nk[1].kind == "except"]

    def step(nk, st, lab):
        c = fl.calls.get(nk)
        if nk[1].kind == "except" and st == "ended":
            return "ended-h"
        if c is None or nk in fl.inlined:
            return st
        if c.name in ("pop", "popleft", "get") and c.recv is not None and any(y[0] in ("attr", "fresh") and y[-1] in q for y in alts(c.recv)):
            if lab == "exc":
                return "empty"
            return "popped"
        if c.ext() == "next" or c.name == "__next__":
            if st == "popped":
                if "drop" not in seen:
                    seen.add("drop")
                    rep.bad("R4", f.where, "queue-drop", "a put back batch is taken from the queue and dropped", nk[1].line, fl.witness())
            elif st != "empty" and "late" not in seen and lab != "exc":
                pass
            if st in ("no", "nonempty") and lab == "exc":
                return "ended"
            return st if st == "empty" else "inner"
        return st

    def on_end(nk, st, kind):
        if kind == "excexit" and (st == "ended-h" or st == "ended" and not handlers) and "late" not in seen:
            seen.add("late")
            rep.bad("R4", f.where, "queue-end", "the end of the data is reported while put back batches are still queued", nk[1].line, fl.witness())
        if kind == "exit" and st == "nonempty" and "copy" not in seen:
            seen.add("copy")
            rep.bad("R4", f.where, "queue-nopop", "a put back batch is delivered without taking it from the queue", nk[1].line, fl.witness())

    n = fl.simulate("no", step, on_end=on_end, cond_hook=hook)
    rep.flow(fl, n)
    if not seen and not over:
        rep.ok("R4", f.where)
