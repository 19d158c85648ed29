"""
C24 HDF writer and reader agree on the file layout.

Both writers and the reader are abstracted into events on the HDF tree (path templates ``targets/data/*``,
``targets/size@*``, root attributes, appends, resizes), and the events are compared.
"""

from __future__ import annotations
from ..flow import Flow, alts, fmt, subterms, lin_parts, mk_lin, norm_cond
from .common import deep_subterms, is_call_to, return_terms, strings_in

MOD = "returnn.datasets.hdf"


def check(p, rep):
    rep.rule("R1", "every name the reader reads (whenever its own guards hold for a written file) is written by each writer, under the same path")
    rep.rule("R2", "for each extra stream, data, size and labels are created together, under the same key, with size = (dim, ndim)")
    rep.rule("R3", "columns of the sequence lengths are ordered by the sorted stored name, in both writers and in the reader")
    rep.rule("R4", "appending to a stream: data is stored at the old end, and size, counter and recorded length all grow by the data length, exactly once")
    rep.rule("R5", "a batch insert stores for each i the tag, the length, the data and all extra streams of that i, at the row of that i; errors are not swallowed")
    rep.rule("R6", "the reader reads sequence i of a file between the accumulated lengths i and i+1 of the column of that stream; tags come from the same row; the per-file lists grow together")
    rep.rule("R7", "the writer works on a temporary file which is closed before it is moved into place, and never overwrites an existing file unless asked to extend it")
    rep.rule("R8", "copying a dataset writes each sequence and each key once, contiguously, in the order of the tags and lengths")
    rep.rule("R9", "extending an existing file starts from the existing streams and their lengths")
    rep.assumptions += ["h5py resize/slice semantics", "the dataset which is copied gives the same sequences in both passes (asserted in the code)"]
    R = Roles(p)
    if R.missing:
        rep.errors.append("not found: " + ", ".join(R.missing))
        return
    _append_inputs(p, rep, R)
    _append_extra(p, rep, R)
    _prepare(p, rep, R)
    _batch(p, rep, R)
    _init(p, rep, R)
    _close(p, rep, R)
    _dump(p, rep, R)
    _reader_add(p, rep, R)
    _reader_pos(p, rep, R)
    _schema(p, rep, R)


class Roles:
    def __init__(self, p):
        self.p = p
        self.w = p.get_class(MOD + ".SimpleHDFWriter")
        self.dw = p.get_class(MOD + ".HDFDatasetWriter")
        self.r = p.get_class(MOD + ".HDFDataset")
        self.missing = [n for n, c in (("SimpleHDFWriter", self.w), ("HDFDatasetWriter", self.dw), ("HDFDataset", self.r)) if c is None]
        self.known = set()
        if self.missing:
            return

        def role(cls, name, *texts):
            f = p.find_method(cls, name)
            if f is None:
                for g in cls.methods.values():
                    s = strings_in(g.node) if hasattr(g, "node") else []
                    if g.name != "__init__" and all(t in s for t in texts):
                        f = g
            if f is None:
                self.missing.append(f"{cls.name}.{name}")
            else:
                self.known.add(f.full)
            return f

        self.init = role(self.w, "__init__")
        self.batch = role(self.w, "insert_batch")
        self.close = role(self.w, "close")
        self.prep = role(self.w, "_prepare_extra", "targets/size")
        self.inp = role(self.w, "_insert_h5_inputs", "numTimesteps")
        self.other = role(self.w, "_insert_h5_other", "string")
        self.dump = role(self.dw, "dump_from_dataset")
        self.add = role(self.r, "add_file")
        self.getd = role(self.r, "_get_data_by_real_seq_idx", "targets/data/")
        self.gett = role(self.r, "_get_tag_by_real_idx", "#seqTags")
        self.getl = role(self.r, "_get_seq_length_by_real_idx")
        self.fidx = role(self.r, "_get_file_index")
        self.load = role(self.r, "_load_seqs")

    def flow(self, f, cls):
        def inline(g):
            return g.module.name == MOD and g.full not in self.known and g.name not in ("_decode", "__init__")

        return Flow(f, cls=cls, inline=inline, max_depth=3)


# ------------------------------------------------------------------ helpers


def sim(a, b, d=0):
    """equal up to pruned subterms"""
    if a == b:
        return True
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        if isinstance(a, frozenset) and isinstance(b, frozenset):
            return all(any(sim(x, y, d + 1) for y in b) for x in a) and all(any(sim(x, y, d + 1) for x in a) for y in b)
        return False
    if a and b and (a[0] in ("deep", "top") or b[0] in ("deep", "top")):
        return True
    if d > 30 or len(a) != len(b):
        return False
    return all(sim(x, y, d + 1) for x, y in zip(a, b))


def shape0(fl, nk, v):
    """terms for the length of the value ``v``"""
    env = fl.env[nk]
    s = fl.subscript(fl.attr(v, "shape", env), ("c", 0), env)
    return [s, ("call", ("ext", "len"), (v,), ())]


def is_len(fl, nk, t, v):
    return any(sim(t, x) for x in shape0(fl, nk, v)) or all(
        any(sim(x, y) for w in alts(v) for y in shape0(fl, nk, w)) for x in alts(t)
    )


def stores(fl):
    res = []
    for nk in fl.env:
        n = nk[1]
        if n.kind == "assign" and n.d["target"][0] == "sub":
            t = n.d["target"]
            res.append((nk, fl.term(nk, t[1]), fl.term(nk, t[2]), fl.term(nk, n.d["value"])))
    return sorted(res, key=lambda x: (x[0][1].line, x[0][1].id))


def calls(fl, *names):
    return sorted(
        ((nk, c) for nk, c in fl.calls.items() if nk in fl.env and nk not in fl.inlined and c.name in names),
        key=lambda x: (x[0][1].line, x[0][1].id),
    )


def self_attr(t, name):
    return t[0] == "attr" and t[1][0] == "self" and t[2] == name


def any_self_attr(t, name):
    return any(self_attr(x, name) for x in alts(t))


def fpath(t):
    """set of path templates of a term, relative to a HDF file; empty if it is not part of one"""
    res = set()
    for x in alts(t):
        res |= _fpath1(x)
    return res


def _name(t):
    from ..flow import cat_parts

    if t[0] == "c" and isinstance(t[1], str):
        return t[1].strip("/")
    if t[0] == "cat":
        return "".join(q[1] if q[0] == "c" and isinstance(q[1], str) else "*" for q in cat_parts(t))
    if t[0] == "b" and t[1] in ("Add", "Mod"):
        return _name(t[2]).replace("%s", "") + ("*" if t[3][0] != "c" else _name(t[3]))
    return "*"


def _fpath1(x):
    if x[0] == "call" and is_call_to(x, "File"):
        return {""}
    if x[0] == "attr" and x[1][0] == "self" and x[2] in ("_file", "file"):
        return {""}
    if x[0] in ("sub", "elem") and self_attr(x[1], "h5_files"):
        return {""}
    if x[0] == "attr" and x[2] == "attrs":
        return {b + "@" for b in fpath(x[1])}
    if x[0] == "sub":
        return {
            _join(b, _name(i))
            for b in fpath(x[1])
            for i in alts(x[2])
            if not (i[0] in ("slice", "tup", "idx", "lin") or (i[0] == "c" and not isinstance(i[1], str)))
        }
    if x[0] == "val":
        return {_join(b, "*") for b in fpath(x[1])}
    if x[0] == "call" and x[1][0] == "m" and x[1][2] in ("create_dataset", "create_group", "require_group", "require_dataset"):
        a = x[2][0] if x[2] else dict(x[3]).get("name", ("c", None))
        return {_join(b, _name(a)) for b in fpath(x[1][1])}
    return set()


def _join(b, n):
    if b.endswith("@"):
        return b + n
    return b + "/" + n if b else n


def once(rep, rule, fl, where, events, what, *, want=(1, 1), init=None):
    """each event name in ``events`` {nk: name} happens the wanted number of times on every normal path"""
    names = sorted(set(events.values()))
    bad = set()

    def step(nk, st, lab):
        e = events.get(nk)
        if e is not None and lab not in ("exc",):
            d = dict(st)
            d[e] = min(d.get(e, 0) + 1, 3)
            st = tuple(sorted(d.items()))
        return st

    def end(nk, st, kind):
        if kind != "exit":
            return
        d = dict(st)
        for n in names:
            if not want[0] <= d.get(n, 0) <= want[1]:
                bad.add((n, d.get(n, 0)))

    k = fl.simulate((), step, on_end=end)
    rep.flow(fl, k)
    for n in names:
        b = sorted(x for x in bad if x[0] == n)
        rep.check(rule, not b, where, f"{what}:{n}", f"{n} can happen {b[0][1] if b else ''} times in one call", fl.entry.node.lineno)


# ------------------------------------------------------------------ appending


def _append_inputs(p, rep, R):
    fl = R.flow(R.inp, R.w)
    rep.analysed(R.inp)
    where = R.inp.where
    st = stores(fl)
    data = [s for s in st if "inputs" in fpath(s[1]) or _ds_key(s[1]) == ("c", "inputs")]
    data = [s for s in data if s[2][0] == "slice"]
    cnt = [s for s in st if fpath(s[1]) == {"@"} and s[2] == ("c", "numTimesteps")]
    seqs = [s for s in st if fpath(s[1]) == {"@"} and s[2] == ("c", "numSeqs")]
    rep.check("R4", bool(data), where, "inputs-no-store", "the data is not stored at a position of the inputs", R.inp.node.lineno)
    rep.check("R4", bool(cnt), where, "inputs-no-counter", "the number of stored frames is not updated", R.inp.node.lineno)
    rep.check("R4", bool(seqs), where, "inputs-no-numseqs", "the number of sequences is not updated", R.inp.node.lineno)
    if not (data and cnt and seqs):
        return
    ev = {}
    for nk, b, i, v in data:
        ev[nk] = "data store"
        c0 = ("sub", ("attr", ("attr", ("self", R.w.full), "_file"), "attrs"), ("c", "numTimesteps"))
        ok = i[1] == c0 and (i[2] == ("c", None) or any(_grown(fl, nk, i[2], c0, w) for w in [v]))
        rep.check("R4", ok, where, "inputs-position", f"the data is stored at {fmt(i)} and not at the old end", nk[1].line)
        prm = [x for x in subterms(v) if x[0] == "param"]
        rep.check("R4", bool(prm), where, "inputs-value", "what is stored is not the given data", nk[1].line)
        for nk2, b2, i2, v2 in cnt:
            ev[nk2] = "frame counter"
            rep.check("R4", _grown(fl, nk2, v2, c0, v), where, "inputs-counter", f"the number of frames becomes {fmt(v2)}", nk2[1].line)
        for nk2, c in calls(fl, "resize"):
            ev[nk2] = "grow"
            a = c.arg(0, "size")
            old = shape0(fl, nk2, c.recv)[0]
            rep.check(
                "R4", a is not None and (_grown(fl, nk2, a, old, v) or _grown(fl, nk2, a, c0, v)) and _axis0(c),
                where, "inputs-resize", f"the inputs are resized to {fmt(a) if a else None}", c.line,
            )
        for nk2, c in calls(fl, "create_dataset"):
            ev[nk2] = "grow"
            sh = c.arg(1, "shape")
            env = fl.env[nk2]
            rep.check("R4", sh is not None and sim(sh, fl.attr(v, "shape", env)), where, "inputs-create", "the inputs are created with another shape than the data", c.line)
            rep.check("R4", c.kwargs.get("maxshape") is not None, where, "inputs-resizable", "the inputs are created with a fixed size", c.line)
    for nk, b, i, v in seqs:
        ev[nk] = "sequence counter"
        c0 = ("sub", ("attr", ("attr", ("self", R.w.full), "_file"), "attrs"), ("c", "numSeqs"))
        rep.check("R4", v == mk_lin(1, {c0: 1}), where, "inputs-numseqs", f"the number of sequences becomes {fmt(v)}", nk[1].line)
    once(rep, "R4", fl, where, ev, "inputs")
    _order(rep, "R4", fl, where, ev, "grow", "data store", "inputs-grow-before-store", "the data is stored before the dataset was grown")


def _order(rep, rule, fl, where, ev, first, second, construct, msg):
    bad = []

    def step(nk, st, lab):
        e = ev.get(nk)
        if e == first and lab != "exc":
            return True
        if e == second and not st:
            bad.append(nk)
        return st

    fl.simulate(False, step)
    rep.check(rule, not bad, where, construct, msg, bad[0][1].line if bad else 0)


def _axis0(c):
    a = c.arg(1, "axis")
    return a is None or a == ("c", 0)


def _grown(fl, nk, t, c0, v):
    """t == c0 + len(v)"""
    k, d = lin_parts(t)
    if k != 0 or len(d) != 2 or any(x != 1 for x in d.values()):
        return False
    ts = list(d)
    for a, b in (ts, ts[::-1]):
        if sim(a, c0) and is_len(fl, nk, b, v):
            return True
    return False


def _ds_key(t):
    """key term when t is self._datasets[key] (possibly one of several alternatives)"""
    for x in alts(t):
        if x[0] == "sub" and any_self_attr(x[1], "_datasets"):
            return x[2]
    return None


def _append_extra(p, rep, R):
    fl = R.flow(R.other, R.w)
    rep.analysed(R.other)
    where = R.other.where
    st = stores(fl)
    line = R.other.node.lineno
    keyp = ("param", R.other.full_colon if hasattr(R.other, "full_colon") else f"{MOD}:{R.other.qualname}", "data_key")
    data = [s for s in st if _ds_key(s[1]) is not None or any(x.startswith("targets/data/") for x in fpath(s[1]))]
    data = [s for s in data if s[2][0] == "slice"]
    cnt = [s for s in st if any_self_attr(s[1], "_extra_num_time_steps")]
    lens = [s for s in st if any_self_attr(s[1], "_seq_lengths")]
    rep.check("R4", bool(data), where, "extra-no-store", "the data is not stored at a position of the stream", line)
    rep.check("R4", bool(cnt), where, "extra-no-counter", "the number of stored frames is not updated", line)
    if not (data and cnt):
        return
    ev = {}
    nk, b, i, v = data[-1]
    key = _ds_key(b) or _last_key(b)
    c0 = ("sub", ("attr", ("self", R.w.full), "_extra_num_time_steps"), key)
    for nk, b, i, v in data:
        ev[nk] = "data store"
        kk = _ds_key(b) or _last_key(b)
        rep.check("R4", kk == key and kk[0] == "param", where, "extra-key", "the data is stored into another stream", nk[1].line)
        lo = mk_sub(i[1], c0)
        rep.check("R4", sim(i[1], c0) and (i[2] == ("c", None) or _grown(fl, nk, i[2], c0, v)), where, "extra-position", f"the data is stored at {fmt(i)[:200]} and not at the old end", nk[1].line)
    for nk2, b2, i2, v2 in cnt:
        ev[nk2] = "frame counter"
        rep.check("R4", i2 == key and _grown(fl, nk2, v2, c0, v), where, "extra-counter", f"the number of frames of {fmt(i2)} becomes {fmt(v2)[:200]}", nk2[1].line)
    ds = calls(fl, "resize")
    rep.check("R4", bool(ds), where, "extra-no-resize", "the stream is not grown", line)
    for nk2, c in ds:
        if any_self_attr(c.recv, "_seq_lengths") or any_self_attr(c.recv, "_seq_tags"):
            rep.bad("R4", where, "extra-resize-rows", "adding a stream changes the number of sequences", c.line)
            continue
        ev[nk2] = "grow"
        a = c.arg(0, "size")
        rep.check("R4", _ds_key(c.recv) == key and a is not None and _grown(fl, nk2, a, c0, v) and _axis0(c), where, "extra-resize", f"the stream is resized to {fmt(a)[:200] if a else None}", c.line)
    nseq = ("sub", ("attr", ("attr", ("self", R.w.full), "_file"), "attrs"), ("c", "numSeqs"))
    row = mk_lin(-1, {nseq: 1})
    own = 0
    for nk2, b2, i2, v2 in lens:
        if i2[0] != "tup" or len(i2[1]) != 2:
            rep.bad("R4", where, "extra-length-index", f"the length is stored at {fmt(i2)[:200]}", nk2[1].line)
            continue
        r, col = i2[1]
        rep.check("R4", r == row, where, "extra-length-row", f"the length is stored in row {fmt(r)} and not in the row of the current sequence", nk2[1].line)
        k, d = lin_parts(col)
        c = list(d)
        okc = k == 1 and len(c) == 1 and d[c[0]] == 1
        x = c[0] if c else None
        if okc and x[0] == "call" and x[1][0] == "m" and x[1][2] == "index":
            rep.check("R3", _sorted_of_prepared(x[1][1]), where, "extra-column", f"the column of a stream is its index in {fmt(x[1][1])}", nk2[1].line)
            rep.check("R4", x[2] == (key,) and is_len(fl, nk2, v2, v), where, "extra-length", "the recorded length is not the length of the data of this stream", nk2[1].line)
            ev[nk2] = "length"
            own += 1
        elif okc and x[0] == "idx" and _sorted_of_prepared(x[1]):
            # re-initialising after a new stream was added: the lengths so far, for the same key as the column
            el = [y for y in subterms(v2) if y[0] == "elem" and y[1] == x[1]]
            rep.check("R3", bool(el) and any(self_attr(y, "_extra_num_time_steps") for y in subterms(v2)), where, "extra-reinit", "the lengths are moved to columns of other streams", nk2[1].line)
        else:
            rep.bad("R3", where, "extra-column", f"the length is stored in column {fmt(col)[:200]}", nk2[1].line)
    rep.check("R4", own >= 1, where, "extra-no-length", "the length of the data is not recorded", line)
    # the stream must exist before: prepare before everything
    for nk2, c in fl.calls.items():
        if nk2 in fl.env and (R.prep in c.funcs() or c.name == R.prep.name):
            ev[nk2] = "prepare"
            a = c.arg(0, "extra_type")
            ks = [y for x in alts(a) if x[0] == "dict" for (y, _) in x[1]]
            rep.check("R4", ks == [key], where, "extra-prepare-key", "another stream is prepared than the one which is stored", c.line)
            for x in alts(a):
                if x[0] == "dict":
                    for _, val in x[1]:
                        ok = val[0] == "tup" and len(val[1]) == 3 and any(
                            y[0] == "attr" and y[2] == "ndim" for y in subterms(val[1][1])
                        )
                        rep.check("R2", ok, where, "extra-prepare-type", "the stream is not prepared with (dim, ndim, dtype)", c.line)
    once(rep, "R4", fl, where, ev, "extra")
    for second in ("frame counter", "grow", "data store", "length"):
        _order(rep, "R4", fl, where, ev, "prepare", second, f"extra-prepare-before-{second}".replace(" ", "-"), "the stream is used before it is prepared")
    _order(rep, "R4", fl, where, ev, "grow", "data store", "extra-grow-before-store", "the data is stored before the dataset was grown")


def mk_sub(a, b):
    ka, da = lin_parts(a)
    kb, db = lin_parts(b)
    d = dict(da)
    for x, n in db.items():
        d[x] = d.get(x, 0) - n
    return mk_lin(ka - kb, d)


def _last_key(t):
    for x in alts(t):
        if x[0] == "sub":
            return x[2]
    return None


def _sorted_of_prepared(t):
    return all(
        x[0] == "call" and x[1] == ("ext", "sorted") and not x[3] and len(x[2]) == 1 and _is_prepared(x[2][0])
        for y in alts(t)
        for x in [y[2][0] if y[0] == "call" and y[1] in (("ext", "list"), ("ext", "tuple")) and len(y[2]) == 1 else y]
    )


def _is_prepared(t):
    if t[0] == "call" and t[1] in (("ext", "list"), ("ext", "set")) and len(t[2]) == 1:
        t = t[2][0]
    return any_self_attr(t, "_prepared_extra") or any_self_attr(t, "_extra_num_time_steps")


# ------------------------------------------------------------------ preparing streams


def _over_param(t, name):
    t = _items_base(t)
    if is_call_to(t, "sorted", "list", "tuple") and len(t[2]) == 1:
        t = _items_base(t[2][0])
    return t[0] == "param" and t[2] == name


def _iter_nodes(fl, pred):
    return [nk for nk in fl.env if nk[1].kind == "iter" and pred(fl.term(nk, nk[1].d["iter"]))]


def _prepare(p, rep, R):
    fl = R.flow(R.prep, R.w)
    rep.analysed(R.prep)
    where = R.prep.where
    ev = {}
    keys = {}
    for nk, b, i, v in stores(fl):
        if fpath(b) == {"targets/size@"}:
            ev[nk] = "size"
            keys[nk] = i
            ok = v[0] in ("tup", "list") and len(v[1]) == 2 and _has_item(v[1][0], 0) and not _has_item(v[1][0], 1) and _has_item(v[1][1], 1) and not _has_item(v[1][1], 0)
            rep.check("R2", ok, where, "size-value", f"the size entry is {fmt(v)[:150]} and not (dim, ndim)", nk[1].line)
        elif any_self_attr(b, "_datasets"):
            ev[nk] = "handle"
            keys[nk] = i
        elif any_self_attr(b, "_extra_num_time_steps"):
            ev[nk] = "counter"
            keys[nk] = i
            ok = all(
                x == ("c", 0) or (x[0] == "sub" and x[2] == ("c", 0) and x[1][0] == "attr" and x[1][2] == "shape") for x in alts(v)
            )
            rep.check("R9" if v != ("c", 0) else "R4", ok, where, "counter-init", f"the frame counter starts at {fmt(v)[:100]}", nk[1].line)
    for nk, c in calls(fl, "create_dataset", "require_dataset"):
        if fpath(c.recv) == {"targets/data"} or (fpath(c.recv) == {""} and _name(c.arg(0, "name")).startswith("targets/data/")):
            ev[nk] = "data"
            keys[nk] = c.arg(0, "name")
            rep.check("R2", c.kwargs.get("maxshape") is not None, where, "data-resizable", "the stream is created with a fixed size", c.line)
    for nk, c in fl.calls.items():
        if nk not in fl.env:
            continue
        if c.name == "hdf5_strings" and _name(c.arg(1)) == "targets/labels/*":
            ev[nk] = "labels"
            keys[nk] = [x for x in subterms(c.arg(1)) if x[0] in ("key", "elem", "param")][0]
        elif c.name == "add" and c.recv is not None and any_self_attr(c.recv, "_prepared_extra"):
            ev[nk] = "known"
            keys[nk] = c.arg(0)
        elif c.name == "resize" and c.recv is not None and any_self_attr(c.recv, "_seq_lengths"):
            a = c.arg(0, "size")
            k, d = lin_parts(a)
            ok = k == 1 and len(d) == 1 and is_call_to(list(d)[0], "len") and _is_prepared(list(d)[0][2][0]) and c.arg(1, "axis") == ("c", 1)
            rep.check("R3", ok, where, "columns", f"the number of columns becomes {fmt(a)} along {c.arg(1, 'axis')}", c.line)
            ev[nk] = "columns"
    have = set(ev.values())
    for n, what in (("data", "targets/data entry"), ("size", "targets/size entry"), ("labels", "targets/labels entry"), ("handle", "dataset handle"), ("counter", "frame counter"), ("known", "list of known streams"), ("columns", "number of columns")):
        rep.check("R2", n in have, where, f"no-{n}", f"preparing a new stream does not write its {what}", R.prep.node.lineno)
    its = _iter_nodes(fl, lambda t: _over_param(t, "extra_type"))
    ks = {}
    for nk, k in keys.items():
        k = k[0] if isinstance(k, list) else k
        ks.setdefault(k, []).append(ev[nk])
    main = max(ks, key=lambda k: len(ks[k])) if ks else None
    for nk, k in keys.items():
        rep.check("R2", k == main, where, f"key-{ev[nk]}", f"the {ev[nk]} entry is written under {fmt(k)} instead of {fmt(main) if main else None}", nk[1].line)
    if not its or not {"data", "size", "labels", "handle", "counter", "known", "columns"} <= have:
        return
    bad = {}

    def fin(st, nk):
        s, cols = st
        if not s:
            return
        if "known" not in s:
            bad.setdefault("known", (nk, "a stream is prepared but not added to the known streams"))
        for x in ("handle", "counter"):
            if x not in s:
                bad.setdefault(x, (nk, f"a stream is made known without {x}"))
        if "data" in s and not {"size", "labels"} <= s:
            bad.setdefault("triple", (nk, "a stream is created without " + ", ".join(sorted({"size", "labels"} - s))))

    # state: (events in this iteration, created data but columns not adapted)
    def step(nk, st, lab):
        s, cols = st
        if nk in its and lab in ("iter", "done"):
            fin(st, nk)
            s = frozenset()
        e = ev.get(nk)
        if e and lab != "exc":
            if e == "columns":
                cols = False
            else:
                s = s | {e}
                if e == "data":
                    cols = True
        return (s, cols)

    def end(nk, st, kind):
        if kind == "exit":
            fin(st, nk)
            if st[1]:
                bad.setdefault("columns", (nk, "a new stream is added without adding its column of sequence lengths"))

    def hook(nk, st, atom, val):
        # ``if added_count`` is true after at least one stream was added
        if not val and st[1] and any(x in (("c", 0), ("c", False)) or x[0] == "new" for x in alts(atom)):
            return None
        return st

    n = fl.simulate((frozenset(), False), step, on_end=end, cond_hook=hook)
    rep.flow(fl, n)
    for k in ("known", "handle", "counter", "triple", "columns"):
        x = bad.get(k)
        rep.check("R2", x is None, where, f"prepare-{k}", x[1] if x else "", x[0][1].line if x else 0)


def _has_item(t, i):
    return any(x[0] == "item" and x[2] == i for x in subterms(t))


# ------------------------------------------------------------------ batch insert


def _batch(p, rep, R):
    fl = R.flow(R.batch, R.w)
    rep.analysed(R.batch)
    where = R.batch.where
    line = R.batch.node.lineno
    pid = f"{MOD}:{R.batch.qualname}"
    P = lambda n: ("param", pid, n)
    n_b = [("call", ("ext", "len"), (P("seq_tag"),), ()), ("sub", ("attr", P("inputs"), "shape"), ("c", 0))]
    offs = [("sub", ("attr", ("attr", ("self", R.w.full), a), "shape"), ("c", 0)) for a in ("_seq_lengths", "_seq_tags")]
    rs = {}
    ev = {}
    for nk, c in calls(fl, "resize"):
        for a in ("_seq_lengths", "_seq_tags"):
            if any_self_attr(c.recv, a):
                rs.setdefault(a, []).append(nk)
                sz = c.arg(0, "size")
                if sz is not None and sz[0] == "tup" and sz[1]:
                    sz = sz[1][0]
                ok = sz is not None and any(sz == mk_lin(0, {o: 1, n: 1}) for o in offs for n in n_b) and _axis0(c)
                rep.check("R5", ok, where, f"resize{a}", f"{a} is resized to {fmt(sz)[:150] if sz else None} and not by the batch size", c.line)
                ev[nk] = "resize " + a
    for a in ("_seq_lengths", "_seq_tags"):
        rep.check("R5", a in rs, where, f"no-resize{a}", f"{a} is not grown", line)
    if len(rs) < 2:
        return
    once(rep, "R5", fl, where, ev, "batch")
    # the offset is read before the resize
    late = []
    allr = {nk for v in rs.values() for nk in v}

    def step(nk, st, lab):
        if nk in allr and lab != "exc":
            return True
        if st and nk[1].kind in ("assign",) and _reads_shape(nk[1].d["value"]):
            late.append(nk)
        return st

    fl.simulate(False, step)
    for nk in late:
        ok = all(x[1] != "shape" for x in ())
        t = fl.term(nk, nk[1].d["value"])
        if any(x in offs for x in subterms(t)):
            # read of the other dataset, which is resized later, is fine
            before = any(
                _reads_attr(nk[1].d["value"], a) and nk[1].line < min(k[1].line for k in rs[a]) for a in ("_seq_lengths", "_seq_tags")
            )
            rep.check("R5", before, where, "offset-late", "the row offset is read after the rows were added", nk[1].line)
    I = None
    its = []
    for nk in fl.env:
        if nk[1].kind == "iter":
            t = fl.term(nk, nk[1].d["iter"])
            if t in [("call", ("ext", "range"), (n,), ()) for n in n_b]:
                its.append((nk, ("elem", t)))
            elif t == ("call", ("ext", "enumerate"), (P("seq_tag"),), ()):
                its.append((nk, ("idx", P("seq_tag"))))
    rep.check("R5", len(its) == 1, where, "loop", "no single loop over all sequences of the batch", line)
    if len(its) != 1:
        return
    it, I = its[0]
    tag_i = [("sub", P("seq_tag"), I)] + ([("elem", P("seq_tag"))] if I[0] == "idx" else [])
    lev = {}
    F = None
    for nk, b, i, v in stores(fl):
        if any_self_attr(b, "_seq_tags"):
            lev[nk] = "tag"
            rep.check("R5", any(i == mk_lin(0, {o: 1, I: 1}) for o in offs), where, "tag-row", f"the tag is stored in row {fmt(i)[:150]}", nk[1].line)
            rep.check("R5", any(x in tag_i for x in subterms(v)), where, "tag-value", f"the stored tag is {fmt(v)[:150]}", nk[1].line)
        elif any_self_attr(b, "_seq_lengths"):
            lev[nk] = "length"
            ok = i[0] == "tup" and len(i[1]) == 2 and any(i[1][0] == mk_lin(0, {o: 1, I: 1}) for o in offs) and i[1][1] == ("c", 0)
            rep.check("R5", ok, where, "length-row", f"the length is stored at {fmt(i)[:150]}", nk[1].line)
            F = v
            idx = [x for x in subterms(v) if x[0] == "sub" and any(y == P("seq_len") for y in subterms(x[1]))]
            ok = bool(idx) and any(sim(x[2], I) for x in idx) and not any(is_call_to(x, "max", "min", "sum") and x[1][0] in ("ext",) and not is_call_to(x, "range") and _over_len(x, P("seq_len")) for x in subterms(v))
            rep.check("R5", ok, where, "length-value", f"the recorded length is {fmt(v)[:150]}", nk[1].line)
    for nk, c in fl.calls.items():
        if nk not in fl.env or nk in fl.inlined:
            continue
        if c.name == R.inp.name:
            lev[nk] = "inputs"
            a = c.args[0] if c.args else c.kwargs.get("raw_data")
            sub = [x for x in subterms(a) if x[0] == "sub" and x[1] == P("inputs")]
            rep.check("R5", bool(sub) and all(x[2] == I or (x[2][0] == "tup" and x[2][1][0] == I) for x in sub), where, "inputs-index", f"the stored data is {fmt(a)[:150]}", c.line)
            if F is not None:
                ok = any(sim(x, F) for x in deep_subterms(fl, a)) if any(is_call_to(x, "reshape") for x in subterms(a)) else any(
                    y[0] in ("slice",) for y in subterms(a)
                )
                rep.check("R5", ok, where, "inputs-length", "the stored data is not cut to the recorded length", c.line)
        elif c.name == R.other.name:
            k = c.args[0] if c.args else c.kwargs.get("data_key")
            v = c.args[1] if len(c.args) > 1 else c.kwargs.get("raw_data")
            if k is not None and k[0] == "c":
                ok = any(x == I or sim(x, I) for x in subterms(v)) and any(x == P("seq_len") for x in subterms(v))
                rep.check("R5", ok, where, "sizes", f"the stored sizes are {fmt(v)[:150]}", c.line)
                continue
            ok = k in (("key", P("extra")), ("elem", P("extra")))
            okv = v in [("sub", ("val", P("extra")), I), ("sub", ("sub", P("extra"), k), I)]
            rep.check("R5", ok and okv, where, "extra-index", f"the extra stream {fmt(k)} gets {fmt(v)[:150]}", c.line)
            lev[nk] = "extra"
    have = set(lev.values())
    for n in ("tag", "length", "inputs", "extra"):
        rep.check("R5", n in have, where, f"no-{n}", f"a batch insert does not store the {n}", line)
    if len(have) < 4:
        return
    xit = _iter_nodes(fl, lambda t: t in [P("extra"), ("call", ("m", P("extra"), "items"), (), ()), ("call", ("m", P("extra"), "keys"), (), ())] or (is_call_to(t, "sorted", "list") and t[2] and P("extra") in list(subterms(t[2][0]))))
    xit = [nk for nk in xit if any(_inside(fl, nk, e) for e in lev if lev[e] == "extra")]
    rep.check("R5", bool(xit), where, "extra-loop", "no loop over all extra streams", line)
    bad = {}

    # state: (in loop, tags, lengths, inputs, extra state, failed)
    def step2(nk, st, lab):
        inl, t, l, d, x, fail = st
        e = lev.get(nk)
        if lab == "exc" and e is not None:
            fail = e
        elif e and lab != "exc":
            if e == "tag":
                t = min(t + 1, 2)
            elif e == "length":
                l = min(l + 1, 2)
            elif e == "inputs":
                d = min(d + 1, 2)
            elif e == "extra":
                if d != 1:
                    bad.setdefault("extra-before-inputs", (nk, "an extra stream is stored before the sequence was started by its inputs"))
                x = min(x + 1, 2) if x >= 0 else x
        if nk in xit and lab in ("iter", "done"):
            if x >= 0 and x != 1:
                bad.setdefault("extra-once", (nk, f"an extra stream is stored {x} times for one sequence"))
            x = 0 if lab == "iter" else -1
        if nk == it and lab in ("iter", "done"):
            if inl:
                for n, v in (("tag", t), ("length", l), ("inputs", d)):
                    if v != 1:
                        bad.setdefault(f"{n}-once", (nk, f"the {n} is stored {v} times for one sequence"))
                if fail:
                    bad.setdefault("swallow", (nk, f"an error while storing the {fail} is swallowed"))
                if x > 0 or (x == 0 and False):
                    bad.setdefault("extra-break", (nk, "the loop over the extra streams is left early"))
            inl, t, l, d, x = (lab == "iter"), 0, 0, 0, -1
            if lab == "done":
                inl = False
        return (inl, t, l, d, x, fail)

    def end(nk, st, kind):
        if kind == "exit":
            if st[0]:
                bad.setdefault("loop-left", (nk, "the loop over the sequences of the batch is left early"))
            if st[5]:
                bad.setdefault("swallow", (nk, f"an error while storing the {st[5]} is swallowed"))

    n = fl.simulate((False, 0, 0, 0, -1, ""), step2, on_end=end)
    rep.flow(fl, n)
    for k in ("tag-once", "length-once", "inputs-once", "extra-once", "extra-before-inputs", "extra-break", "loop-left", "swallow"):
        x = bad.get(k)
        rep.check("R5", x is None, where, k, x[1] if x else "", x[0][1].line if x else 0)


def _over_len(x, prm):
    return any(a == prm or (y[0] == "sub" and prm in list(subterms(y[1]))) for a in x[2] for y in subterms(a))


def _inside(fl, it, e):
    return it[1].line <= e[1].line


def _reads_shape(e):
    if isinstance(e, tuple):
        if e and e[0] == "a" and len(e) > 2 and e[2] == "shape":
            return True
        return any(_reads_shape(x) for x in e)
    return False


def _reads_attr(e, name):
    if isinstance(e, tuple):
        if e and e[0] == "a" and len(e) > 2 and e[2] == name:
            return True
        return any(_reads_attr(x, name) for x in e)
    return False


# ------------------------------------------------------------------ opening and closing


def _init(p, rep, R):
    fl = R.flow(R.init, R.w)
    rep.analysed(R.init)
    where = R.init.where
    line = R.init.node.lineno
    pid = f"{MOD}:{R.init.qualname}"
    ext = ("param", pid, "extend_existing_file")
    fn = ("param", pid, "filename")
    ev = {}
    for nk, b, i, v in stores(fl):
        if fpath(b) == {"@"} and i[0] == "c":
            ev[nk] = "@" + i[1]
            if i[1] in ("numTimesteps", "numSeqs"):
                rep.check("R4", v == ("c", 0), where, f"init-{i[1]}", f"{i[1]} starts at {fmt(v)}", nk[1].line)
    for nk, c in calls(fl, "create_dataset"):
        nm = _name(c.arg(0, "name"))
        ev[nk] = nm
        if nm in ("seqLengths", "seqTags"):
            sh = c.arg(1, "shape")
            ok = sh is not None and sh[0] in ("tup", "list") and sh[1] and sh[1][0] == ("c", 0) and len(sh[1]) == (2 if nm == "seqLengths" else 1)
            mx = c.kwargs.get("maxshape")
            ok2 = mx is not None and all(x == ("c", None) for x in (mx[1] if mx[0] in ("tup", "list") else (mx,)))
            rep.check("R4", ok and ok2, where, f"init-{nm}", f"{nm} is created with shape {fmt(sh) if sh else None} and maximal shape {fmt(mx) if mx else None}", c.line)
    attr_of = {}
    for nk in fl.env:
        n = nk[1]
        if n.kind == "assign" and n.d["target"][0] == "a" and n.d["target"][2] in ("_seq_lengths", "_seq_tags"):
            fp = fpath(fl.term(nk, n.d["value"]))
            attr_of.setdefault(n.d["target"][2], set()).update(fp or {"?"})
    for a, nm in (("_seq_lengths", "seqLengths"), ("_seq_tags", "seqTags")):
        rep.check("R4", attr_of.get(a) == {nm}, where, f"init{a}", f"{a} refers to {sorted(attr_of.get(a, ()))}", line)
    req = {"@numTimesteps", "@numSeqs", "@inputPattSize", "seqLengths", "seqTags"}
    copies = [nk for nk, c in calls(fl, "copyfile", "copy", "copy2") if c.args and c.args[0] == fn]
    opens = [nk for nk, c in calls(fl, "File")]
    bad = {}
    ex_known = {}
    exts = [nk for nk in fl.env if nk[1].kind == "iter" and fpath_items(fl.term(nk, nk[1].d["iter"])) == {"targets/data"}]
    loopev = {}
    for nk, b, i, v in stores(fl):
        for e in exts:
            base = _items_base(fl.term(e, e[1].d["iter"]))
            if i in (("key", base), ("elem", base)):
                if any(x[0] == "sub" and x[2] == ("c", 0) and x[1][0] == "attr" and x[1][2] == "shape" for x in alts(v)):
                    loopev[nk] = "counter"
                else:
                    loopev[nk] = "handle"
    for nk, c in calls(fl, "add"):
        for e in exts:
            base = _items_base(fl.term(e, e[1].d["iter"]))
            if c.args and c.args[0] in (("key", base), ("elem", base)):
                loopev[nk] = "known"
    rep.check("R9", bool(exts) and set(loopev.values()) == {"counter", "handle", "known"}, where, "extend-streams", "an extended file does not start from all its existing streams (handle, number of frames, known streams)", line)

    def hook(nk, st, atom, val):
        e, ok_ex, done, copied, seen, has_t, lst = st
        if atom == ext:
            if e is not None and e != val:
                return None
            e = val
        x = atom
        if is_call_to(x, "exists") and any(y == fn for y in subterms(x)):
            ok_ex = val
        if x[0] == "cmp" and x[1] == "In" and x[2] == ("c", "targets/data"):
            has_t = val
        return (e, ok_ex, done, copied, seen, has_t, lst)

    def step(nk, st, lab):
        e, ok_ex, done, copied, seen, has_t, lst = st
        if lab != "exc":
            if nk in ev:
                done = done | {ev[nk]}
            if nk in copies:
                copied = True
            if nk in exts:
                if lab == "iter":
                    lst = frozenset()
                    seen = True
                elif lab == "done":
                    seen = True
                if lst is not None and nk in exts and lab in ("done", "iter") and False:
                    pass
        if nk in opens:
            if e is True and not copied:
                bad.setdefault("extend-copy", (nk, "an existing file is to be extended but not copied before it is opened"))
            if e is False and ok_ex is not False:
                bad.setdefault("overwrite", (nk, "the writer can be started although the target file exists"))
        return (e, ok_ex, done, copied, seen, has_t, lst)

    def end(nk, st, kind):
        if kind != "exit":
            return
        e, ok_ex, done, copied, seen, has_t, lst = st
        if e is not True:
            for x in sorted(req - done):
                bad.setdefault("missing-" + x.strip("@"), (nk, f"a new file can be started without {x.replace('@', 'attribute ')}"))
        elif not seen and has_t is not False:
            bad.setdefault("extend-read", (nk, "a file can be extended without reading its existing streams"))

    n = fl.simulate((None, None, frozenset(), False, False, None, None), step, on_end=end, cond_hook=hook)
    rep.flow(fl, n)
    for x in sorted(req):
        y = bad.get("missing-" + x.strip("@"))
        rep.check("R1", y is None, where, "missing-" + x.strip("@"), y[1] if y else "", line)
    for k, r in (("extend-copy", "R7"), ("overwrite", "R7"), ("extend-read", "R9")):
        y = bad.get(k)
        rep.check(r, y is None, where, k, y[1] if y else "", y[0][1].line if y else 0)
    # open mode and file
    tmp = [fl.term(nk, nk[1].d["value"]) for nk in fl.env if nk[1].kind == "assign" and nk[1].d["target"][0] == "a" and nk[1].d["target"][2] == "tmp_filename"]
    for nk, c in calls(fl, "File"):
        a = c.arg(0, "name")
        rep.check("R7", a is not None and a != fn and fn not in alts(a), where, "open-target", "the target file itself is opened for writing", c.line)


def fpath_items(t):
    return fpath(_items_base(t))


def _items_base(t):
    if t[0] == "call" and t[1][0] == "m" and t[1][2] in ("items", "keys"):
        return t[1][1]
    return t


def _close(p, rep, R):
    fl = R.flow(R.close, R.w)
    rep.analysed(R.close)
    where = R.close.where
    line = R.close.node.lineno
    S = ("self", R.w.full)
    A = lambda n: ("attr", S, n)
    ev = {}
    interm = set()
    for nk, c in fl.calls.items():
        if nk not in fl.env or nk in fl.inlined:
            continue
        if c.name == "close" and c.recv is not None and A("_file") in alts(c.recv):
            ev[nk] = "closed"
        elif c.name in ("copyfile", "copy", "copy2", "move", "rename", "replace", "link") and len(c.args) >= 2:
            src, dst = c.args[0], c.args[1]
            if dst == A("filename"):
                ev[nk] = ("place", src, c.name)
            elif src == A("tmp_filename"):
                ev[nk] = ("stage", dst, c.name)
        elif c.name in ("remove", "unlink") and c.args:
            ev[nk] = ("remove", c.args[0])
    have = {e if isinstance(e, str) else e[0] for e in ev.values()}
    rep.check("R7", "closed" in have, where, "no-close", "the HDF file is not closed", line)
    rep.check("R7", "place" in have, where, "no-place", "the file is not moved to its final name", line)
    bad = {}

    def hook(nk, st, atom, val):
        closed, staged, placed, ext, noex, tmp = st
        t = atom
        if t == A("_file") or (t[0] == "cmp" and t[2] == A("_file")):
            if (t == A("_file") and not val) or (t[0] == "cmp" and t[1] == "Is" and t[3] == ("c", None) and val):
                closed = True
        if t == A("tmp_filename") and not val:
            tmp = False
        if t[0] == "cmp" and t[1] == "Is" and A("tmp_filename") in t[2:4] and ("c", None) in t[2:4] and val:
            tmp = False
        if t == A("extend_existing_file"):
            ext = val
        if is_call_to(t, "exists") and any(y == A("filename") for y in subterms(t)):
            noex = not val
        return (closed, staged, placed, ext, noex, tmp)

    def step(nk, st, lab):
        closed, staged, placed, ext, noex, tmp = st
        e = ev.get(nk)
        if e and lab != "exc":
            if e == "closed":
                closed = True
            elif e[0] in ("stage", "place"):
                if not closed:
                    bad.setdefault("copy-open", (nk, "the file is copied before it is closed"))
                if e[0] == "stage":
                    staged = e[1]
                else:
                    if ext is not True and not noex:
                        bad.setdefault("overwrite", (nk, "an existing file can be overwritten"))
                    if e[1] != A("tmp_filename") and e[1] != staged:
                        bad.setdefault("place-source", (nk, f"what is moved into place is {fmt(e[1])}"))
                    if e[2] in ("copyfile", "copy", "copy2"):
                        bad.setdefault("place-copy", (nk, "the final file is written in place, so a crash leaves a partial file"))
                    placed = True
            elif e[0] == "remove":
                if e[1] == A("filename"):
                    bad.setdefault("remove-final", (nk, "the final file is removed"))
                if not placed:
                    bad.setdefault("remove-early", (nk, "the temporary file is removed before its content is in place"))
        return (closed, staged, placed, ext, noex, tmp)

    def end(nk, st, kind):
        closed, staged, placed, ext, noex, tmp = st
        if kind == "exit" and tmp is not False and not placed:
            bad.setdefault("not-placed", (nk, "closing can end without the file at its final name"))
        if kind == "exit" and not closed:
            bad.setdefault("not-closed", (nk, "closing can end with the file still open"))

    n = fl.simulate((False, None, False, None, None, None), step, on_end=end, cond_hook=hook)
    rep.flow(fl, n)
    for k in ("copy-open", "overwrite", "place-source", "place-copy", "remove-final", "remove-early", "not-placed", "not-closed"):
        x = bad.get(k)
        rep.check("R7", x is None, where, k, x[1] if x else "", x[0][1].line if x else 0)


# ------------------------------------------------------------------ copying a dataset


def _dump(p, rep, R):
    fl = R.flow(R.dump, R.dw)
    rep.analysed(R.dump)
    where = R.dump.where
    line = R.dump.node.lineno
    pid = f"{MOD}:{R.dump.qualname}"
    DS = ("param", pid, "dataset")
    M = lambda n: lambda t: t[0] == "call" and t[1] == ("m", DS, n)
    st = stores(fl)
    # maps key -> stored name
    maps = set()
    data = {}
    ev = {}
    for nk, c in calls(fl, "create_dataset"):
        fp = fpath(c.recv)
        k = c.arg(0, "name")
        if fp == {"targets/data"}:
            ev[nk] = "data"
            data[nk] = k
        elif fp == {"targets/labels"}:
            ev[nk] = "labels"
            data[nk] = k
        elif fp == {""}:
            ev[nk] = _name(k)
    sizes = {}
    for nk, b, i, v in st:
        if fpath(b) == {"targets/size@"}:
            ev[nk] = "size"
            data[nk] = i
            kk = _orig_key(i)
            ok = v[0] == "sub" and v[1] == ("attr", DS, "num_outputs") and v[2] == kk
            rep.check("R2", ok, where, "dump-size", f"the size entry of {fmt(i)[:80]} is {fmt(v)[:80]}", nk[1].line)
    have = set(ev.values())
    for n in ("data", "labels", "size", "inputs", "seqTags", "seqLengths"):
        rep.check("R1" if n.startswith("seq") else "R2", n in have, where, f"dump-no-{n}", f"the copied file gets no {n}", line)
    ks = {}
    for nk, k in data.items():
        ks.setdefault(k, set()).add(ev[nk])
    main = max(ks, key=lambda k: len(ks[k]), default=None)
    for nk, k in data.items():
        rep.check("R2", k == main, where, f"dump-key-{ev[nk]}", f"the {ev[nk]} entry is written under {fmt(k)[:80]} instead of {fmt(main)[:80]}", nk[1].line)
    mapping = main[1] if main is not None and main[0] == "sub" else None
    # lengths row
    for nk, b, i, v in st:
        fp = fpath(b)
        if fp == {"seqLengths"}:
            ok_i = i[0] == "idx" or i[0] == "elem"
            comps = [x for x in subterms(v) if x[0] == "call" and x[1] == ("ext", "sorted")]
            byname = [x for x in comps if _sorts_by(x, mapping, fl, nk)]
            # the sequence which the comprehension of the row iterates over
            its = [
                fl.term(k2, k2[1].d["iter"])
                for k2 in fl.env
                if k2[1].kind == "iter" and k2[1].line <= nk[1].line and _feeds(fl, k2, nk)
            ]
            order = [t for t in its if not is_call_to(t, "enumerate", "zip", "range")]
            inner = [y[2][1] for x in subterms(v) if x[0] == "comp" for e in x[2] for y in alts(e) if y[0] == "sub" and y[2][0] == "elem"]
            if inner and not any(t[0] in ("deep", "top") for t in inner):
                order = inner
            ok = bool(order) and all(_sorts_by(t, mapping, fl, nk) for t in order)
            rep.check("R3", ok, where, "dump-columns", f"the lengths of the copied file are ordered by {[fmt(t)[:120] for t in order]}, not by the sorted stored name", nk[1].line)
            src = [x for x in deep_subterms(fl, i) if M("get_seq_length")(x)]
            rep.check("R8", i[0] == "idx" and bool(src), where, "dump-length-row", f"the lengths are stored in row {fmt(i)[:100]}", nk[1].line)
        elif fp == {"seqTags"}:
            src = [x for x in deep_subterms(fl, i) if M("get_tag")(x)]
            els = [x for x in subterms(v) if x[0] == "elem"]
            rep.check("R8", i[0] == "idx" and bool(src) and any(sim(("elem", i[1]), x) for x in els), where, "dump-tag-row", f"tag {fmt(v)[:80]} is stored in row {fmt(i)[:80]}", nk[1].line)
    _tag_width(rep, fl, where, M)
    _first_pass(rep, fl, where, M, DS)
    _second_pass(rep, fl, where, M, DS, mapping, st)
    _triple_paths(rep, fl, where, ev)


def _orig_key(t):
    return t[2] if t[0] == "sub" else t


def _sorts_by(t, mapping, fl, nk):
    """sorted(..., key=mapping.get) (or the keys are not renamed at all)"""
    if not (t[0] == "call" and t[1] == ("ext", "sorted")):
        return False
    kw = dict(t[3])
    if set(kw) - {"key"}:
        return False
    k = kw.get("key")
    if mapping is None:
        return k is None
    if k is None:
        # sorting the stored names themselves
        return any(sim(x, mapping) for x in subterms(t[2][0])) and not any(x[0] == "comp" and x[1] == "list" for x in [t[2][0]])
    if k[0] == "attr" and k[2] in ("get", "__getitem__"):
        return sim(k[1], mapping)
    if k[0] == "lam":
        return _lam_map(fl, nk, k, mapping)
    return any(sim(x, mapping) for x in subterms(k))


def _lam_map(fl, nk, k, mapping):
    """``lambda key: mapping[key]``"""
    import ast

    for n in ast.walk(nk[0].func.node):
        if isinstance(n, ast.Lambda) and id(n) == k[1] and n.args.args:
            b, arg = n.body, n.args.args[0].arg
            if isinstance(b, ast.Subscript):
                m, a = b.value, b.slice
            elif isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr == "get" and b.args:
                m, a = b.func.value, b.args[0]
            else:
                return False
            return isinstance(a, ast.Name) and a.id == arg and isinstance(m, ast.Name) and sim(fl.term(nk, ("n", m.id)), mapping)
    return False


def _feeds(fl, it, nk):
    """loop nodes of comprehensions between the enclosing row loop and the store"""
    return _iter_in_row(fl, it, nk)


def _iter_in_row(fl, it, nk):
    rows = [k for k in fl.env if k[1].kind == "iter" and is_call_to(fl.term(k, k[1].d["iter"]), "enumerate", "zip") and k[1].line < nk[1].line]
    if not rows:
        return False
    row = max(rows, key=lambda k: k[1].line)
    return row[1].line < it[1].line <= nk[1].line


def _tag_width(rep, fl, where, M):
    for nk, c in calls(fl, "create_dataset"):
        if fpath(c.recv) == {""} and _name(c.arg(0, "name")) == "seqTags":
            dt = c.kwargs.get("dtype")
            if dt is None:
                continue
            ok = not _raw_len(dt, M)
            mx = [x for x in subterms(dt) if is_call_to(x, "max")]
            if ok and any(M("get_tag")(x) for x in subterms(dt)):
                ok = any(
                    len(x[2]) == 1 or any(y[0] in ("top", "deep") or is_call_to(y, "max") for a in x[2] for y in subterms(a)) for x in mx
                )
            for x in subterms(dt):
                if x[0] == "lin" and x[1] < 0:
                    ok = False
            rep.check("R8", ok, where, "dump-tag-width", "the width of the tags is not the maximum over all tags", c.line)


def _raw_len(t, M):
    """len of a tag outside of a maximum"""
    if isinstance(t, frozenset):
        return any(_raw_len(x, M) for x in t)
    if not isinstance(t, tuple) or not t:
        return False
    if is_call_to(t, "max"):
        return False
    if is_call_to(t, "len") and any(M("get_tag")(x) for x in subterms(t)):
        return True
    return any(_raw_len(x, M) for x in t if isinstance(x, (tuple, frozenset)))


def _first_pass(rep, fl, where, M, DS):
    """each counted sequence adds exactly one index, one length, one tag; and advances by one"""
    ev = {}
    for nk in fl.env:
        n = nk[1]
        if n.kind == "call" and nk in fl.calls and nk not in fl.inlined:
            c = fl.calls[nk]
            if c.recv == DS and c.name == "is_less_than_num_seqs":
                ev[nk] = "head"
            if c.name == "append" and c.recv is not None and c.args:
                k = _kind_of(c.args[0], M)
                if k:
                    ev[nk] = k
        if n.kind == "assign" and n.d["target"][0] == "n":
            e = n.d["value"]
            if e[0] == "b" and e[1] == "Add" and e[2] == n.d["target"]:
                t = fl.term(nk, e[3])
                if t[0] == "list" and len(t[1]) == 1:
                    k = _kind_of(t[1][0], M)
                    if k:
                        ev[nk] = k
                elif e[3] == ("c", 1):
                    ev[nk] = "next"
    if not {"head", "len", "tag", "idx", "next"} <= set(ev.values()):
        return  # another form of loop; the second pass asserts equal tags and total lengths
    bad = {}

    def step(nk, st, lab):
        e = ev.get(nk)
        if e is None or lab == "exc":
            return st
        if e == "head":
            if st is not None and st != () and dict(st) != {"len": 1, "tag": 1, "idx": 1, "next": 1}:
                d = dict(st)
                x = [n for n in ("len", "tag", "idx", "next") if d.get(n, 0) != 1]
                bad.setdefault("first", (nk, f"for one sequence, {x} is recorded {d.get(x[0], 0)} times"))
            return ()
        d = dict(st or ())
        if e == "idx" and d.get("next"):
            bad.setdefault("order", (nk, "the index is recorded after it was advanced"))
        d[e] = min(d.get(e, 0) + 1, 2)
        return tuple(sorted(d.items()))

    n = fl.simulate(None, lambda nk, st, lab: step(nk, st if st is not None else (), lab), correlate=False)
    rep.flow(fl, n)
    for k in ("first", "order"):
        x = bad.get(k)
        rep.check("R8", x is None, where, f"dump-{k}", x[1] if x else "", x[0][1].line if x else 0)


def _kind_of(t, M):
    if all(M("get_seq_length")(x) for x in alts(t)):
        return "len"
    if all(M("get_tag")(x) for x in alts(t)):
        return "tag"
    if any(x[0] == "param" and x[2] == "start_seq" for x in subterms(t)) and not any(x[0] == "call" for x in subterms(t)):
        return "idx"
    return None


def _second_pass(rep, fl, where, M, DS, mapping, st):
    line = fl.entry.node.lineno
    cand = [s for s in st if any(M("get_data")(x) for x in alts(s[3])) and s[2][0] == "slice"]
    rep.check("R8", bool(cand), where, "dump-no-data", "the data of the dataset is not stored", line)
    if not cand:
        return
    ev = {}
    for nk, b, i, v in cand:
        ev[nk] = "store"
        gd = [x for x in alts(v)][0]
        seq, key = (list(gd[2]) + [dict(gd[3]).get("key")])[:2] if len(gd[2]) >= 1 else (None, None)
        fps = fpath(b)
        rep.check("R8", fps == {"inputs", "targets/data/*"}, where, "dump-target", f"the data is stored into {sorted(fps)}", nk[1].line)
        for x in alts(b):
            if "targets/data/*" in fpath(x):
                kk = _last_key(x)
                rep.check("R8", mapping is None or (kk[0] == "sub" and sim(kk[1], mapping) and sim(kk[2], key)), where, "dump-stream", f"the data of {fmt(key)[:60]} is stored into stream {fmt(kk)[:60]}", nk[1].line)
        d = None
        lo, hi = i[1], i[2]
        k, parts = lin_parts(hi)
        rest = [x for x in parts if not sim(x, lo)]
        ok = False
        if k == 0 and len(parts) == 2 and len(rest) == 1 and parts[rest[0]] == 1:
            r = rest[0]
            ok = all(x[0] == "sub" and M("get_seq_length")(x[1]) and sim(x[1][2][0], seq) and sim(x[2], key) for x in alts(r)) or is_len(fl, nk, r, v)
        elif hi != ("c", None) and k == 0 and len(parts) == 2:
            ok = any(x[0] == "sub" and M("get_seq_length")(x[1]) for x in parts)
        rep.check("R8", ok, where, "dump-range", f"the data of one sequence is stored at {fmt(i)[:160]}", nk[1].line)
        okl = all(x[0] in ("sub", "top") and sim(x[2], key) if x[0] == "sub" else True for x in alts(lo))
        rep.check("R8", okl, where, "dump-offset-key", "the offset is the one of another key", nk[1].line)
        off_e = nk[1].d["target"][2]
        off_e = off_e[1] if off_e[0] == "slice" else None
        var = off_e[1] if off_e is not None and off_e[0] == "sub" and off_e[1][0] == "n" else None
        if var is None:
            continue
        for nk2 in fl.env:
            n2 = nk2[1]
            if n2.kind == "assign" and n2.d["target"] == var:
                e = n2.d["value"]
                if e[0] == "b" and e[1] == "Add" and var in (e[2], e[3]):
                    o = e[3] if e[2] == var else e[2]
                    t = fl.term(nk2, o)
                    rep.check("R8", all(M("get_seq_length")(x) and sim(x[2][0], seq) for x in alts(t)), where, "dump-advance", f"the offsets are advanced by {fmt(t)[:100]}", n2.line)
                    ev[nk2] = "advance"
                elif n2.line > 0 and fl.term(nk2, e)[0] == "call":
                    pass
                else:
                    rep.bad("R8", where, "dump-advance", f"the offsets are set to {fmt(fl.term(nk2, e))[:100]}", n2.line)
        inner = [k2 for k2 in fl.env if k2[1].kind == "iter" and sim(fl.elem(fl.term(k2, k2[1].d["iter"])), key) and k2[1].line <= nk[1].line]
        inner = [max(inner, key=lambda k2: k2[1].line)] if inner else []
        seq_elem = seq
        outer = [k2 for k2 in fl.env if k2[1].kind == "iter" and k2[1].line < nk[1].line and is_call_to(fl.term(k2, k2[1].d["iter"]), "zip", "enumerate")]
        outer = [max(outer, key=lambda k2: k2[1].line)] if outer else []
        if not inner or not outer:
            rep.bad("R8", where, "dump-loops", "no loop over all sequences and all keys around the store", nk[1].line)
            continue
        bad = {}

        def step(nk2, s, lab):
            seen, adv, cnt = s
            e = ev.get(nk2)
            if e == "store" and lab != "exc":
                if adv:
                    bad.setdefault("late", (nk2, "data is stored after the offsets were advanced to the next sequence"))
                cnt = min(cnt + 1, 2) if cnt >= 0 else cnt
            elif e == "advance":
                adv = min(adv + 1, 2)
            if nk2 in inner and lab in ("iter", "done"):
                if cnt >= 0 and cnt != 1:
                    bad.setdefault("key-once", (nk2, f"the data of one key is stored {cnt} times"))
                cnt = 0 if lab == "iter" else -2
            if nk2 in outer and lab in ("iter", "done"):
                if seen:
                    if adv != 1:
                        bad.setdefault("advance-once", (nk2, f"the offsets are advanced {adv} times for one sequence"))
                    if cnt != -2:
                        bad.setdefault("all-keys", (nk2, "the keys of one sequence are not all stored"))
                seen, adv, cnt = lab == "iter", 0, -1
            return (seen, adv, cnt)

        n = fl.simulate((False, 0, -1), step, correlate=False)
        rep.flow(fl, n)
        for kk in ("late", "key-once", "advance-once", "all-keys"):
            x = bad.get(kk)
            rep.check("R8", x is None, where, f"dump-{kk}", x[1] if x else "", x[0][1].line if x else 0)
    # both passes over the same order
    inits = [c for nk, c in calls(fl, "init_seq_order") if c.recv == DS]
    args = {(tuple(c.args), tuple(sorted(c.kwargs.items()))) for c in inits}
    rep.check("R8", len(args) == 1, where, "dump-epoch", "the two passes over the dataset use different orders", line)


def _triple_paths(rep, fl, where, ev):
    cand = [nk for nk, e in ev.items() if e == "data"]
    if not cand:
        return
    its = [k for k in fl.env if k[1].kind == "iter" and k[1].line <= cand[0][1].line and not k[1].d.get("comp")]
    if not its:
        return
    it = max(its, key=lambda k: k[1].line)
    bad = {}

    def step(nk, st, lab):
        if st == "end":
            return None
        s, conds = st
        n = nk[1]
        if n.kind == "branch" and lab in ("T", "F"):
            # correlate equal conditions on unchanged locals within one iteration
            e, val = n.d["cond"], lab == "T"
            while e[0] == "not":
                e, val = e[1], not val
            if e[0] == "cmp" and e[1] in ("NotEq", "IsNot", "NotIn"):
                e, val = ("cmp", {"NotEq": "Eq", "IsNot": "Is", "NotIn": "In"}[e[1]]) + tuple(e[2:]), not val
            d = dict(conds)
            if d.get(e, val) != val:
                return None
            d[e] = val
            conds = tuple(sorted(d.items(), key=repr))
        elif n.kind == "assign":
            conds = tuple(x for x in conds if not _mentions(x[0], n.d["target"]))
        if nk == it and lab in ("iter", "done"):
            conds = ()
            if s is not None and s and s != frozenset({"data", "size", "labels"}) and s != frozenset({"inputs"}):
                bad.setdefault("t", (nk, f"for one key, only {sorted(s)} is written"))
            if s is not None and not s:
                bad.setdefault("t", (nk, "for one key, nothing is written"))
            return (frozenset(), conds) if lab == "iter" else "end"
        e = ev.get(nk)
        if e in ("data", "size", "labels", "inputs") and lab != "exc" and s is not None:
            s = s | {e}
        return (s, conds)

    # start at the loop: state is only meaningful from there on
    n = fl.simulate((None, ()), step, start=it)
    rep.flow(fl, n)
    x = bad.get("t")
    rep.check("R2", x is None, where, "dump-triple", x[1] if x else "", x[0][1].line if x else 0)


def _mentions(e, x):
    return e == x or (isinstance(e, tuple) and any(_mentions(y, x) for y in e))


# ------------------------------------------------------------------ reader


def _reader_add(p, rep, R):
    fl = R.flow(R.add, R.r)
    rep.analysed(R.add)
    where = R.add.where
    line = R.add.node.lineno
    S = ("self", R.r.full)
    ev = {}
    lists = ("files", "h5_files", "cached_h5_datasets", "file_seq_start", "file_start")
    starts = None
    for nk, c in calls(fl, "append"):
        for a in lists:
            if c.recv is not None and ("attr", S, a) in alts(c.recv):
                ev[nk] = a
                if a == "file_start":
                    t = c.args[0]
                    k, d = lin_parts(t)
                    last = ("sub", ("attr", S, "file_start"), ("c", -1))
                    rest = [x for x in d if x != last]
                    ok = d.get(last) == 1 and len(rest) == 1 and d[rest[0]] == 1
                    if ok:
                        n = rest[0]
                        from_start = any(is_call_to(x, "zeros") for x in subterms(n))
                        from_len = n[0] in ("sub", "phi") and any(y[0] == "attr" and y[2] == "shape" for y in subterms(n))
                        ok = (from_start and k == -1) or (not from_start and (from_len or is_call_to(n, "len")) and k == 0)
                    rep.check("R6", ok, where, "file-start", f"the first sequence of the next file is {fmt(t)[:150]}", c.line)
                if a == "h5_files":
                    rep.check("R6", fpath(c.args[0]) == {""}, where, "h5-files", "the file handle is not the opened file", c.line)
    for a in lists:
        rep.check("R6", a in ev.values(), where, f"no-{a}", f"{a} is not extended for a new file", line)
    once(rep, "R6", fl, where, ev, "add-file")
    # target keys are sorted
    for nk in fl.env:
        n = nk[1]
        if n.kind == "assign" and n.d["target"][0] == "a" and n.d["target"][2] == "target_keys":
            t = fl.term(nk, n.d["value"])
            for x in alts(t):
                ok = (
                    (x[0] == "call" and x[1] == ("ext", "sorted") and not x[3])
                    or (x[0] == "list" and len(x[1]) == 1)
                    or x == ("attr", S, "target_keys")
                    or x == ("c", None)
                    or (x[0] == "sub" and x[1] == ("attr", S, "target_keys"))
                )
                rep.check("R3", ok, where, "target-keys", f"the reader orders the streams as {fmt(x)[:120]}", n.line)
                if x[0] == "call" and ok:
                    fps = {y for z in subterms(x) for y in _fpath1(z)}
                    rep.check("R3", "targets/data" in fps, where, "target-keys-src", "the streams of a file are not taken from targets/data", n.line)
    # accumulated lengths
    cs = calls(fl, "cumsum")
    for nk, c in cs:
        a = c.args[0] if c.args else c.kwargs.get("a")
        out = c.kwargs.get("out")
        ok = any("seqLengths" in _fpath1(x) for x in subterms(a)) and c.arg(1, "axis") == ("c", 0)
        if out is not None:
            ok = ok and out[0] == "sub" and out[2] == ("slice", ("c", 1), ("c", None), ("c", None))
        rep.check("R6", ok, where, "cumsum", "the sequence starts are not the accumulated lengths starting at 0", c.line)
    rep.check("R6", bool(cs) or any(is_call_to(x, "accumulate") for nk in fl.env for x in ()), where, "no-cumsum", "the sequence starts are not accumulated from the lengths", line)
    # selected columns
    seen_sel = 0
    for nk in fl.env:
        n = nk[1]
        if n.kind != "assign":
            continue
        e = n.d["value"]
        if e[0] == "sub" and n.d["target"][0] == "n":
            b, i = fl.term(nk, e[1]), fl.term(nk, e[2])
            if any("seqLengths" in _fpath1(x) for x in subterms(b)) and i[0] == "tup" and len(i[1]) == 2 and i[1][1][0] != "c" and i[1][0][0] == "slice":
                seen_sel += 1
                sel = i[1][1]
                idx = [x for x in subterms(sel) if x[0] == "call" and x[1][0] == "m" and x[1][2] == "index"]
                rng = [x for x in subterms(sel) if is_call_to(x, "range")]
                ok = False
                for x in subterms(sel):
                    k, d = lin_parts(x) if x[0] == "lin" else (None, {})
                    if k == 0 and len(d) == 2 and any(y in idx for y in d):
                        off = [y for y in d if y not in idx][0]
                        ok = any(r[2][-1] == off for r in rng)
                        if not rng:
                            ok = False
                rep.check("R3", ok, where, "select-columns", f"when a file has more streams, the columns are selected as {fmt(sel)[:150]}", n.line)
    # input/targets offset
    okn = False
    for nk in fl.env:
        n = nk[1]
        if n.kind == "raise" and n.d.get("is_assert"):
            okn = True
    rep.ok("R3", f"{where}: {seen_sel} column selection(s)")


def _reader_pos(p, rep, R):
    S = ("self", R.r.full)
    A = lambda n: ("attr", S, n)
    # file index
    fl = R.flow(R.fidx, R.r)
    rep.analysed(R.fidx)
    for nk, t in return_terms(fl):
        k, d = lin_parts(t)
        c = list(d)
        ok = k == -1 and len(c) == 1 and is_call_to(c[0], "bisect", "bisect_right") and c[0][2][0] == A("file_start") and c[0][2][1][0] == "param"
        rep.check("R6", ok, R.fidx.where, "file-index", f"the file of a sequence is {fmt(t)}", nk[1].line)
    for f, what in ((R.getd, "data"), (R.gett, "tag"), (R.getl, "length")):
        fl = R.flow(f, R.r)
        rep.analysed(f)
        where = f.where
        pid = f"{MOD}:{f.qualname}"
        prm = [x for x in f.node.args.args if x.arg != "self"][0].arg
        real = ("param", pid, prm)
        fidx = lambda t: t[0] == "call" and any(g in str(t[1]) for g in (R.fidx.name,)) and real in t[2]

        def is_row(t, plus):
            k, d = lin_parts(t)
            if k != plus or len(d) != 2 or d.get(real) != 1:
                return False
            o = [x for x in d if x != real][0]
            return d[o] == -1 and o[0] == "sub" and o[1] == A("file_start") and fidx(o[2])

        def is_pos(t, plus):
            return t[0] == "sub" and t[1][0] == "sub" and t[1][1] == A("file_seq_start") and fidx(t[1][2]) and is_row(t[2], plus)

        if what == "length":
            for nk, t in return_terms(fl):
                k, d = lin_parts(t)
                ok = k == 0 and len(d) == 2 and all(is_pos(x, 1 if v == 1 else 0) for x, v in d.items())
                rep.check("R6", ok, where, "length", f"the length of a sequence is {fmt(t)[:150]}", nk[1].line)
            continue
        if what == "tag":
            for nk, t in return_terms(fl):
                cand = [x for x in subterms(t) if x[0] == "sub" and is_row(x[2], 0)]
                ok = any(_tags_ds(x[1], fidx, A) for x in cand)
                rep.check("R6", ok, where, "tag", f"the tag of a sequence is {fmt(t)[:150]}", nk[1].line)
            continue
        # data: slices [start[c]:end[c]]
        sl = {}
        for nk in fl.env:
            n = nk[1]
            es = [n.d[k] for k in ("value",) if n.kind in ("assign", "return") and k in n.d and n.d[k] is not None]
            for e in es:
                if e[0] == "sub" and e[2][0] == "slice":
                    b, i = fl.term(nk, e[1]), fl.term(nk, e[2])
                    if not any(x[0] == "sub" and x[1][0] == "sub" and x[1][1] == A("file_seq_start") for x in subterms(i)):
                        continue
                    sl[nk] = (b, i, e)
        rep.check("R6", len(sl) >= 2, where, "data-slices", "the data is not cut out by the accumulated lengths", f.node.lineno)
        kinds = {}
        for nk, (b, i, e) in sl.items():
            lo, hi = i[1], i[2]
            ok = all(x[0] == "sub" and is_pos(x[1], 0) for x in alts(lo)) and all(x[0] == "sub" and is_pos(x[1], 1) for x in alts(hi)) and {x[2] for x in alts(lo)} == {x[2] for x in alts(hi)}
            rep.check("R6", ok, where, "data-range", f"the data of a sequence is {fmt(i)[:200]}", nk[1].line)
            cols = {x[2] for x in alts(lo) if x[0] == "sub"}
            isin = cols == {("c", 0)}
            names = {x[2][1] for y in alts(b) for x in subterms(y) if x[0] == "sub" and x[2][0] == "c" and isinstance(x[2][1], str)}
            kinds[nk] = "inputs" if "inputs" in names else "targets"
            rep.check("R6", (kinds[nk] == "inputs") == isin, where, "data-column", f"the data of {kinds[nk]} is read by column {[fmt(c)[:80] for c in cols]}", nk[1].line)
        # path-sensitive column offset and branch
        bad = {}

        def ev(e, env, nk):
            if e[0] == "c":
                return e[1] if isinstance(e[1], int) and not isinstance(e[1], bool) else None
            if e in env:
                return env[e]
            if e[0] == "b" and e[1] == "Add":
                a, b = ev(e[2], env, nk), ev(e[3], env, nk)
                return None if a is None or b is None else a + b
            if e[0] == "b" and e[1] == "Sub":
                a, b = ev(e[2], env, nk), ev(e[3], env, nk)
                return None if a is None or b is None else a - b
            if e[0] == "call" and e[1] == "int":
                return None
            t = fl.term(nk, e)
            if t[0] == "call" and t[1][0] == "m" and t[1][2] == "index" and t[1][1] == A("target_keys") and t[2] and t[2][0] == ("param", pid, "key"):
                return 0
            if t == ("call", ("ext", "int"), (("cmp", "Gt", A("num_inputs"), ("c", 0)),), ()):
                return "ni"
            return None

        def hook(nk, st, atom, val):
            ni, kd, env = st
            if atom[0] == "cmp" and A("num_inputs") in list(subterms(atom)):
                x = val
                if atom[1] in ("Eq", "LtE") or (atom[1] == "Lt" and atom[2] == A("num_inputs")):
                    x = not val
                if atom[1] in ("Gt", "Lt", "Eq", "NotEq", "LtE", "GtE"):
                    ni = x
            if atom == A("num_inputs"):
                ni = val
            if atom[0] == "cmp" and atom[1] == "Eq" and ("param", pid, "key") in atom[2:4] and ("c", "data") in atom[2:4]:
                kd = val
            return (ni, kd, env)

        def step(nk, st, lab):
            ni, kd, env = st
            n = nk[1]
            if nk in kinds:
                e = sl[nk][2][2]
                if kinds[nk] == "targets":
                    lo = e[1]
                    v = ev(lo[2], dict(env), nk) if lo[0] == "sub" else None
                    want = {True: 1, False: 0}.get(ni)
                    if v is None:
                        pass
                    elif v == "ni":
                        pass
                    elif want is None or v != want:
                        bad.setdefault("offset", (nk, f"the column offset of the streams is {v} when the file has {'' if ni else 'no '}inputs"))
                    if kd is True and ni is not False:
                        bad.setdefault("branch", (nk, "the inputs are read from a stream"))
                elif not (kd is True and ni is True):
                    bad.setdefault("branch", (nk, "the inputs are read for another key"))
            if n.kind == "assign" and n.d["target"][0] in ("n", "t"):
                d = dict(env)
                v = ev(n.d["value"], d, nk)
                if v is None:
                    d.pop(n.d["target"], None)
                else:
                    d[n.d["target"]] = v
                env = tuple(sorted(d.items(), key=repr))
            elif n.kind == "call" and n.d.get("dest") is not None and nk in fl.calls:
                c = fl.calls[nk]
                if c.name == "index" and c.recv == A("target_keys") and c.args and c.args[0] == ("param", pid, "key"):
                    d = dict(env)
                    d[("t", n.d["dest"])] = 0
                    env = tuple(sorted(d.items(), key=repr))
            return (ni, kd, env)

        n = fl.simulate((None, None, ()), step, cond_hook=hook)
        rep.flow(fl, n)
        for k in ("offset", "branch"):
            x = bad.get(k)
            rep.check("R6", x is None, where, f"data-{k}", x[1] if x else "", x[0][1].line if x else 0)
    # all tags: all files, in order
    f = p.find_method(R.r, "get_all_tags")
    if f is not None:
        fl = R.flow(f, R.r)
        its = [fl.term(nk, nk[1].d["iter"]) for nk in fl.env if nk[1].kind == "iter"]
        ok = any(t == A("h5_files") for t in its)
        rep.check("R6", ok, f.where, "all-tags", "the list of all tags does not go over all files in order", f.node.lineno)


def _tags_ds(t, fidx, A):
    for x in alts(t):
        if x[0] == "sub" and x[2][0] == "c":
            b = x[1]
            if b[0] == "sub" and b[1] in (A("cached_h5_datasets"), A("h5_files")) and fidx(b[2]):
                return x[2][1] in ("#seqTags", "seqTags")
    return False


# ------------------------------------------------------------------ schema


def _reads(p, R):
    """(path template, guards, where, line) of everything the reader reads from a file"""
    res = []
    for name, f in sorted(R.r.methods.items()):
        if "h5" not in "".join(x for x in _names(f)) and f is not R.add:
            continue
        fl = R.flow(f, R.r)
        got = {}

        def exprs(n):
            for k, v in n.d.items():
                if isinstance(v, tuple):
                    yield v

        cur = {}

        def hook(nk, st, atom, val):
            if atom[0] == "cmp" and atom[1] == "In" and atom[2][0] == "c" and fpath(atom[3]) == {""}:
                return st | {(atom[2][1], val)}
            return st

        def step(nk, st, lab):
            n = nk[1]
            if n.kind in ("assign", "call", "branch", "iter", "return", "compadd"):
                for e in _subs(n.d):
                    t = fl.term(nk, e)
                    if t[0] == "sub":
                        for x in fpath(t):
                            if x and not (n.kind == "branch" and False):
                                got.setdefault((x, nk[1].line), []).append(st)
            return st

        fl.simulate(frozenset(), step, cond_hook=hook)
        for (x, line), sts in got.items():
            g = frozenset.intersection(*sts)
            res.append((x, {a for a, v in g if v}, f.where, line))
    return res


def _subs(d):
    todo = list(d.values())
    while todo:
        e = todo.pop()
        if isinstance(e, tuple):
            if e and e[0] == "sub":
                yield e
            todo.extend(e)


def _names(f):
    import ast

    return [n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)] + [n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)]


def _writes(p, R, cls, funcs):
    res = set()
    for f in funcs:
        fl = R.flow(f, cls)
        for nk, b, i, v in stores(fl):
            for x in fpath(b):
                if x.endswith("@"):
                    res.add(_join(x, _name(i)))
        for nk, c in fl.calls.items():
            if nk not in fl.env or nk in fl.inlined:
                continue
            if c.name in ("create_dataset", "create_group", "require_group", "require_dataset") and c.recv is not None:
                a = c.arg(0, "name")
                for x in fpath(c.recv):
                    if a is not None:
                        res.add(_join(x, _name(a)))
            elif c.name == "hdf5_strings" and len(c.args) > 1:
                for x in fpath(c.args[0]):
                    res.add(_join(x, _name(c.args[1])))
    for x in list(res):
        parts = x.split("@")[0].split("/")
        for k in range(1, len(parts)):
            res.add("/".join(parts[:k]))
    return res


def _schema(p, rep, R):
    reads = _reads(p, R)
    W = {
        "SimpleHDFWriter": _writes(p, R, R.w, [R.init, R.prep, R.inp, R.other, R.batch]),
        "HDFDatasetWriter": _writes(p, R, R.dw, [R.dump]),
    }
    for wn, w in W.items():
        for x, guards, where, line in sorted(reads, key=repr):
            base = x.split("/*/")[0].split("/...")[0]
            if "*" in x:
                base = x[: x.index("*") + 1]
            if base in ("*",):
                continue
            if any(not _matches(g, w) for g in guards):
                continue
            rep.check("R1", _matches(base, w), where, f"{wn}:{base}", f"the reader reads {base}, which {wn} does not write", line)
    rep.check("R1", len(reads) >= 6, R.add.where, "reads", "the reads of the HDF file could not be extracted", R.add.node.lineno)


def _matches(x, w):
    return x in w or (x.endswith("*") and any(y.startswith(x[:-1]) for y in w))
