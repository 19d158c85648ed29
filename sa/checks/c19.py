"""
C19 batching loses, duplicates and reorders no sequence.

Ownership analysis of stream items over generator control-flow graphs: an item taken from the source is *held* until it is placed in
a container or yielded; a container is empty, pending (holds items not handed on) or given out.
"""

from __future__ import annotations
import ast
from typing import Dict, List, Optional, Tuple
from ..flow import Flow, fmt, alts, subterms, contains, lin_parts, mk_lin
from ..ir import get_ir
from ..project import Project, Func, Class
from .common import self_name, method_closure

FILES = ("returnn.torch.data.", "returnn.datasets.postprocessing")
# stages which are documented to drop sequences by configuration
MAY_FILTER = {"LenFilterDataPipe", "BucketOrderingIterDataPipe", "ChunkingIterDataPipe"}
IN_ORDER = {"BatchingIterDataPipe", "LenFilterDataPipe", "ReturnnDatasetIterDataPipe", "PostprocessingDataset"}
COPY = {"list", "tuple", "copy", "deque", "collections.deque", "copy.copy"}
REORDER = {"sorted", "reversed"}
PURE = {"len", "bool", "isinstance", "print", "str", "repr", "type", "id", "sum", "max", "min", "any", "all", "range", "zip", "enumerate", "float", "int"}


def check(p: Project, rep):
    rep.rule("R1", "an item taken from the source is put in a container, handed on, or filtered by configuration before the next one is taken and before the end")
    rep.rule("R2", "a container with pending items is handed on before it is emptied, overwritten or abandoned at the end")
    rep.rule("R3", "nothing is handed on twice: after a container or item was handed on it is reset before it is used again")
    rep.rule("R4", "only the documented stages drop sequences, and only those outside of the configured limits")
    rep.rule("R5", "a loop over sequence indices visits 0, 1, 2, ... and loads, reads and hands on exactly the current index")
    rep.rule("R6", "chunking covers each sequence from the start in steps, and hands on every chunk of every data key")
    rep.rule("R7", "collating takes every sequence of the batch, in order, for every data key")
    rep.rule("R8", "in-order stages do not reorder")
    rep.rule("R9", "left-over state of an interrupted epoch is cleared before the next one")
    n = 0
    for f in sorted(p.all_funcs(), key=lambda f: f.full):
        if not f.module.name.startswith(FILES) or not f.is_generator:
            continue
        src = _source(p, f)
        cname = f.cls.name if f.cls is not None else (f.parent.cls.name if f.parent is not None and f.parent.cls is not None else "")
        if src is None:
            continue
        n += 1
        if src[0] == "index":
            _index_loop(p, rep, f)
        elif _is_chunker(f):
            _chunker(p, rep, f)
        else:
            _Own(p, rep, f, src, cname).run()
        _in_order(p, rep, f, cname)
    _len_filter(p, rep)
    _bucket_filter(p, rep)
    for f in p.all_funcs():
        if f.module.name.startswith(FILES) and f.name == "collate_batch":
            _collate(p, rep, f)
    _loader(p, rep)
    rep.need("R1", n, 4, "generator stages")


# ---------------------------------------------------------------------------------------------------------------- sources


def _ctor_attr_of_param(p: Project, cls: Class, idx=0) -> Dict[str, str]:
    """ctor parameter -> attribute it is stored to"""
    init = p.find_method(cls, "__init__")
    res = {}
    if init is None:
        return res
    s = self_name(init)
    for n in ast.walk(init.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == s:
                    res.setdefault(n.value.id, t.attr)
    return res


def _is_index_loop(f: Func) -> bool:
    return any(isinstance(n, ast.Attribute) and n.attr in ("is_less_than_num_seqs", "load_seqs") for n in ast.walk(f.node))


def _source(p: Project, f: Func):
    if _is_index_loop(f):
        return ("index",)
    a = f.node.args
    ps = a.posonlyargs + a.args
    for x in ps:
        ann = x.annotation
        if ann is not None:
            s = ast.unparse(ann)
            if s.startswith(("Iterator", "Iterable", "Generator", "typing.Iter")):
                return ("param", x.arg)
    if f.cls is not None and f.name == "__iter__":
        m = _ctor_attr_of_param(p, f.cls)
        init = p.find_method(f.cls, "__init__")
        if init is not None:
            pn = init.param_names()
            if len(pn) > 1 and pn[1] in m:
                return ("attr", m[pn[1]])
    return None


# ---------------------------------------------------------------------------------------------------------------- ownership


class _Own:
    def __init__(self, p, rep, f: Func, src, cname):
        self.p, self.rep, self.f, self.src, self.cname = p, rep, f, src, cname
        self.bad = {}
        self.bails = set()

    # -- state: (env, heap, toks, held, info)
    def run(self):
        p, f = self.p, self.f
        closure = set(method_closure(p, f.cls, [f.name])) if f.cls is not None else set()

        def inline(g):
            # helpers which see the stream: methods of the class which yield nothing but touch containers
            return g in closure and not g.is_generator and self._touches(g) or (g.parent is f)

        fl = self.fl = Flow(f, cls=f.cls, inline=inline, max_depth=3)
        self.defs = {}
        self.selfs = {}
        env = {}
        heap = {}
        if f.cls is not None:
            for a in self._container_attrs(f.cls):
                env[("self", a)] = ("O", ("attr", a))
                heap[("attr", a)] = None
            if self.src[0] == "attr":
                env[("self", self.src[1])] = ("S",)
        if self.src[0] == "param":
            env[(fl.root.id, self.src[1])] = ("S",)
        init = self.pack(env, heap, {}, None, (False, False, ()))
        n = fl.simulate(init, self.step, on_end=self.on_end, cond_hook=None, max_states=200000)
        self.rep.flow(fl, n)
        where = f.where
        if self.bad:
            for (rule, construct), (line, msg) in sorted(self.bad.items()):
                self.rep.bad(rule, where, construct, msg, line)
        for r in ("R1", "R2", "R3"):
            if not any(k[0] == r for k in self.bad):
                self.rep.ok(r, f"{where}: {n} states" + (f", {len(self.bails)} constructs not interpreted" if self.bails else ""))
        if f.cls is not None:
            self._check_reset(f.cls)

    def _touches(self, g: Func) -> bool:
        attrs = self._container_attrs(self.f.cls) if self.f.cls is not None else set()
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and (n.attr in attrs or n.attr in ("append", "extend", "clear", "pop")):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "next":
                return True
        return False

    def _container_attrs(self, cls):
        r = self.__dict__.get("_ca")
        if r is not None:
            return r
        r = self._ca = set()
        init = self.p.find_method(cls, "__init__")
        if init is None:
            return r
        s = self_name(init)
        for n in ast.walk(init.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                v = n.value
                empty = isinstance(v, ast.List) and not v.elts
                empty = empty or (isinstance(v, ast.Call) and not v.args and isinstance(v.func, (ast.Name, ast.Attribute)) and ast.unparse(v.func) in ("list", "deque", "collections.deque"))
                if not empty:
                    continue
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == s:
                        r.add(t.attr)
        return r

    def _check_reset(self, cls):
        attrs = self._container_attrs(cls)
        used = {n.attr for n in ast.walk(self.f.node) if isinstance(n, ast.Attribute) and n.attr in attrs}
        if not used:
            return
        g = self.p.find_method(cls, "reset")
        if g is None:
            return
        fl = Flow(g, cls=cls, inline=lambda h: h.cls is not None, max_depth=2)
        missing = set()

        def step(nk, st, lab):
            n = nk[1]
            if n.kind == "call" and n.d["func"][0] == "a" and n.d["func"][2] == "clear":
                b = n.d["func"][1]
                if b[0] == "a" and lab != "exc":
                    return st | {b[2]}
            if n.kind == "assign" and n.d["target"][0] == "a":
                v = n.d["value"]
                if v[0] in ("new", "list") or v[0] == "t":
                    return st | {n.d["target"][2]}
            return st

        def on_end(nk, st, kind):
            if kind == "exit":
                missing.update(used - st)

        fl.simulate(frozenset(), step, on_end=on_end)
        for a in sorted(used):
            self.rep.check("R9", a not in missing, g.where, a, f"{cls.name}.reset does not clear {a}: left-over sequences of an interrupted epoch are handed on again", g.node.lineno)

    # -- state helpers

    @staticmethod
    def pack(env, heap, toks, held, info):
        # drop unreachable heap objects that are not pending
        refs = {v[1] for v in env.values() if v[0] in ("O", "L", "X", "E")}
        for h in heap.values():
            pass
        return (
            frozenset(env.items()),
            frozenset((k, v) for k, v in heap.items() if k in refs),
            frozenset(toks.items()),
            held,
            info,
        )

    @staticmethod
    def unpack(st):
        return dict(st[0]), dict(st[1]), dict(st[2]), st[3], st[4]

    def report(self, rule, nk, construct, msg):
        self.bad.setdefault((rule, construct), (nk[1].line, msg))

    def bail(self, nk, why):
        self.bails.add((nk[1].line, why))
        return None

    def frame_loc(self, frame, name, env):
        fr = frame
        while fr is not None:
            if (fr.id, name) in env:
                return (fr.id, name)
            fr = fr.closure
        return (frame.id, name)

    def is_self(self, frame, e):
        return e[0] == "n" and frame.func.cls is not None and self_name(frame.func) == e[1] or (
            e[0] == "n" and frame.closure is not None and frame.closure.func.cls is not None and self_name(frame.closure.func) == e[1]
        )

    def loc(self, e, frame, env):
        if e[0] == "n":
            return self.frame_loc(frame, e[1], env)
        if e[0] == "t":
            return (frame.id, ("t", e[1]))
        if e[0] == "a" and self.is_self(frame, e[1]):
            return ("self", e[2])
        return None

    def val(self, e, frame, env):
        if e is None:
            return None
        l = self.loc(e, frame, env)
        if l is not None:
            return env.get(l)
        if e[0] == "sub":
            b = self.val(e[1], frame, env)
            if b is not None and b[0] == "L":
                return ("E", b[1])
            if b is not None and b[0] == "O" and e[2] == ("slice", None, None, None):
                return ("C", b[1])
            if b is not None and b[0] == "O" and e[2][0] != "slice":
                return ("U", b[1])
            return None
        if e[0] == "snap":
            return env.get(("snap", e[1], e[2])) or self.val(e[1][1][e[2]], frame, env)
        if e[0] == "item":
            b = self.val(e[1], frame, env)
            if b is not None and b[0] == "IT" and e[2] == b[2]:
                return b[1]
            return None
        if e[0] == "elem":
            return env.get(("elem", frame.id, e[1]))
        return None

    # tokens

    def holders(self, heap, tok):
        return [o for o, t in heap.items() if t == tok]

    def set_loc(self, nk, l, v, env, heap, toks):
        """bind location; a container which is not referenced any more must not hold pending items"""
        old = env.get(l)
        if v is None:
            env.pop(l, None)
        else:
            env[l] = v
        if old is not None and old != v and old[0] == "O":
            o = old[1]
            if not any(x[0] in ("O", "C") and x[1] == o for x in env.values()):
                self.release(nk, o, heap, toks, l)
        return True

    def release(self, nk, o, heap, toks, what):
        t = heap.pop(o, None)
        if t is None:
            return
        if self.holders(heap, t):
            return
        if toks.get(t) == "N":
            self.report("R2", nk, f"overwritten:{_nm(what)}", f"{_nm(what)} is overwritten while it holds sequences that were not handed on")
        toks.pop(t, None)

    def new_obj(self, nk, oid, env, heap, toks):
        """fresh container for site; False if the site's object is still in use elsewhere"""
        return not any(x[0] in ("O", "C", "X") and x[1] == oid for x in env.values())

    def place(self, nk, o, st):
        """put something pending into container o"""
        env, heap, toks, held, info = st
        t = heap.get(o)
        if t is None:
            t = o
            if t in toks and self.holders(heap, t):
                t = (o, "'")
                if t in toks and self.holders(heap, t):
                    return False
            heap[o] = t
            toks[t] = "N"
            return True
        if toks.get(t) in ("Y", "W"):
            self.report("R3", nk, f"grow:{self.name_of(o, env)}", f"{self.name_of(o, env)} was already handed on and is used again without a reset: its sequences are handed on twice")
            toks[t] = "N"
        elif toks.get(t) in ("D", "R", "I"):
            return False
        return True

    def name_of(self, o, env):
        for l, v in sorted(env.items(), key=str):
            if v[0] in ("O", "L") and v[1] == o and not (isinstance(l[1], tuple)):
                return _nm(l)
        return "container"

    # -- transfer

    def on_end(self, nk, st, kind):
        if kind != "exit":
            return
        env, heap, toks, held, info = self.unpack(st)
        line = nk[1].line
        if held == "H":
            self.report("R1", nk, "end", "the generator ends while it holds a sequence which was not handed on")
        for t, s in toks.items():
            if s in ("N", "D", "R"):
                names = [self.name_of(o, env) for o in self.holders(heap, t)]
                self.report("R2", nk, f"end:{'/'.join(sorted(set(names))) or 'container'}", f"the generator can end while {'/'.join(sorted(set(names))) or 'a container'} still holds sequences which were not handed on")
        for o, (cur, rest, mode, key) in self.lists(info).items():
            if cur == "N" or rest == "N":
                self.report("R2", nk, f"end:{self.name_of(o, env)}", f"the generator can end while {self.name_of(o, env)} still holds sequences which were not handed on")
        if info[0] and not info[1]:
            self.report("R1", nk, "early-end", "the generator can end without having read its whole source")

    @staticmethod
    def lists(info):
        return dict(info[2])

    @staticmethod
    def with_lists(info, d):
        return (info[0], info[1], tuple(sorted(d.items(), key=str)))

    def merge_cur(self, nk, info, env, o):
        d = self.lists(info)
        cur, rest, mode, key = d[o]
        if cur == "Y":
            self.report("R3", nk, f"noreset:{self.name_of(o, env)}", f"an entry of {self.name_of(o, env)} was handed on and not reset: its sequences are handed on again")
        if cur == "N":
            rest = "N"
        d[o] = (None, rest, mode, None)
        return self.with_lists(info, d)

    def access(self, nk, info, env, o, key):
        """possible infos with the entry of list-of-containers o at key made current"""
        d = self.lists(info)
        cur, rest, mode, k = d[o]
        if k == key and cur is not None:
            return [info]
        if cur is not None:
            info = self.merge_cur(nk, info, env, o)
            d = self.lists(info)
            cur, rest, mode, k = d[o]
        res = []
        for c in ["E"] + (["N"] if rest == "N" else []):
            d2 = dict(d)
            d2[o] = (c, rest, mode, key)
            res.append(self.with_lists(info, d2))
        return res

    def step(self, nk, st, lab):
        frame, node = nk
        k = node.kind
        # entering an inlined function: bind parameters
        if lab == "call" and k == "call":
            return self.enter(nk, st)
        if lab == "ret":
            return self.leave(nk, st)
        if k == "assign":
            return self.assign(nk, st)
        if k == "call":
            return self.call(nk, st, lab)
        if k == "iter":
            return self.iter(nk, st, lab)
        if k == "branch":
            return self.branch(nk, st, lab)
        if k == "yield":
            return self.do_yield(nk, st, node.d["value"], False) if lab != "exc" else None
        if k == "yieldfrom":
            if lab == "exc":
                return None
            return self.do_yield(nk, st, node.d["value"], True)
        if k == "compadd":
            return self.compadd(nk, st)
        if k == "return" and frame.parent is not None:
            env, heap, toks, held, info = self.unpack(st)
            v = self.val(node.d.get("value"), frame, env)
            if v is None and node.d.get("value") is not None and node.d["value"][0] in ("new", "list"):
                return self.bail(nk, "returned new container")
            if v is not None:
                env[(frame.id, "$ret")] = v
            return self.pack(env, heap, toks, held, info)
        if k == "raise" or lab == "exc":
            return st
        return st

    def enter(self, nk, st):
        frame, node = nk
        env, heap, toks, held, info = self.unpack(st)
        for fr2 in self.fl.inlined[nk]:
            ps = fr2.func.param_names()
            args = list(node.d["args"])
            if fr2.func.cls is not None and ps and node.d["func"][0] == "a" and not fr2.func.is_static:
                ps = ps[1:]
            for i, a in enumerate(args):
                if i < len(ps):
                    v = self.val(a, frame, env)
                    if v is not None:
                        env[(fr2.id, ps[i])] = v
            for kn, a in node.d["kwargs"]:
                v = self.val(a, frame, env)
                if v is not None and kn:
                    env[(fr2.id, kn)] = v
        return self.pack(env, heap, toks, held, info)

    def leave(self, nk, st):
        frame, node = nk
        env, heap, toks, held, info = self.unpack(st)
        v = env.get((frame.id, "$ret"))
        if v is not None and frame.call.kind == "call":
            env[(frame.parent.id, ("t", frame.call.d["dest"]))] = v
        for l in list(env):
            if l[0] == frame.id:
                old = env.pop(l)
                if old[0] == "O" and not any(x[0] in ("O", "C") and x[1] == old[1] for x in env.values()):
                    self.release(nk, old[1], heap, toks, l)
        return self.pack(env, heap, toks, held, info)

    def assign(self, nk, st):
        frame, node = nk
        env, heap, toks, held, info = self.unpack(st)
        tgt, v = node.d["target"], node.d["value"]
        v0 = v
        infos = [info]
        # index variables of list accesses
        if tgt[0] == "n":
            for o, (cur, rest, mode, key) in self.lists(info).items():
                if cur is not None and key is not None and key[0] != "iter" and any(x == tgt for x in subterms(key)):
                    info = self.merge_cur(nk, info, env, o)
            infos = [info]
        if v[0] == "snap" and v[2] == 0:
            for i, e in enumerate(v[1][1]):
                vv = self.val(e, frame, env)
                if vv is not None:
                    env[("snap", v[1], i)] = vv
        if v[0] == "snap" and (v[1][1][v[2]][0] == "new" or (v[1][1][v[2]][0] == "list" and not v[1][1][v[2]][1])):
            v = v[1][1][v[2]]
        val = self.val(v, frame, env)
        if val is not None and val[0] == "E" and v[0] == "sub" and tgt[0] == "n":
            env[self.loc(tgt, frame, env)] = val
            return [self.pack(env, heap, toks, held, inf) for inf in self.access(nk, info, env, val[1], ("idx", v[2]))]
        if val is not None and val[0] == "U":
            val = None
        if node.d.get("aug") and val is None and v[0] == "b" and v[1] == "Add":
            # c += [x] / c += other
            base = self.val(tgt, frame, env)
            if base is not None and base[0] == "O":
                return self.bail(nk, "augmented assignment")
        if v[0] == "new" and v[1] in ("list", "deque") or (v[0] == "list" and not v[1]):
            val = self.fresh(nk, tgt, ("site", frame.id, v[2] if v[0] == "new" else node.id), env, heap, toks)
            if val is None:
                return self.bail(nk, "container site reused")
        elif v[0] == "list":
            if any(x[0] == "star" for x in v[1]):
                return self.bail(nk, "starred list")
            vals = [self.val(x, frame, env) for x in v[1]]
            if any(x is not None for x in vals):
                if len(v[1]) > 1 or vals[0][0] != "I":
                    return self.bail(nk, "list of several items")
                val = self.fresh(nk, tgt, ("site", frame.id, node.id), env, heap, toks)
                if val is None:
                    return self.bail(nk, "container site reused")
                held = self.take(nk, held, "placed")
                l = self.loc(tgt, frame, env)
                if tgt[0] != "sub":
                    self.set_loc(nk, l, val, env, heap, toks)
                if not self.place(nk, val[1], (env, heap, toks, held, info)):
                    return self.bail(nk, "place")
                if tgt[0] != "sub":
                    return self.pack(env, heap, toks, held, info)
        elif v[0] == "comp":
            t = self.loc(tgt, frame, env)
            # list of empty containers
            if v[1] == "list" and len(v[2]) == 1 and v[2][0][0] == "new":
                oid = ("loc", frame.id, node.id)
                d = self.lists(info)
                d[oid] = (None, "E", None, None)
                env[t] = ("L", oid)
                return self.pack(env, heap, toks, held, self.with_lists(info, d))
            if v[1] == "list" and v[2] and v[2][0][0] == "list" and not v[2][0][1]:
                oid = ("loc", frame.id, node.id)
                d = self.lists(info)
                d[oid] = (None, "E", None, None)
                env[t] = ("L", oid)
                return self.pack(env, heap, toks, held, self.with_lists(info, d))
            pend = env.get(("comp", frame.id, tgt))
            if pend is not None:
                env.pop(("comp", frame.id, tgt))
                val = pend
        if tgt[0] == "sub":
            b = self.val(tgt[1], frame, env)
            if b is not None and b[0] == "L":
                out = []
                for inf in self.access(nk, info, env, b[1], ("idx", tgt[2])):
                    d = self.lists(inf)
                    cur, rest, mode, key = d[b[1]]
                    if cur == "N":
                        self.report("R2", nk, f"overwritten:{self.name_of(b[1], env)}", f"an entry of {self.name_of(b[1], env)} is overwritten while it holds sequences that were not handed on")
                    new = None
                    if v[0] == "new" or (v[0] == "list" and not v[1]):
                        new = "E"
                    elif val is not None and val[0] == "O":
                        t = heap.get(val[1])
                        new = "E" if t is None else toks.get(t)
                    if new is None:
                        return self.bail(nk, "unknown entry")
                    d[b[1]] = (new, rest, mode, key)
                    env2 = {l: x for l, x in env.items() if (x != val or val is None) and (x != ("E", b[1]) or l[0] == "elem")}
                    out.append(self.pack(env2, heap, toks, held, self.with_lists(inf, d)))
                return out
            if b is not None and b[0] == "O" and val is not None:
                return self.bail(nk, "item store")
            if val is not None and val[0] == "I":
                return self.bail(nk, "item stored elsewhere")
            return self.pack(env, heap, toks, held, info)
        l = self.loc(tgt, frame, env)
        if l is None:
            if val is not None:
                return self.bail(nk, "stored elsewhere")
            return self.pack(env, heap, toks, held, info)
        if val is not None and val[0] == "C":
            oid = ("copy", frame.id, node.id)
            if not self.new_obj(nk, oid, env, heap, toks):
                if env.get(l) != ("O", oid):
                    return self.bail(nk, "copy site reused")
                heap_t = heap.get(val[1])
                env.pop(l)
                self.release(nk, oid, heap, toks, l)
            heap[oid] = heap.get(val[1])
            val = ("O", oid)
        if l[0] == frame.id and tgt[0] == "n" and l not in env and any((fr.id, tgt[1]) == l for fr in [frame]):
            pass
        # locals assigned in nested function are local to it
        if tgt[0] == "n":
            nl = tgt[1] in getattr(get_ir(frame.func), "nonlocals", ()) if hasattr(get_ir(frame.func), "nonlocals") else False
            if not nl and l[0] != frame.id and not _is_nonlocal(frame.func, tgt[1]):
                l = (frame.id, tgt[1])
        self.set_loc(nk, l, val, env, heap, toks)
        if v[0] == "t" and val is not None and tgt[0] != "t":
            env.pop((frame.id, ("t", v[1])), None)  # temporaries are used once
        if v0[0] == "snap" and v0[2] == len(v0[1][1]) - 1:
            for i in range(len(v0[1][1])):
                env.pop(("snap", v0[1], i), None)
        return self.pack(env, heap, toks, held, info)

    def fresh(self, nk, tgt, oid, env, heap, toks):
        l = self.loc(tgt, nk[0], env) if tgt[0] != "sub" else None
        refs = [x for x, v in env.items() if v[0] in ("O", "C", "X") and v[1] == oid]
        if refs and refs != [l]:
            # an older instance of the same creation site is still alive: rename it
            env.pop(l, None)
            old = (oid, "old")
            if any(v[0] in ("O", "C", "X") and v[1] == old for v in env.values()):
                return None
            tok = (oid, "oldtok")
            for x in refs:
                if x in env:
                    env[x] = (env[x][0], old)
            if oid in heap:
                heap[old] = heap.pop(oid)
            if oid in toks:
                if self.holders(heap, tok):
                    return None
                toks[tok] = toks.pop(oid)
                for h in list(heap):
                    if heap[h] == oid:
                        heap[h] = tok
            heap[oid] = None
            return ("O", oid)
        if refs:
            env.pop(l)
            self.release(nk, oid, heap, toks, l)
        heap[oid] = None
        return ("O", oid)

    def take(self, nk, held, how):
        if held == "D":
            self.report("R3", nk, "item-twice", "the same sequence is placed or handed on twice")
        return "D"

    def pull(self, nk, env, held, target_locs=()):
        if held == "H":
            if any(v == ("I",) and l not in target_locs and not isinstance(l[1], tuple) for l, v in env.items()):
                pass
            self.report("R1", nk, "next", "the next sequence is taken while the previous one was neither stored, handed on nor filtered by configuration")
        for l in [l for l, v in env.items() if v == ("I",)]:
            env.pop(l)
        return "H"

    def call(self, nk, st, lab):
        frame, node = nk
        env, heap, toks, held, info = self.unpack(st)
        d = node.d
        fn = d["func"]
        dest = (frame.id, ("t", d["dest"]))
        name = _dotted(fn)
        args = d["args"]
        vals = [self.val(a, frame, env) for a in args]
        kv = {k: self.val(a, frame, env) for k, a in d["kwargs"]}
        pack = lambda: self.pack(env, heap, toks, held, info)
        base = name.split(".")[-1] if name else ""
        if lab == "exc":
            if base == "next" and vals and vals[0] in (("S",),):
                if len(args) == 1:
                    return self.pack(env, heap, toks, held, (info[0], True, info[2]))
            elif base in PURE or (fn[0] == "a" and (self.val(fn[1], frame, env) or ("",))[0] in ("O", "E")):
                return None  # does not fail
            return st
        env.pop(dest, None)
        if fn[0] == "n" and fn[1] == "iter" and vals and vals[0] is not None:
            env[dest] = vals[0] if vals[0][0] == "S" else ("C", vals[0][1])
            if vals[0][0] != "S":
                return self.bail(nk, "iterator over container")
            return pack()
        if fn[0] == "n" and fn[1] == "enumerate" and vals and vals[0] == ("S",):
            env[dest] = ("SE",)
            return pack()
        if fn[0] == "n" and fn[1] == "next" and vals and vals[0] is not None:
            if vals[0] != ("S",) or len(args) > 1:
                return self.bail(nk, "next with default")
            held = self.pull(nk, env, held)
            env[dest] = ("I",)
            return pack()
        if base == "islice" and vals and vals[0] == ("S",):
            if len(args) != 2:
                return self.bail(nk, "islice with start")
            env[dest] = ("P",)
            return pack()
        if base in ("list", "deque", "tuple") and vals and vals[0] is not None and vals[0][0] in ("P", "S"):
            oid = ("site", frame.id, node.id)
            if not self.new_obj(nk, oid, env, heap, toks):
                return self.bail(nk, "site reused")
            if vals[0][0] == "S":
                info = (info[0], True, info[2])
            heap[oid] = None
            env[dest] = ("O", oid)
            e = pack()
            if not self.place(nk, oid, (env, heap, toks, held, info)):
                return self.bail(nk, "place")
            return [e, pack()]
        # methods of containers
        if fn[0] == "a":
            r = self.val(fn[1], frame, env)
            m = fn[2]
            if r is not None and r[0] == "E":
                return self.entry_method(nk, st, r[1], fn[1], m, args, vals, dest)
            if r is not None and r[0] == "O":
                o = r[1]
                if m in ("append", "appendleft", "add", "put", "insert"):
                    x = vals[-1] if vals else None
                    if x is None:
                        return self.bail(nk, "append of unknown")
                    if x[0] == "I":
                        held = self.take(nk, held, "placed")
                    elif x[0] == "X":
                        if not self.take_elem(nk, env, toks, heap, x[1], nk):
                            return self.bail(nk, "elem")
                    else:
                        return self.bail(nk, "append of container")
                    if not self.place(nk, o, (env, heap, toks, held, info)):
                        return self.bail(nk, "place")
                    return pack()
                if m == "extend":
                    x = vals[0] if vals else None
                    if x is not None and x[0] in ("P", "S"):
                        e = pack()
                        if x[0] == "S":
                            info = (info[0], True, info[2])
                        if not self.place(nk, o, (env, heap, toks, held, info)):
                            return self.bail(nk, "place")
                        return [e, pack()]
                    if x is not None and x[0] in ("O", "C"):
                        t = heap.get(x[1])
                        if t is None:
                            return pack()
                        if toks.get(t) == "N":
                            if heap.get(o) is None:
                                heap[o] = t
                                return pack()
                    if args and args[0][0] == "list" and len(args[0][1]) == 1 and self.val(args[0][1][0], frame, env) == ("I",):
                        held = self.take(nk, held, "placed")
                        if not self.place(nk, o, (env, heap, toks, held, info)):
                            return self.bail(nk, "place")
                        return pack()
                    return self.bail(nk, "extend")
                if m == "clear":
                    t = heap.get(o)
                    if t is not None:
                        heap[o] = None
                        if not self.holders(heap, t):
                            if toks.get(t) in ("N", "D", "R"):
                                self.report("R2", nk, f"clear:{self.name_of(o, env)}", f"{self.name_of(o, env)} is cleared while it holds sequences that were not handed on")
                            if toks.get(t) == "W":
                                self.report("R3", nk, f"emptied:{self.name_of(o, env)}", f"{self.name_of(o, env)} is emptied in place after it was handed on: who got it may not have used it yet")
                            toks.pop(t, None)
                    return pack()
                if m in ("pop", "popleft"):
                    t = heap.get(o)
                    if t is None or toks.get(t) != "N":
                        return None if t is None else self.bail(nk, "pop")
                    held = self.pull(nk, env, held)
                    env[dest] = ("I",)
                    more = pack()
                    heap[o] = None
                    toks.pop(t)
                    return [more, pack()]
                if m == "copy":
                    env[dest] = ("C", o)
                    return pack()
                if m in ("sort", "reverse", "index", "count"):
                    return pack()
                return self.bail(nk, f"container method {m}")
        if base in COPY | REORDER and vals and vals[0] is not None and vals[0][0] in ("O", "C"):
            env[dest] = ("C", vals[0][1])
            return pack()
        if fn[0] == "n" and fn[1] in ("enumerate", "zip"):
            os = [(i, v) for i, v in enumerate(vals) if v is not None and v[0] in ("O", "C")]
            if os:
                env[dest] = ("Z", os[0][1][1], 1 if fn[1] == "enumerate" else os[0][0])
                if len(os) > 1:
                    env.pop(dest)
            return pack()
        if base in PURE or name is None:
            return pack()
        # opaque call: a transformation of what it gets
        for v in list(vals) + list(kv.values()):
            if v is not None and v[0] in ("O", "C"):
                if self.transforms(nk):
                    env[dest] = ("O", v[1])
            elif v == ("I",) and self.transforms(nk):
                env[dest] = ("I",)
        return pack()

    def transforms(self, nk) -> bool:
        """is the result of this call later yielded directly? (then it stands for its argument)"""
        frame, node = nk
        d = node.d["dest"]
        names = set()
        for n in get_ir(frame.func).nodes:
            if n.kind == "assign" and n.d["value"] == ("t", d) and n.d["target"][0] == "n":
                names.add(n.d["target"][1])
        for n in get_ir(frame.func).nodes:
            if n.kind == "yield" and n.d["value"] is not None:
                v = n.d["value"]
                if v == ("t", d) or (v[0] == "n" and v[1] in names):
                    return True
        return False

    def entry_method(self, nk, st, o, expr, m, args, vals, dest):
        frame, node = nk
        out = []
        env0, heap0, toks0, held0, info0 = self.unpack(st)
        key = ("idx", expr[2]) if expr[0] == "sub" else self.lists(info0)[o][3]
        for inf in self.access(nk, info0, env0, o, key):
            env, heap, toks, held, _ = self.unpack(st)
            d = self.lists(inf)
            cur, rest, mode, k = d[o]
            if m in ("append", "add"):
                x = vals[0] if vals else None
                if x is None or x[0] != "I":
                    return self.bail(nk, "append of unknown")
                held = self.take(nk, held, "placed")
                if cur == "Y":
                    self.report("R3", nk, f"grow:{self.name_of(o, env)}", f"an entry of {self.name_of(o, env)} was handed on and is used again without a reset: its sequences are handed on twice")
                cur = "N"
            elif m == "clear":
                if cur == "N":
                    self.report("R2", nk, f"clear:{self.name_of(o, env)}", f"an entry of {self.name_of(o, env)} is cleared while it holds sequences that were not handed on")
                if cur == "Y":
                    self.report("R3", nk, f"emptied:{self.name_of(o, env)}", f"an entry of {self.name_of(o, env)} is emptied in place after it was handed on: who got it may not have used it yet")
                cur = "E"
            elif m in ("sort", "reverse", "index", "count"):
                pass
            elif m == "copy":
                return self.bail(nk, "copy of entry")
            else:
                return self.bail(nk, f"entry method {m}")
            d[o] = (cur, rest, mode, k)
            out.append(self.pack(env, heap, toks, held, self.with_lists(inf, d)))
        return out

    # iteration

    def iter(self, nk, st, lab):
        frame, node = nk
        env, heap, toks, held, info = self.unpack(st)
        it = node.d["iter"]
        v = self.val(it, frame, env)
        key = ("elem", frame.id, it)
        if lab == "exc":
            return st
        if v in (("S",), ("SE",)):
            if node.d.get("comp"):
                return self.bail(nk, "comprehension over the source")
            if lab == "iter":
                held = self.pull(nk, env, held)
                env[key] = ("I",) if v == ("S",) else ("IT", ("I",), 1)
                info = (True, info[1], info[2])
            else:
                if held == "H":
                    self.report("R1", nk, "next", "the next sequence is taken while the previous one was neither stored, handed on nor filtered by configuration")
                held = None
                env = {l: x for l, x in env.items() if x != ("I",) and x != ("IT", ("I",), 1)}
                info = (info[0], True, info[2])
            return self.pack(env, heap, toks, held, info)
        if v is not None and v[0] in ("O", "C", "Z"):
            o = v[1]
            xv = ("IT", ("X", o), v[2]) if v[0] == "Z" else ("X", o)
            t = heap.get(o)
            s = toks.get(t) if t is not None else None
            ik = (frame.id, node.id)
            cur = env.get(("iterst",) + ik)  # ("ITS", phase) phase: fresh None / taken / untaken
            if lab == "iter":
                if s is None:
                    return None  # empty
                if s in ("Y", "W") and cur is None:
                    # iterating over a handed-on container: fine as long as it is only read
                    env[key] = xv
                    env[("iterst",) + ik] = ("ITS", "y", "u")
                    return self.pack(env, heap, toks, held, info)
                if cur is not None:
                    mode, e = cur[1], cur[2]
                    if mode == "d" and e == "u":
                        self.report("R2", nk, f"elem:{self.name_of(o, env)}", f"a sequence of {self.name_of(o, env)} is skipped when it is handed on")
                    if mode == "?":
                        mode = "r"
                    env[("iterst",) + ik] = ("ITS", mode, "u")
                else:
                    env[("iterst",) + ik] = ("ITS", "?", "u")
                env[key] = xv
                return self.pack(env, heap, toks, held, info)
            # done
            if cur is None and s in ("N",):
                return None  # not empty: at least one iteration
            if cur is not None:
                mode, e = cur[1], cur[2]
                if mode == "d":
                    if e == "u":
                        self.report("R2", nk, f"elem:{self.name_of(o, env)}", f"a sequence of {self.name_of(o, env)} is skipped when it is handed on")
                    if t is not None:
                        toks[t] = "Y"
                env.pop(("iterst",) + ik)
            env.pop(key, None)
            for l in [l for l, x in env.items() if x == ("X", o)]:
                env.pop(l)
            return self.pack(env, heap, toks, held, info)
        if v is not None and v[0] == "L":
            o = v[1]
            d = self.lists(info)
            cur, rest, mode, k = d[o]
            ik = ("iter", frame.id, node.id)
            comp = node.d.get("comp")
            if k == ik:
                # back edge
                if cur == "N":
                    if mode == "d":
                        self.report("R2", nk, f"elem:{self.name_of(o, env)}", f"an entry of {self.name_of(o, env)} with pending sequences is skipped when the rest is handed on")
                    mode = mode or "r"
            else:
                if cur is not None:
                    info = self.merge_cur(nk, info, env, o)
                    d = self.lists(info)
                    cur, rest, mode, k = d[o]
                mode = None
            if lab == "iter":
                out = []
                for c in ["E"] + (["N"] if rest == "N" else []):
                    d2 = dict(d)
                    d2[o] = (c, rest, mode, ik)
                    env2 = dict(env)
                    env2[key] = ("E", o)
                    out.append(self.pack(env2, heap, toks, held, self.with_lists(info, d2)))
                return out
            if mode == "d":
                rest = "E"
            elif rest == "N" and mode is None:
                return None  # some entry is pending, and was not seen
            d[o] = (None, rest, None, None)
            env.pop(key, None)
            return self.pack(env, heap, toks, held, self.with_lists(info, d))
        env.pop(key, None)
        x = self.chase(it, frame)
        if x[0] == "callnode" and _dotted(x[1].d["func"]) == "range" and len(x[1].d["args"]) == 1:
            lo = self._len_of(x[1].d["args"][0], frame, env)
            vk = ("visited", frame.id, node.id)
            if lab == "iter":
                env[vk] = ("V", 0)
            elif lo is not None and lo[1][0] == "O" and heap.get(lo[1][1]) is not None and vk not in env:
                return None  # not empty: at least one iteration
            else:
                env.pop(vk, None)
        return self.pack(env, heap, toks, held, info)

    def take_elem(self, nk, env, toks, heap, o, where):
        for l, x in list(env.items()):
            if l[0] == "iterst" and x[0] == "ITS":
                pass
        # innermost iteration over o
        its = [(l, x) for l, x in env.items() if l[0] == "iterst" and env.get(("elem", l[1], self._iter_expr(l)), ())[:2] in (("X", o), ("IT", ("X", o)))]
        if len(its) != 1:
            return False
        l, x = its[0]
        mode, e = x[1], x[2]
        if mode == "y":
            self.report("R3", nk, f"again:{self.name_of(o, env)}", f"the sequences of {self.name_of(o, env)} are handed on twice")
            return True
        if e == "t":
            self.report("R3", nk, "item-twice", "the same sequence is handed on twice")
        if mode == "r":
            self.report("R2", nk, f"elem:{self.name_of(o, env)}", f"a sequence of {self.name_of(o, env)} is skipped when it is handed on")
        env[l] = ("ITS", "d", "t")
        return True

    def _iter_expr(self, l):
        m = self.__dict__.setdefault("_ie", {})
        if l not in m:
            fr = next((nk for nk in self.fl.env if nk[0].id == l[1] and nk[1].id == l[2]), None)
            m[l] = fr[1].d["iter"] if fr is not None else None
        return m[l]

    def compadd(self, nk, st):
        frame, node = nk
        env, heap, toks, held, info = self.unpack(st)
        vs = node.d["values"]
        if node.d["ckind"] in ("list", "gen") and len(vs) == 1:
            v = self.val(vs[0], frame, env)
            t = ("t", node.d["dest"])
            ck = ("comp", frame.id, t)
            if v is not None and v[0] == "X":
                # plain copy of the container
                if self._comp_filtered(node, frame):
                    return self.bail(nk, "filtered copy")
                env[ck] = ("C", v[1])
            elif v is not None and v[0] == "E":
                o = v[1]
                d = self.lists(info)
                cur, rest, mode, k = d[o]
                if mode == "r":
                    self.report("R2", nk, f"elem:{self.name_of(o, env)}", f"an entry of {self.name_of(o, env)} with pending sequences is skipped when the rest is handed on")
                if cur == "N":
                    mode = "d"
                cur0 = cur
                d[o] = ("E", rest, mode, k)
                info = self.with_lists(info, d)
                oid = ("compo", frame.id, node.id)
                if oid not in heap:
                    heap[oid] = None
                env[ck] = ("O", oid)
                if cur0 == "N":
                    if heap.get(oid) is None or toks.get(heap[oid]) != "N":
                        heap[oid] = oid
                        toks[oid] = "N"
            elif v == ("I",):
                return self.bail(nk, "item in comprehension")
        return self.pack(env, heap, toks, held, info)

    def _comp_filtered(self, node, frame):
        for n in get_ir(frame.func).nodes:
            if n.kind == "assign" and n.d["target"] == ("t", node.d["dest"]) and n.d["value"][0] == "comp":
                return n.d["value"][3]
        return True

    # yields

    def do_yield(self, nk, st, e, all_of):
        frame, node = nk
        env, heap, toks, held, info = self.unpack(st)
        pack = lambda: self.pack(env, heap, toks, held, info)
        v = self.val(e, frame, env) if e is not None else None
        if all_of:
            if v is not None and v[0] in ("S", "P"):
                if v[0] == "S":
                    info = (info[0], True, info[2])
                return pack()
            if v is not None and v[0] == "L":
                d = self.lists(info)
                cur, rest, mode, k = d[v[1]]
                if cur == "N" or rest == "N":
                    d[v[1]] = (None, "E", None, None)
                return self.pack(env, heap, toks, held, self.with_lists(info, d))
        if v is None:
            # [item]
            if e is not None and e[0] == "list" and len(e[1]) == 1 and self.val(e[1][0], frame, env) == ("I",):
                held = self.take(nk, held, "yielded")
                return pack()
            if e is not None and e[0] == "comp":
                return self.bail(nk, "yield of comprehension")
            return pack()
        if v == ("I",):
            held = self.take(nk, held, "yielded")
            return pack()
        if v[0] in ("U", "Z"):
            return self.bail(nk, "single element")
        if v[0] in ("O", "C"):
            o = v[1]
            t = heap.get(o)
            if t is None:
                if not all_of:
                    self.report("R2", nk, f"empty:{self.name_of(o, env)}", "an empty batch can be handed on")
                return pack()
            s = toks.get(t)
            if s in ("Y", "W"):
                self.report("R3", nk, f"again:{self.name_of(o, env)}", f"{self.name_of(o, env)} is handed on again although it was not reset since")
            elif s == "N":
                toks[t] = "Y" if all_of or v[0] == "C" else "W"
            return pack()
        if v[0] == "X":
            if not self.take_elem(nk, env, toks, heap, v[1], nk):
                return self.bail(nk, "elem")
            return pack()
        if v[0] == "E":
            out = []
            o = v[1]
            d0 = self.lists(info)
            key = ("idx", e[2]) if e[0] == "sub" else d0[o][3]
            for inf in self.access(nk, info, env, o, key):
                d = self.lists(inf)
                cur, rest, mode, k = d[o]
                if cur == "E":
                    self.report("R2", nk, f"empty:{self.name_of(o, env)}", "an empty batch can be handed on")
                elif cur == "Y":
                    self.report("R3", nk, f"again:{self.name_of(o, env)}", f"an entry of {self.name_of(o, env)} is handed on again although it was not reset since")
                else:
                    if k is not None and k[0] == "iter":
                        if mode == "r":
                            self.report("R2", nk, f"elem:{self.name_of(o, env)}", f"an entry of {self.name_of(o, env)} with pending sequences is skipped when the rest is handed on")
                        mode = "d"
                        cur = "E"
                    else:
                        cur = "Y"
                d[o] = (cur, rest, mode, k)
                out.append(self.pack(env, heap, toks, held, self.with_lists(inf, d)))
            return out
        return pack()

    # conditions

    def chase(self, e, frame, depth=4):
        """follow single definitions of names and temporaries"""
        while depth and e[0] in ("n", "t"):
            defs = []
            for n in get_ir(frame.func).nodes:
                if n.kind == "assign" and n.d["target"] == e:
                    defs.append(n.d["value"])
                elif n.kind == "call" and e[0] == "t" and n.d["dest"] == e[1]:
                    defs.append(("callnode", n))
            if len(defs) != 1:
                break
            e = defs[0]
            depth -= 1
            if e[0] == "callnode":
                break
        return e

    def emptiness(self, c, frame, env):
        """condition -> (value, what c being true says about it): 'N' not empty, 'E' empty, 'N?' true only if not empty, 'E?' true always if empty"""
        if c[0] in ("not",) or (c[0] == "u" and c[1] == "Not"):
            r = self.emptiness(c[-1], frame, env)
            if r is None:
                return None
            return (r[0], {"N": "E", "E": "N", "N?": "nN?", "E?": "nE?", "nN?": "N?", "nE?": "E?"}[r[1]])
        v = self.val(c, frame, env)
        if v is not None and v[0] in ("O", "C", "E"):
            return (c, v, "N")[0:1] and ((c, v), "N")
        x = self.chase(c, frame)
        if x != c and x[0] in ("n", "a", "sub", "cmp", "not", "u"):
            r = self.emptiness(x, frame, env)
            if r is not None:
                return r
        if x[0] == "callnode":
            n = x[1]
            nm = _dotted(n.d["func"])
            if nm in ("len", "bool") and len(n.d["args"]) == 1:
                v = self.val(n.d["args"][0], frame, env)
                if v is not None and v[0] in ("O", "C", "E"):
                    return ((n.d["args"][0], v), "N")
        if c[0] == "cmp" and len(c) == 4:
            op, a, b = c[1], c[2], c[3]
            la, lb = self._len_of(a, frame, env), self._len_of(b, frame, env)
            if la is None and lb is not None:
                op = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
                a, b, la = b, a, lb
                lb = None
            if la is None:
                return None
            k = b[1] if b[0] == "c" else None
            if op == "Eq":
                return (la, "E") if k == 0 else ((la, "N?") if k is None or k else None)
            if op == "NotEq":
                return (la, "N") if k == 0 else ((la, "nN?") if k is None or k else None)
            if op == "Gt":
                return (la, "N") if k == 0 else (la, "N?")
            if op == "GtE":
                return (la, "N") if k == 1 else (la, "N?") if k != 0 else None
            if op == "Lt":
                return (la, "E") if k == 1 else (la, "nN?") if k != 0 else None
            if op == "LtE":
                return (la, "E") if k == 0 else None
        return None

    def _len_of(self, e, frame, env):
        x = self.chase(e, frame) if e[0] in ("t", "n") else e
        if x[0] == "callnode" and _dotted(x[1].d["func"]) == "len" and len(x[1].d["args"]) == 1:
            a = x[1].d["args"][0]
            v = self.val(a, frame, env)
            if v is not None and v[0] in ("O", "C", "E"):
                return (a, v)
        return None

    def branch(self, nk, st, lab):
        frame, node = nk
        env, heap, toks, held, info = self.unpack(st)
        c = node.d["cond"]
        T = lab == "T"
        r = self.emptiness(c, frame, env)
        if r is not None:
            (expr, v), what = r
            out = []
            if v[0] == "E":
                d0 = self.lists(info)
                key = ("idx", expr[2]) if expr[0] == "sub" else d0[v[1]][3]
                for inf in self.access(nk, info, env, v[1], key):
                    cur = self.lists(inf)[v[1]][0]
                    if self._feasible(what, T, cur == "E"):
                        out.append(self.pack(env, heap, toks, held, inf))
                return out or None
            t = heap.get(v[1])
            if not self._feasible(what, T, t is None):
                return None
            return st
        if held == "H" and self.cname in MAY_FILTER | {""}:
            # a configured filter: the condition depends on the item and on the configuration
            if self._config_filter(nk, lab):
                return self.pack(env, heap, toks, "F", info)
        elif held == "H" and self.cname not in IN_ORDER | {"ShufflingDataPipe", "LaplaceOrdering"}:
            if self._config_filter(nk, lab):
                return self.pack(env, heap, toks, "F", info)
        return st

    @staticmethod
    def _feasible(what, T, empty):
        if what == "N":
            return T != empty
        if what == "E":
            return T == empty
        if what == "N?":  # true only if not empty
            return not (T and empty)
        if what == "nN?":  # false only if not empty
            return not ((not T) and empty)
        return True

    def _config_filter(self, nk, lab):
        """branch which decides to drop: leads (on this edge) directly to the next pull without storing or yielding"""
        frame, node = nk
        t = self.fl.term(nk, node.d["cond"])
        subs = set(subterms(t))
        conf = any(x[0] in ("attr", "h") and len(x) > 2 for x in subs) or any("self" in str(x) for x in subs if x[0] == "attr")
        if not conf:
            return False
        for n2, l2 in node.succ:
            if l2 == lab:
                return self._drops(n2)
        return False

    @staticmethod
    def _drops(n):
        seen = set()
        while n.id not in seen:
            seen.add(n.id)
            if n.kind in ("iter", "loophead"):
                return True
            if n.kind in ("nop",) or (n.kind == "assign" and n.d.get("aug")) or (n.kind == "call" and (_dotted(n.d["func"]) or "").split(".")[-1] in ("print", "debug", "info", "warning")):
                nx = [m for m, l in n.succ if l != "exc"]
                if len(nx) != 1:
                    return False
                n = nx[0]
                continue
            return False
        return False


def _is_nonlocal(f: Func, name: str) -> bool:
    return any(isinstance(n, ast.Nonlocal) and name in n.names for n in ast.walk(f.node))


def _nm(l):
    if l[0] == "self":
        return "self." + str(l[1])
    x = l[1] if len(l) > 1 else l
    return x if isinstance(x, str) else "container"


def _dotted(e) -> Optional[str]:
    if e[0] in ("n", "g"):
        return e[1]
    if e[0] == "a":
        b = _dotted(e[1])
        return (b + "." if b else "?.") + e[2]
    return None


# ---------------------------------------------------------------------------------------------------------------- other rules


def _in_order(p, rep, f: Func, cname):
    if cname not in IN_ORDER:
        return
    bad = None
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            fn = n.func
            nm = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ""
            if nm in ("sorted", "reversed", "shuffle", "sort", "reverse", "insert", "appendleft"):
                # sorting of data keys etc. is fine: only look at what reaches a yield
                names = _yield_names(f)
                involved = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
                if involved & names:
                    bad = n
    rep.check("R8", bad is None, f.where, "reorder", f"{f.qualname} reorders the sequences", bad.lineno if bad is not None else f.node.lineno)


def _yield_names(f: Func):
    names = set()
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)) and n.value is not None:
            names |= {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
    return names - {"self"}


def _index_loop(p, rep, f: Func):
    fl = Flow(f, cls=f.cls, inline=lambda g: g.parent is f or (g.cls is not None and g.cls is f.cls and not g.is_generator), max_depth=2)
    # index variable: argument of is_less_than_num_seqs
    checks = [c for c in fl.all_calls() if c.name == "is_less_than_num_seqs"]
    if not checks:
        return
    idx_names = {c.node.d["args"][0] for c in checks if c.node.d["args"] and c.frame is fl.root}
    if len(idx_names) != 1 or next(iter(idx_names))[0] != "n":
        return
    iv = next(iter(idx_names))
    where = f.where
    bad = {}

    def report(nk, construct, msg):
        bad.setdefault(construct, (nk[1].line, msg))

    # state: (offset of iv relative to the last checked index or None before, yields since, checked, loaded, got)
    def step(nk, st, lab):
        frame, n = nk
        off, ys, started, loaded = st[:4]
        r = step1(nk, st[:4], lab, dict(st[5]))
        if r is None:
            return None
        tmps, ended = st[5], st[4]
        if frame is fl.root and n.kind == "assign" and n.d["target"][0] == "t" and n.d["value"][0] == "c":
            tmps = frozenset([x for x in tmps if x[0] != n.d["target"]] + [(n.d["target"], n.d["value"])])
        if r[2] and not started:
            ended = False
        return tuple(r) + (ended, tmps)

    def hook(nk, st, t, val):
        if all(x[0] == "call" and x[1][-1] == "is_less_than_num_seqs" for x in alts(t)):
            return st[:4] + (not val,) + st[5:]
        return st

    def step1(nk, st, lab, tmps):
        frame, n = nk
        off, ys, started, loaded = st
        if frame is fl.root and n.kind == "assign" and n.d["target"] == iv:
            v = n.d["value"]
            if v[0] == "b":
                v = v[:2] + tuple(tmps.get(x, x) for x in v[2:])
            if v == ("c", 0) and not started:
                return (0, ys, started, loaded)
            d = _inc(v, iv)
            if d is None:
                if v[0] == "c" and not started:
                    report(nk, "start", f"the index loop starts at {v[1]!r}, not 0")
                    return (0, ys, started, loaded)
                return None  # not interpreted
            if not started and off is not None:
                report(nk, "start", "the index loop does not start at 0")
            return (None if off is None else off + d if abs(off + d) < 4 else off, ys, started, loaded)
        if n.kind == "call" and frame is fl.root and lab != "exc":
            c = fl.calls.get(nk)
            nm = c.name if c is not None else None
            a = n.d["args"]
            if nm == "is_less_than_num_seqs" and a and a[0] == iv:
                if started:
                    if ys != 1:
                        report(nk, "yields", f"a sequence index is handed on {ys} times" if ys else "a sequence is loaded but not handed on")
                    if off != 1:
                        report(nk, "step", f"the index advances by {off} per sequence")
                elif off not in (0, None):
                    report(nk, "start", "the index loop does not start at 0")
                return (0, 0, True, False)
            if nm in ("load_seqs", "get_data", "get_tag", "get_corpus_seq_idx", "get_data_slice", "get_complete_frac") and a:
                d0 = _inc(a[0], iv) if a[0] != iv else 0
                if d0 is not None and off is not None:
                    if d0 + off != 0:
                        report(nk, f"{nm}-index", f"{nm} uses another index than the current one")
                if nm == "load_seqs" and len(a) > 1:
                    d1 = _inc(a[1], iv)
                    if d1 is not None and d1 + off < 1:
                        report(nk, "load-end", "load_seqs does not load the current sequence")
                    return (off, ys, started, True)
        if n.kind == "yield" and frame is fl.root and lab != "exc":
            if not started:
                return (off, ys, started, loaded)
            return (off, min(ys + 1, 2), started, loaded)
        return st

    def on_end(nk, st, kind):
        if kind != "exit":
            return
        off, ys, started, loaded, ended, _ = st
        if started and not ended:
            report(nk, "end", "the loop over the sequences can end before the last one")

    n = fl.simulate((None, 0, False, False, False, frozenset()), step, on_end=on_end, cond_hook=hook)
    rep.flow(fl, n)

    # the loop may only end when there are no more sequences
    for node in get_ir(f).nodes:
        pass
    for construct, (line, msg) in sorted(bad.items()):
        rep.bad("R5", where, construct, f"{f.qualname}: {msg}", line)
    if not bad:
        rep.ok("R5", f"{where}: {n} states")
    # every data key of the dataset
    for n in ast.walk(f.node):
        if isinstance(n, (ast.DictComp, ast.For)):
            gens = n.generators if isinstance(n, ast.DictComp) else None
            body = n.value if isinstance(n, ast.DictComp) else n
            if gens is not None and any(isinstance(x, ast.Attribute) and x.attr == "get_data" for x in ast.walk(body)):
                ok = not any(g.ifs for g in gens) and not any(isinstance(g.iter, ast.Subscript) for g in gens)
                rep.check("R5", ok, where, "data-keys", f"{f.qualname} does not hand on all data keys of the sequence", n.lineno)


def _inc(v, iv):
    """v == iv + const -> const"""
    if v == iv:
        return 0
    if v[0] == "b" and v[1] in ("Add", "Sub"):
        if v[2] == iv and v[3][0] == "c" and isinstance(v[3][1], int):
            return v[3][1] if v[1] == "Add" else -v[3][1]
        if v[1] == "Add" and v[3] == iv and v[2][0] == "c" and isinstance(v[2][1], int):
            return v[2][1]
    return None


def _is_chunker(f: Func) -> bool:
    return f.cls is not None and "chunk" in f.cls.name.lower()


def _chunker(p, rep, f: Func):
    where = f.where
    fl = Flow(f, cls=f.cls, inline=lambda g: g.parent is f or (g.cls is f.cls and not g.is_generator and g.name != "__init__"), max_depth=2)
    rep.flow(fl, 0)
    ok = True

    def fail(construct, msg, line):
        nonlocal ok
        ok = False
        rep.bad("R6", where, construct, msg, line)

    # 1. range(0, len(data), step)
    n_range = 0
    for c in fl.all_calls():
        if c.ext() == "range" and len(c.args) == 3:
            a, b, s = c.args
            n_range += 1
            if a != ("c", 0):
                fail("range-start", "chunks do not start at the beginning of the sequence", c.line)
            if not (b[0] == "call" and b[1] == ("ext", "len")):
                base = lin_parts(b) if b[0] == "lin" else None
                if base is not None and any(x[0] == "call" and x[1] == ("ext", "len") for x in base[1]):
                    fail("range-end", f"the end of the sequence is not covered by chunks: range(…, {fmt(b)}, …)", c.line)
            if not any("_step" in str(x) or "chunk_step" in str(x) for x in subterms(s)):
                fail("range-step", f"chunks are not taken in steps of chunk_step but {fmt(s)}", c.line)
    # 2. slices start : start + size
    for g in {fr.func for fr, _ in fl.env}:
        for n in ast.walk(g.node):
            if isinstance(n, ast.Slice) and n.lower is not None and n.upper is not None:
                lo = ast.unparse(n.lower)
                if isinstance(n.upper, ast.BinOp):
                    parts = {ast.unparse(n.upper.left), ast.unparse(n.upper.right)}
                    if not isinstance(n.upper.op, ast.Add) or lo not in parts or len(parts) != 2 or not any("size" in x for x in parts):
                        fail("slice", f"a chunk is not [start : start + chunk_size] but [{ast.unparse(n)}]", n.lineno)
                if n.step is not None:
                    fail("slice", "a chunk skips frames", n.lineno)
    # 3. filters in the comprehension: only by min_chunk_size
    for g in {fr.func for fr, _ in fl.env}:
        for n in ast.walk(g.node):
            if isinstance(n, ast.ListComp) and any(isinstance(x, ast.Slice) for x in ast.walk(n.elt)):
                for gen in n.generators:
                    for cond in gen.ifs:
                        good = isinstance(cond, ast.Compare) and len(cond.ops) == 1
                        if good:
                            l, r = ast.unparse(cond.left), ast.unparse(cond.comparators[0])
                            op = type(cond.ops[0]).__name__
                            good = ("min_chunk" in r and op == "GtE") or ("min_chunk" in l and op == "LtE")
                        if not good:
                            fail("chunk-filter", f"chunks are dropped by {ast.unparse(cond)}", n.lineno)
    # 4. each chunk index yielded: the yield is in a loop over range(num_chunks), unconditional
    for n in ast.walk(f.node):
        if isinstance(n, ast.For) and any(isinstance(x, ast.Yield) for x in ast.walk(n)):
            inner = [m for m in ast.walk(n) if isinstance(m, ast.For) and m is not n and any(isinstance(x, ast.Yield) for x in ast.walk(m))]
            if inner:
                continue
            if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range":
                if len(n.iter.args) != 1 or not isinstance(n.iter.args[0], (ast.Name, ast.Call)):
                    fail("chunk-loop", f"not all chunks are handed on: {ast.unparse(n.iter)}", n.lineno)
            # yield directly in loop body, no continue/break
            direct = [s for s in n.body if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield)]
            if len(direct) != 1 or sum(isinstance(x, ast.Yield) for x in ast.walk(n)) != 1 or any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(n)):
                fail("chunk-yield", "a chunk is not handed on exactly once", n.lineno)
            # whole sequences are only skipped if there is no chunk
    for n in ast.walk(f.node):
        if isinstance(n, ast.If) and any(isinstance(b, ast.Continue) for b in n.body) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1:
            l, r, op = n.test.left, n.test.comparators[0], type(n.test.ops[0]).__name__
            if isinstance(l, ast.Constant):
                l, r = r, l
                op = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
            if isinstance(r, ast.Constant) and isinstance(r.value, int) and "chunk" in ast.unparse(l):
                empty_only = (op, r.value) in (("Eq", 0), ("LtE", 0), ("Lt", 1))
                if not empty_only:
                    fail("skip-seq", f"sequences with chunks are skipped (if {ast.unparse(n.test)})", n.lineno)
    # 5. other data keys are kept
    for n in ast.walk(f.node):
        if isinstance(n, ast.DictComp):
            for gen in n.generators:
                for cond in gen.ifs:
                    if not (isinstance(cond, ast.Compare) and isinstance(cond.ops[0], ast.NotIn)):
                        fail("keys", f"data keys are dropped by {ast.unparse(cond)}", n.lineno)
    if ok:
        rep.ok("R6", f"{where}: {n_range} chunk ranges")


def _len_filter(p: Project, rep):
    """min: drop if length < min; max: drop if length > max"""
    for cls in [c for m in p.modules.values() if m.name.startswith(FILES) for c in m.classes.values()]:
        if cls.name != "LenFilterDataPipe":
            continue
        f = p.find_method(cls, "__iter__")
        init = p.find_method(cls, "__init__")
        if f is None or init is None:
            continue
        kinds = {}
        s = self_name(init)
        for n in ast.walk(init.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == s:
                        used = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
                        if "min_seq_length" in used:
                            kinds[t.attr] = "min"
                            consts = [x.value for x in ast.walk(n.value) if isinstance(x, ast.Constant) and isinstance(x.value, int)]
                            rep.check("R4", all(c <= 0 for c in consts), init.where, "default-min", "without min_seq_length sequences are dropped", n.lineno)
                        if "max_seq_length" in used:
                            kinds[t.attr] = "max"
        seen = set()
        for g in method_closure(p, cls, ["__iter__"]):
            for n in ast.walk(g.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "any_compare" and len(n.args) == 2 and isinstance(n.args[1], ast.Lambda):
                    at = [x.attr for x in ast.walk(n.args[0]) if isinstance(x, ast.Attribute) and x.attr in kinds]
                    rv = [x.attr for x in ast.walk(n.func.value) if isinstance(x, ast.Attribute) and x.attr in kinds]
                    lam = n.args[1]
                    b = lam.body
                    if not (isinstance(b, ast.Compare) and len(b.ops) == 1 and isinstance(b.left, ast.Name) and isinstance(b.comparators[0], ast.Name)):
                        continue
                    ps = [a.arg for a in lam.args.args]
                    if len(ps) != 2 or len(at) + len(rv) != 1:
                        continue
                    op = type(b.ops[0]).__name__
                    flip = (b.left.id == ps[1]) != bool(rv)
                    if flip:
                        op = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
                    kind = kinds[(at + rv)[0]]
                    seen.add(kind)
                    want = {"min": "Lt", "max": "Gt"}[kind]
                    rep.check("R4", op == want, g.where, f"{kind}-compare", f"the {kind} length filter drops sequences inside of the configured range (length {op} {kind})", n.lineno)
                    # negated: must lead to dropping
        rep.ok("R4", f"{f.where}: limits {sorted(seen)}")


def _bucket_filter(p: Project, rep):
    for cls in [c for m in p.modules.values() if m.name.startswith(FILES) for c in m.classes.values()]:
        f = p.find_method(cls, "__iter__")
        if f is None or f.cls is not cls:
            continue
        if not any(isinstance(n, (ast.Attribute, ast.Name)) and "bisect" in (n.attr if isinstance(n, ast.Attribute) else n.id) for n in ast.walk(f.node)):
            continue
        fl = Flow(f, cls=cls, inline=lambda g: g.cls is cls and not g.is_generator, max_depth=2)
        bis = [c for c in fl.all_calls() if (c.ext() or "").startswith("bisect.")]
        for c in bis:
            nm = (c.ext() or "").split(".")[-1]
            rep.check("R4", nm == "bisect_left", f.where, "bisect", f"{nm}: a sequence as long as the largest bucket is dropped", c.line)
            # drop conditions
            L = c.args[0] if c.args else None
            for nk in fl.env:
                if nk[1].kind != "branch":
                    continue
                t, pol = fl.cond_term(nk)
                if t[0] != "cmp" or not any(x == fl._call_value(c, fl.call_key(c)) for x in subterms(t)):
                    continue
                for n2, l2 in nk[1].succ:
                    if _Own._drops(n2):
                        d = None
                        for x in subterms(t):
                            if x[0] == "lin" and any(y[0] == "call" and y[1] == ("ext", "len") for y in x[1:][-1] if isinstance(y, tuple)):
                                d = x
                        bad = any(x[0] == "lin" for x in subterms(t)) and not _is_len_cmp(t, c, fl)
                        rep.check("R4", not bad, f.where, "drop", f"sequences which fit in the last bucket are dropped ({fmt(t)})", nk[1].line)


def _is_len_cmp(t, c, fl):
    # idx - len >= 0, idx > len - 1
    idx = fl._call_value(c, fl.call_key(c))
    op, a, b = t[1], t[2], t[3]
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) - v
    d = {k: v for k, v in d.items() if v}
    k = ca - cb
    if set(d.values()) != {1, -1} or len(d) != 2:
        return True  # not interpreted
    s = d.get(idx)
    if s is None:
        return True
    if s == -1:
        k = -k
        op = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
    # idx - len + k op 0
    thr = {"GtE": -k, "Gt": -k + 1, "Lt": -k, "LtE": -k + 1, "Eq": -k}.get(op)
    return thr is None or thr >= 0


def _collate(p: Project, rep, f: Func):
    where = f.where
    par = f.param_names()[0]
    bad = []
    n_obl = 0
    keys_names = set()
    aliases = {par}
    for n in ast.walk(f.node):
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            for g in n.generators:
                src = ast.unparse(g.iter)
                if isinstance(g.iter, ast.Name) and g.iter.id in aliases:
                    n_obl += 1
                    if g.ifs:
                        bad.append(("filter", f"sequences of the batch are dropped by {ast.unparse(g.ifs[0])}", n.lineno))
                elif isinstance(g.iter, ast.Subscript) and isinstance(g.iter.value, ast.Name) and g.iter.value.id in aliases:
                    if isinstance(g.iter.slice, ast.Slice):
                        bad.append(("slice", f"not all sequences of the batch are collated: {src}", n.lineno))
                elif isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Name) and g.iter.func.id in ("sorted", "reversed", "set"):
                    if any(isinstance(x, ast.Name) and x.id in aliases for x in ast.walk(g.iter)) and not any(isinstance(x, ast.Attribute) and x.attr == "keys" for x in ast.walk(g.iter)):
                        bad.append(("reorder", f"data and sequence order differ between keys: {src}", n.lineno))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "pad_sequence":
            n_obl += 1
            kw = {k.arg: k.value for k in n.keywords}
            bf = kw.get("batch_first")
            if not (isinstance(bf, ast.Constant) and bf.value is True):
                bad.append(("batch_first", "the batch axis of padded data is not the first one", n.lineno))
    # loop over keys: every path through the body assigns res[key] or raises
    fl = Flow(f, inline=lambda g: g.module is f.module, max_depth=2)
    rep.flow(fl, 0)
    for code, msg, line in bad:
        rep.bad("R7", where, code, msg, line)
    miss = set()

    def step(nk, st, lab):
        fr, n = nk
        if fr is fl.root and n.kind == "iter" and not n.d.get("comp"):
            if lab == "iter":
                if st == "open":
                    miss.add(n.line)
                return "open"
            if st == "open":
                miss.add(n.line)
            return "none"
        if fr is fl.root and n.kind == "assign" and n.d["target"][0] == "sub" and st == "open":
            return "done"
        return st

    # the branches on the kind of the data are an exhaustive case distinction: only skipping without any type test counts
    skips = [n for n in ast.walk(f.node) if isinstance(n, ast.Continue)]
    for loop in ast.walk(f.node):
        if isinstance(loop, ast.For):
            for s in ast.walk(loop):
                if isinstance(s, ast.If):
                    for body in (s.body, s.orelse):
                        if body and isinstance(body[-1], ast.Continue):
                            n_obl += 1
                            if not any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for b in body for x in ast.walk(b)):
                                rep.bad("R7", where, "skip-key", f"a data key is not handed on (if {ast.unparse(s.test)})", s.lineno)
    if not any(fd["rule"] == "R7" for fd in rep.findings):
        rep.ok("R7", f"{where}: {n_obl} constructs")


def _loader(p: Project, rep):
    """the DataLoader gets our batches as they are"""
    for m in p.modules.values():
        if not m.name.startswith(FILES):
            continue
        for f in [g for g in p.all_funcs() if g.module is m]:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "DataLoader":
                    kw = {k.arg: k.value for k in n.keywords if k.arg}
                    b = kw.get("batch_size")
                    rep.check("R7", isinstance(b, ast.Constant) and b.value is None, f.where, "loader-batch_size", "the data loader batches already batched sequences again", n.lineno)
                    c = kw.get("collate_fn")
                    rep.check("R7", c is not None, f.where, "loader-collate", "the data loader does not use the collate function", n.lineno)
                    dl = kw.get("drop_last")
                    rep.check("R7", dl is None or (isinstance(dl, ast.Constant) and not dl.value), f.where, "loader-drop_last", "the data loader drops the last batch", n.lineno)
