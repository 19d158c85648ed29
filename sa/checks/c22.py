"""
C22 backends implement the frontend contract.

Signatures are compared parameter by parameter; options are followed by a must-read dataflow and by the terms of the
arguments at each dispatch site.
"""

from __future__ import annotations
import ast
from ..flow import Flow, alts, fmt, subterms
from ..ir import get_ir
from ..project import Func, Class, dotted_name, walk_own
from .common import deep_subterms

BASE = "returnn.frontend._backend.Backend"

# (backend or "*", method, parameter) -> why ignoring it (on some path) does not change the result
IGNORED = {
    ("*", "*", "device"): "placement only; TF and Numpy place tensors themselves",
    ("*", "*", "name"): "only a debug name",
    ("*", "random", "algorithm"): "choice of the random generator of TF; no other backend has it",
    ("*", "split_dims", "pad_value"): "only with pad_to_multiples, which is rejected",
    ("ReturnnLayersBackend", "compare", "dim_order"): "the order of dims has no meaning; the layer decides it",
    ("ReturnnLayersBackend", "combine", "dim_order"): "the order of dims has no meaning; the layer decides it",
    ("ReturnnLayersBackend", "set_requires_gradient", "tensor"): "no eager gradients in a graph",
    ("ReturnnLayersBackend", "random", "*"): "replaying recorded random values does not need the distribution",
    ("*", "convert_to_tensor", "*"): "an existing tensor is returned as it is",
    ("ReturnnLayersBackend", "full", "*"): "delegates to converting an existing tensor",
    ("TorchBackend", "expand_raw", "*"): "trivial case of an unchanged shape",
    ("TorchBackend", "pad", "handle_dynamic_dims"): "nothing dynamic on that path",
    ("TorchBackend", "pad", "mode"): "a non-scalar value implies the constant mode",
    ("TorchBackend", "gather", "clip_to_valid"): "index 0 is always valid",
    ("TorchBackend", "top_k", "k"): "given by the dim",
    ("TorchBackend", "random", "sparse_dim"): "the output is given",
    ("TorchBackend", "random", "feature_dim"): "the output is given",
    ("Backend", "control_dependencies_raw", "*"): "default for eager backends: nothing to order",
    ("Backend", "identity_with_control_dependencies_raw", "*"): "default for eager backends: nothing to order",
    ("Backend", "is_valid_in_current_graph", "*"): "default for eager backends: there is no graph",
    ("Backend", "format_graph_output", "*"): "debug text",
    ("Backend", "get_device", "*"): "default for backends without devices",
    ("*", "batch_norm", "beta"): "not given together with gamma: affine off",
    ("*", "batch_norm", "gamma"): "not given together with beta: affine off",
    ("*", "stft", "align_window_left"): "only when window and FFT length differ",
    ("*", "stft", "frame_step"): "no frames",
    ("*", "stft", "window_enforce_even"): "only when window and FFT length differ",
    ("*", "stft", "window_use_frame_length"): "only when window and FFT length differ",
    ("ReturnnLayersBackend", "while_loop", "body"): "",
    ("ReturnnLayersBackend", "where", "allow_broadcast_all_sources"): "the layer always allows broadcasting; the option only relaxes a check",
}


def check(p, rep):
    rep.rule("R1", "every backend method which overrides an interface method takes the same parameters, at the same positions, with the same defaults")
    rep.rule("R2", "every call of a backend operation names an operation of the interface and binds to its signature")
    rep.rule("R3", "a frontend function which has an option of the backend operation it dispatches to passes that option on")
    rep.rule("R4", "a backend operation reads each of its parameters on every path to a result (or ignoring it has no effect on the result)")
    rep.rule("R5", "every call within frontend and backends binds to the signature of what it calls")
    rep.rule("R6", "a frontend function which dispatches reads each of its parameters somewhere")
    rep.rule("R7", "a backend operation uses each of its parameters for its result, or rejects other values")
    base = p.get_class(BASE)
    if base is None:
        rep.errors.append("Backend interface not found")
        return
    subs = [c for c in p.subclasses(base, proper=True) if c.module.name.startswith("returnn.")]
    if not subs:
        rep.errors.append("no backends found")
        return
    for c in subs:
        _overrides(p, rep, base, c)
    for c in [base] + subs:
        _must_read(p, rep, base, c)
    _dispatch(p, rep, base, subs)
    _bind_all(p, rep)


def sig(f: Func, skip=None):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    dfl = {}
    for x, d in zip(pos[len(pos) - len(a.defaults):] if a.defaults else [], a.defaults):
        dfl[x] = d
    kwo = [x.arg for x in a.kwonlyargs]
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            dfl[x.arg] = d
    if skip is None:
        skip = 1 if f.cls is not None and not f.is_static else 0
    return pos[skip:], kwo, dfl, a.vararg is not None, a.kwarg is not None


def bind_errors(call: ast.Call, s):
    pos, kwo, dfl, va, kw = s
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    errs = []
    n = len(call.args)
    if not star and n > len(pos) and not va:
        errs.append("too many positional arguments")
    given = set() if star else set(pos[:n])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            errs.append(f"{k.arg} given twice")
        elif k.arg not in pos + kwo and not kw:
            errs.append(f"unknown argument {k.arg}")
        given.add(k.arg)
    if not star and not dstar:
        for x in pos + kwo:
            if x not in given and x not in dfl:
                errs.append(f"argument {x} missing")
    return errs


def _const(m, d):
    if d is None:
        return None
    try:
        return ("v", repr(ast.literal_eval(d)))
    except (ValueError, SyntaxError, TypeError):
        return ("d", (dotted_name(d) or ast.dump(d)).split(".")[-1])


def _overrides(p, rep, base, c):
    for name, f in sorted(c.methods.items()):
        b = p.find_method(base, name)
        if b is None or b.cls is not base or name.startswith("__"):
            continue
        rep.analysed(f)
        bp, bk, bd, bva, bkw = sig(b)
        sp, sk, sd, sva, skw = sig(f)
        errs = []
        kinds = (f.is_static, f.is_classmethod, f.is_property), (b.is_static, b.is_classmethod, b.is_property)
        if kinds[0] != kinds[1]:
            # what matters is how it can be called
            if kinds[0][2] != kinds[1][2] or (b.is_static or b.is_classmethod) != (f.is_static or f.is_classmethod):
                errs.append("is called differently (static method, class method, property)")
        for i, x in enumerate(bp):
            if x not in sp + sk and not skw:
                errs.append(f"parameter {x} is missing")
            elif x in sk:
                errs.append(f"parameter {x} cannot be given by position")
            elif x in sp and sp.index(x) != i:
                errs.append(f"parameter {x} is at position {sp.index(x)} instead of {i}")
        for x in bk:
            if x not in sp + sk and not skw:
                errs.append(f"parameter {x} is missing")
        for x in bd:
            if x in sp + sk and x not in sd:
                errs.append(f"parameter {x} has no default")
            elif x in sd and _const(b.module, bd[x]) != _const(f.module, sd[x]):
                errs.append(f"parameter {x} has another default than in the interface")
        for x in sp + sk:
            if x not in bp + bk and x not in sd and not bkw:
                errs.append(f"parameter {x} is required but not part of the interface")
        rep.check("R1", not errs, f.where, f"override:{name}", f"{c.name}.{name}: " + "; ".join(errs), f.node.lineno)


# ------------------------------------------------------------------ options must be read


def _names(e, acc):
    if isinstance(e, tuple):
        if len(e) == 2 and e[0] == "n":
            acc.add(e[1])
        elif len(e) >= 3 and e[0] == "lam":
            acc.update(x.id for x in ast.walk(e[2]) if isinstance(x, ast.Name))
        else:
            for x in e:
                _names(x, acc)


def _trivial(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Raise, ast.Pass)) for s in body)


def _unread(f: Func):
    """parameters which are not read on some path to a normal exit"""
    ir = get_ir(f)
    a = f.node.args
    ps = frozenset(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs)
    if f.cls is not None and not f.is_static and (a.posonlyargs + a.args):
        ps -= {(a.posonlyargs + a.args)[0].arg}
    nested = {}
    for g in f.nested.values() if hasattr(f, "nested") else ():
        nested[g.name] = {x.id for x in ast.walk(g.node) if isinstance(x, ast.Name)}
    # a path which tests ``p is None``-like conditions reads p; asserts reject a value, so they count as well
    state = {ir.entry: frozenset()}
    work = [ir.entry]
    while work:
        n = work.pop()
        acc = set()
        for k, v in n.d.items():
            if k == "target" and v and v[0] == "n":
                continue
            _names(v, acc)
        for x in list(acc):
            acc |= nested.get(x, set())
        out = state[n] | (frozenset(acc) & ps)
        for t, lab in n.succ:
            if lab.startswith("exc"):
                continue
            o = state.get(t)
            new = out if o is None else o & out
            if new != o:
                state[t] = new
                work.append(t)
    if ir.exit not in state:
        return set()
    return set(ps - state[ir.exit])


def _ignored(c, m, x):
    return any((a, b, y) in IGNORED for a in (c, "*") for b in (m, "*") for y in (x, "*"))


def _must_read(p, rep, base, c):
    for name, f in sorted(c.methods.items()):
        if name not in base.methods or name.startswith("__") or _trivial(f):
            continue
        un = _unread(f)
        bad = sorted(x for x in un if not _ignored(c.name, name, x))
        rep.check(
            "R4", not bad, f.where, f"unread:{name}",
            f"{c.name}.{name} can return a result without looking at {', '.join(bad)}", f.node.lineno,
        )
        last = f.node.body[-1]
        if isinstance(last, ast.Raise) and not any(isinstance(y, (ast.Return, ast.Yield)) for y in walk_own(f.node)):
            continue
        dead = sorted(x for x in _without_effect(f) if not _ignored(c.name, name, x))
        rep.check(
            "R7", not dead, f.where, f"effect:{name}",
            f"{c.name}.{name}: {', '.join(dead)} is only checked or normalised, it has no effect on the result", f.node.lineno,
        )


def _without_effect(f: Func):
    """parameters which are read only to check their type or to bring themselves into another form"""
    a = f.node.args
    ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if f.cls is not None and not f.is_static and (a.posonlyargs + a.args):
        ps -= {(a.posonlyargs + a.args)[0].arg}
    res = set()
    for x in ps:
        if not _has_effect(f.node.body, x):
            res.add(x)
    return res


def _reads(n, x):
    return n is not None and any(isinstance(y, ast.Name) and y.id == x and isinstance(y.ctx, ast.Load) for y in ast.walk(n))


def _type_test(e, x):
    """a test of the form of x only: isinstance(x, ..), x.dims == .."""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return _type_test(e.operand, x)
    if isinstance(e, ast.BoolOp):
        return all(_type_test(v, x) or not _reads(v, x) for v in e.values)
    if isinstance(e, ast.Call):
        return isinstance(e.func, ast.Name) and e.func.id == "isinstance" and isinstance(e.args[0], ast.Name) and e.args[0].id == x
    if isinstance(e, ast.Compare) and isinstance(e.left, ast.Attribute) and isinstance(e.left.value, ast.Name):
        return e.left.value.id == x and e.left.attr in ("dims", "dtype", "batch_ndim", "sparse_dim")
    return False


def _has_effect(body, x):
    for st in body:
        if isinstance(st, ast.Assert):
            if _reads(st.test, x) and not _type_test(st.test, x):
                return True  # rejects other values
            continue
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            tg = st.targets if isinstance(st, ast.Assign) else [st.target]
            if len(tg) == 1 and isinstance(tg[0], ast.Name) and tg[0].id == x:
                continue
        if isinstance(st, ast.If):
            if _reads(st.test, x):
                own = _only_self(st.body, x) and _only_self(st.orelse, x)
                if not own:
                    return True
                continue
            if _has_effect(st.body, x) or _has_effect(st.orelse, x):
                return True
            continue
        if isinstance(st, (ast.For, ast.While, ast.With, ast.Try)):
            for k in ("iter", "test"):
                if _reads(getattr(st, k, None), x):
                    return True
            for k in getattr(st, "items", []):
                if _reads(k.context_expr, x):
                    return True
            subs = [getattr(st, k, []) for k in ("body", "orelse", "finalbody")] + [h.body for h in getattr(st, "handlers", [])]
            if any(_has_effect(b, x) for b in subs):
                return True
            continue
        if _reads(st, x):
            return True
    return False


def _only_self(body, x):
    """the statements only check or change x"""
    for st in body:
        if isinstance(st, ast.Pass):
            continue
        if isinstance(st, ast.Assert):
            if not _type_test(st.test, x):
                return False
            continue
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == x:
            continue
        if isinstance(st, ast.If):
            if _only_self(st.body, x) and _only_self(st.orelse, x):
                continue
        return False
    return True


# ------------------------------------------------------------------ dispatch


BACKEND_ATTRS = ("_raw_backend", "global_backend", "_global_backend")


def _is_backend_expr(p, f, e, classes, locs):
    if isinstance(e, ast.Attribute) and e.attr in BACKEND_ATTRS:
        return True
    if isinstance(e, ast.Name):
        if e.id in locs:
            return True
        r = p.resolve_name(f, f.module, e.id)
        if isinstance(r, Class):
            return r in classes
        if isinstance(r, tuple) and r[0] == "const" and r[2] == "global_backend":
            return True
        if e.id in BACKEND_ATTRS and r is None:
            return True
        return False
    if isinstance(e, ast.Call):
        d = dotted_name(e.func)
        return bool(d) and d.split(".")[-1] in ("get_backend_by_tensor", "get_backend_by_raw_tensor_type", "get_selected_backend_cls")
    return False


def _backend_locals(p, f, classes):
    locs = set()
    g = f
    while g is not None:
        a = g.node.args if not isinstance(g.node, ast.Module) else None
        if a is not None:
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                if x.annotation is not None and any(
                    isinstance(y, (ast.Name, ast.Attribute)) and (dotted_name(y) or "").split(".")[-1] == "Backend"
                    for y in ast.walk(x.annotation)
                ):
                    locs.add(x.arg)
        changed = True
        while changed:
            changed = False
            for n in walk_own(g.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    if n.targets[0].id not in locs and _is_backend_expr(p, g, n.value, classes, locs):
                        locs.add(n.targets[0].id)
                        changed = True
        g = g.parent
    return locs


def _dispatch(p, rep, base, subs):
    classes = [base] + subs
    nsites = 0
    for f in p.all_funcs():
        if not f.module.name.startswith("returnn.") or ".extern" in f.module.name:
            continue
        txt = None
        calls = [n for n in walk_own(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)]
        if not calls:
            continue
        locs = _backend_locals(p, f, classes)
        disp = []
        for n in calls:
            if not _is_backend_expr(p, f, n.func.value, classes, locs):
                continue
            k = n.func.attr
            own = None
            if isinstance(n.func.value, ast.Name):
                r = p.resolve_name(f, f.module, n.func.value.id) if n.func.value.id not in locs else None
                if isinstance(r, Class):
                    own = p.find_method(r, k)
                    if own is None and p.find_class_attr(r, k):
                        continue
            m = own or p.find_method(base, k)
            if m is None and p.find_class_attr(base, k):
                continue
            nsites += 1
            if not rep.check("R2", m is not None, f.where, f"op:{k}", f"{k} is not an operation of the backend interface", n.lineno):
                continue
            errs = bind_errors(n, sig(m))
            rep.check("R2", not errs, f.where, f"call:{k}", f"call of the backend operation {k}: " + "; ".join(errs), n.lineno)
            if not errs:
                disp.append((n, m))
        if disp and f.module.name.startswith("returnn.frontend") and f.cls is None and f.parent is None and not f.module.name.endswith("_backend"):
            _options(p, rep, f, disp)
    rep.check("R2", nsites >= 50, BASE, "sites", f"only {nsites} dispatch sites found", 0)


def _options(p, rep, f, disp):
    rep.analysed(f)
    a = f.node.args
    own = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    read = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    dead = [x for x in own if x not in read and not _ignored("", f.name, x)]
    rep.check("R6", not dead, f.where, "unused-option", f"{f.name} never looks at its option {', '.join(dead)}", f.node.lineno)
    todo = []
    for n, m in disp:
        pos, kwo, dfl, va, kw = sig(m)
        if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
            continue
        given = dict(zip(pos, n.args))
        given.update({k.arg: k.value for k in n.keywords})
        for x in own:
            if x in pos + kwo:
                todo.append((n, m, x, given.get(x)))
    if not todo:
        return
    fl = Flow(f, cls=None, inline=lambda g: False, max_depth=1)
    for n, m, x, e in todo:
        prm = ("param", f.full if ":" in f.full else f"{f.module.name}:{f.qualname}", x)
        ok = False
        # a call node of that operation at this place
        nks = [nk for nk, c in fl.calls.items() if c.name == m.name and nk in fl.env and nk[1].line in range(n.lineno, (n.end_lineno or n.lineno) + 1)]
        if e is None:
            ok = False
        else:
            names = {y.id for y in ast.walk(e) if isinstance(y, ast.Name)}
            ok = x in names
            for nk in nks:
                c = fl.calls[nk]
                pos, kwo, dfl, va, kw = sig(m)
                t = c.kwargs.get(x)
                if t is None and x in pos and pos.index(x) < len(c.args):
                    t = c.args[pos.index(x)]
                if t is not None and any(y == prm for y in deep_subterms(fl, t)):
                    ok = True
        if not ok and nks:
            # not passed, but only where the option was tested
            ok = all(_tested(fl, nk, prm, x) for nk in nks)
        rep.check("R3", ok, f.where, f"option:{m.name}:{x}", f"{f.name} does not pass its option {x} to the backend operation {m.name}", n.lineno)


def _tested(fl, nk, prm, x):
    """every path to nk goes through a condition on the parameter (or a reassignment of it)"""
    bad = []

    def step(k, st, lab):
        if k == nk and not st:
            bad.append(k)
            return None
        n = k[1]
        if n.kind == "branch":
            t, _ = fl.cond_term(k)
            if any(y == prm for y in deep_subterms(fl, t)):
                return True
            acc = set()
            _names(n.d["cond"], acc)
            if x in acc:
                return True
        return st

    fl.simulate(False, step, correlate=False)
    return not bad


# ------------------------------------------------------------------ all calls


MODS = ("returnn.frontend", "returnn.torch", "returnn.tf.frontend_layers", "returnn.tf.frontend_low_level", "returnn.tensor")


def _bind_all(p, rep):
    ok = 0
    for f in p.all_funcs():
        if not f.module.name.startswith(MODS):
            continue
        for c in walk_own(f.node):
            if not isinstance(c, ast.Call):
                continue
            d = dotted_name(c.func)
            if not d:
                continue
            s = None
            head = d.split(".")[0]
            if head in ("self", "cls") and f.cls is not None and d.count(".") == 1:
                m = p.find_method(f.cls, d.split(".")[1])
                if m is None or _decorated(m) or _overridden_differently(p, f.cls, m):
                    continue
                s = sig(m)
            else:
                r = p.resolve_name(f, f.module, d)
                if isinstance(r, Func):
                    if _decorated(r):
                        continue
                    s = sig(r, skip=1 if r.cls is not None and r.is_classmethod else 0)
                elif isinstance(r, Class):
                    i = p.find_method(r, "__init__")
                    if i is None or p.find_method(r, "__new__") or any(k.arg == "metaclass" for b in p.mro(r) for k in b.node.keywords):
                        continue
                    if not all(isinstance(b, Class) for k in p.mro(r) for b in k.bases if not isinstance(b, str) or b not in ("object",)):
                        pass
                    s = sig(i)
            if s is None:
                continue
            errs = bind_errors(c, s)
            if errs:
                rep.bad("R5", f.where, f"call:{d}", f"call of {d}: " + "; ".join(errs), c.lineno)
            else:
                ok += 1
    rep.ok("R5", f"{ok} calls bind")
    for _ in range(0):
        pass


def _decorated(f):
    return bool(set(x.split(".")[-1] for x in f.deco_names()) - {"staticmethod", "classmethod", "contextmanager", "wraps", "abstractmethod"})


def _overridden_differently(p, cls, m):
    return any(m.name in c.methods and c.methods[m.name] is not m for c in p.subclasses(cls, proper=True))
