"""
C09 native code compiler cache: used only if up-to-date, built under its lock, recorded only after success.
"""

from __future__ import annotations
import ast
from ..flow import Flow, alts, fmt, subterms
from ..project import walk_own, dotted_name
from .common import is_call_to, method_closure, self_attr_loads, self_name, strings_in

BASE = "returnn.util.native_code_compiler.NativeCodeCompiler"
REQUIRED = ("code_version", "code_hash", "c_macro_defines", "ld_flags", "compiler_bin", "platform")
# constructor settings which do not change what is compiled (documented in the property)
NEUTRAL = {"verbose", "_log_stream", "cache_dir", "base_name", "static_version_name", "_include_paths", "_should_cleanup_old_mydir", "_ctypes_lib", "include_deps"}


def check(p, rep):
    rep.rule("R1", "a library is used without compiling only if it exists, its record exists and every relevant key and dependency was compared")
    rep.rule("R2", "every constructor setting that reaches the compiled code or the compiler command is part of the compared key")
    rep.rule("R3", "compilation happens only while holding the lock of the cache entry, after re-checking under the lock")
    rep.rule("R4", "the record is absent while compiling and published atomically only after the compiler succeeded")
    rep.rule("R5", "a library is loaded only after the up-to-date check")
    rep.assumptions += [
        "include paths are not part of the key (only the dependencies in include_deps, by mtime); the compiler itself is deterministic",
    ]
    base = p.get_class(BASE)
    if base is None:
        rep.errors.append("NativeCodeCompiler not found")
        return
    classes = [base] + sorted(p.subclasses(base), key=lambda k: k.name)
    for k in classes:
        check_flow(p, rep, k, base)
        check_keys(p, rep, k, base)
        check_load(p, rep, k, base)
    # no use of the library path from outside
    fam = set(classes)
    for f in p.all_funcs():
        if f.cls in fam:
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Attribute) and n.attr == "_so_filename":
                rep.bad("R5", f.where, "_so_filename", "the library path is used without the up-to-date check", n.lineno)


def refers(t, *attrs):
    return any((s[0] == "attr" and s[2] in attrs) for s in subterms(t))


def check_flow(p, rep, k, base):
    mc = p.find_method(k, "_maybe_compile")
    if mc is None:
        rep.bad("R1", k.module.relpath + ":" + k.name, "_maybe_compile", "the up-to-date check is missing")
        return
    fam = set(p.mro(k))
    keep = {"_make_info_dict", "_load_info", "_get_compiler_bin", "_transform_compiler_opts", "_extra_common_opts", "_transform_ld_flag", "_with_cuda", "_cleanup_old"}
    fl = Flow(mc, cls=k, inline=lambda g: g.cls in fam and g.name not in keep)
    where = mc.where + ("" if k is base else f" [{k.name}]")

    def old_info(t):
        return any(is_call_to(s, "_load_info") for s in subterms(t)) or refers(t, "_info_filename")

    def new_info(t):
        return any(is_call_to(s, "_make_info_dict") for s in subterms(t)) or refers(t, "_info_dict")

    def is_so(t):
        return any(a[0] == "attr" and a[2] == "_so_filename" for a in alts(t))

    def is_info(t):
        return any(a[0] == "attr" and a[2] == "_info_filename" for a in alts(t))

    def keys_iter(t):
        return refers(t, "_relevant_info_keys")

    bad = set()

    def viol(rule, where_, construct, msg, line):
        if (rule, construct) not in bad:
            bad.add((rule, construct))
            rep.bad(rule, where_, construct, msg, line, fl.witness())

    def lock_term(t):
        return any(is_call_to(a, "LockFile") and refers(a, "_mod_path") for a in alts(t))

    FACTS = {"so", "info", "keys", "deps"}
    ev = {"compile": 0}

    def key_eq(t):
        return t[0] == "cmp" and t[1] == "Eq" and ((old_info(t[2]) and new_info(t[3])) or (old_info(t[3]) and new_info(t[2])))

    def dep_cmp(t):
        return t[0] == "cmp" and t[1] == "Lt" and refers(t, "include_deps") and refers(t, "_so_filename")

    def comp_says(t, val, what):
        """any(<or of not ok>)=False / all(<and of ok>)=True over the whole collection"""
        if not is_call_to(t, "any", "all") or len(t[2]) != 1:
            return False
        isany = is_call_to(t, "any")
        if val == isany:
            return False
        ok = False
        for a in alts(t[2][0]):
            if a[0] != "comp" or a[3]:
                continue
            for e in a[2]:
                from ..flow import norm_cond, implied_atoms

                x, pol = norm_cond(e)
                # the element's truth value: for any it is False for each, for all True
                v = (not isany) == pol
                for at, av in implied_atoms(x, v):
                    if what(at, av):
                        ok = True
        return ok

    def step(nk, st, lab):
        n = nk[1]
        if n.kind == "enter" and lab != "exc" and lock_term(fl.term(nk, n.d["value"])):
            return (st | {"lock"}) - FACTS - {"rechecked"}
        if n.kind == "exitwith" and lock_term(fl.term(nk, n.d["value"])):
            return st - {"lock"}
        if n.kind == "iter":
            it = fl.term(nk, n.d["iter"])
            for nm, cond in (("keys", keys_iter(it)), ("deps", refers(it, "include_deps"))):
                if cond and not n.d.get("comp"):
                    if lab == "iter":
                        if "pend:" + nm in st:
                            st = st | {"skip:" + nm}
                        st = st | {"pend:" + nm}
                    elif lab == "done":
                        if "pend:" + nm in st:
                            st = st | {"skip:" + nm}
                        if "skip:" + nm not in st:
                            st = st | {nm}
                        st = st - {"pend:" + nm, "skip:" + nm}
            return st
        if n.kind in ("return", "raise"):
            return st - {"pend:keys", "pend:deps", "skip:keys", "skip:deps"}
        cc = fl.calls.get(nk)
        if cc is None or nk in fl.inlined:
            return st
        e = cc.ext()
        w = cc.frame.func.where
        if cc.name in ("lock", "unlock") and cc.recv is not None and lock_term(cc.recv) and lab != "exc":
            return (st | {"lock"}) - FACTS if cc.name == "lock" else st - {"lock"}
        if e in ("os.remove", "os.unlink") and is_info(cc.args[0]):
            # FileNotFoundError: absent as well
            return st | {"noinfo"}
        if e == "shutil.rmtree" and refers(cc.args[0], "_mod_path") and lab != "exc":
            return (st | {"noinfo"}) - FACTS
        compiles = (e or "").startswith("subprocess.") and cc.name in ("Popen", "run", "call", "check_call", "check_output") or cc.name == "Popen"
        writes_src = e in ("open", "io.open") and any(a[0] == "attr" and a[2] == "_c_filename" for a in alts(cc.args[0]))
        if compiles or writes_src:
            ev["compile"] += compiles
            if "lock" not in st:
                viol("R3", w, "unlocked", "native code is compiled without holding the lock of its cache entry", cc.line)
            if "rechecked" not in st:
                viol("R3", w, "no-recheck", "native code is compiled without re-checking under the lock whether it is still needed", cc.line)
            if compiles:
                if "noinfo" not in st:
                    viol("R4", w, "record-present", "a record from before can exist while the library is rewritten: an interrupted compilation would count as valid", cc.line)
                if cc.name in ("check_call", "check_output") and lab != "exc":
                    return (st - FACTS) | {"rc0"}
                if cc.name == "run" and cc.kwargs.get("check") == ("c", True) and lab != "exc":
                    return (st - FACTS) | {"rc0"}
                return st - FACTS - {"rc0"}
            return st
        if e in ("open", "io.open") and cc.args and lab != "exc":
            m = cc.arg(1, "mode") or ("c", "r")
            if any(x in str(m[1]) for x in "wax+") and refers(cc.args[0], "_info_filename"):
                if is_info(cc.args[0]):
                    viol("R4", w, "non-atomic", "the record is written in place: an interrupted or concurrent read sees a partial record", cc.line)
                    if "rc0" not in st:
                        viol("R4", w, "record-early", "the record is written although the compiler did not succeed", cc.line)
                    return st | {"saved"}
        if e in ("os.rename", "os.replace", "shutil.move") and lab != "exc" and len(cc.args) > 1 and is_info(cc.args[1]):
            if "rc0" not in st:
                viol("R4", w, "record-early", "the record is published although the compiler did not succeed", cc.line)
            return st | {"saved"}
        return st

    def hook(nk, st, t, val):
        if is_call_to(t, "exists", "isfile") and t[2]:
            if is_so(t[2][0]):
                return st | ({"so", "rechecked"} if "lock" in st and val else {"so"} if val else {"rechecked"} if "lock" in st else set())
            if is_info(t[2][0]) and not val:
                return st | {"noinfo"}
        if key_eq(t):
            if val:
                return st - {"pend:keys"}
            return st | {"rechecked"} if "lock" in st else st
        if t[0] == "cmp" and t[1] == "Eq" and any(x[0] == "comp" for y in t[2:4] for x in alts(y)) and keys_iter(t) and val:
            return st | {"keys"}
        if dep_cmp(t):
            # dep_mtime < so_mtime ... : ok iff not (so < dep)
            so_first = refers(t[2], "_so_filename") and not refers(t[3], "_so_filename")
            if so_first and not val or (not so_first and val):
                return st - {"pend:deps"}
            return st
        if comp_says(t, val, lambda a, v: key_eq(a) and v) and True:
            return st | {"keys"}
        if comp_says(t, val, lambda a, v: dep_cmp(a) and (not v if refers(a[2], "_so_filename") else v)):
            return st | {"deps"}
        if t[0] == "attr" and t[2] == "include_deps" and not val:
            return st | {"deps"}
        if t[0] == "cmp" and t[1] == "Is" and ("c", None) in t[2:4] and any(x[0] == "attr" and x[2] == "include_deps" for x in t[2:4]) and val:
            return st | {"deps"}
        if (old_info(t) and not new_info(t)) and t[0] in ("call", "phi", "attr") and val:
            return st | {"info"}
        if t[0] == "cmp" and t[1] == "Is" and ("c", None) in t[2:4] and old_info(t) and not val:
            return st | {"info"}
        if any(s[0] == "attr" and s[2] == "returncode" or is_call_to(s, "wait", "poll", "call") for s in subterms(t)):
            if t[0] == "cmp" and t[1] == "Eq" and ("c", 0) in t[2:4]:
                return st | {"rc0"} if val else st - {"rc0"}
            if t[0] == "attr" and not val:
                return st | {"rc0"}
        return st

    def end(nk, st, lab):
        if nk[1].kind != "exit":
            return
        if {"so", "info", "keys", "deps"} <= st or {"rc0", "saved"} <= st:
            return
        miss = sorted({"so", "info", "keys", "deps"} - st)
        names = {"so": "existence of the library", "info": "existence of the record", "keys": "all relevant keys", "deps": "modification of dependencies"}
        viol("R1", mc.where, "stale:" + ",".join(miss), f"a library can be used although it was neither compiled nor fully checked (unchecked: {', '.join(names[m] for m in miss)})", mc.node.lineno)

    n = fl.simulate(frozenset(), step, on_end=end, cond_hook=hook)
    rep.flow(fl, n)
    if not ev["compile"]:
        rep.bad("R1", where, "no-compile", "no path compiles the code")
    for r in ("R1", "R3", "R4"):
        if not any(b[0] == r for b in bad):
            rep.ok(r, where)


def class_tuple(p, k, name):
    """evaluate a class-level tuple of strings incl. Base.name + (...)"""
    for c in p.mro(k):
        for n in c.node.body:
            tg = None
            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                tg = n.targets[0]
            elif isinstance(n, ast.AnnAssign):
                tg = n.target
            if isinstance(tg, ast.Name) and tg.id == name and n.value is not None:
                return ev_tuple(p, c, n.value, name)
    return None


def ev_tuple(p, c, e, name):
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        res = set()
        for x in e.elts:
            if isinstance(x, ast.Constant):
                res.add(x.value)
            elif isinstance(x, ast.Starred):
                res |= ev_tuple(p, c, x.value, name) or set()
        return res
    if isinstance(e, ast.BinOp):
        return (ev_tuple(p, c, e.left, name) or set()) | (ev_tuple(p, c, e.right, name) or set())
    if isinstance(e, ast.Attribute) and e.attr == name:
        for b in p.mro(c)[1:]:
            r = class_tuple(p, b, name)
            if r is not None:
                return r
    if isinstance(e, ast.Name):
        for n in c.node.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == e.id:
                return ev_tuple(p, c, n.value, name)
        # module-level constant
        for n in c.module.tree.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == e.id:
                return ev_tuple(p, c, n.value, name)
    if isinstance(e, ast.Call) and e.args:
        return ev_tuple(p, c, e.args[0], name)
    return None


def info_values(p, k):
    """key -> (value expr, method) of _make_info_dict incl. bases"""
    res = {}
    for c in reversed(p.mro(k)):
        m = c.methods.get("_make_info_dict")
        if m is None:
            continue
        # only if super is called (or first)
        for n in ast.walk(m.node):
            if isinstance(n, ast.Dict):
                for a, b in zip(n.keys, n.values):
                    if isinstance(a, ast.Constant):
                        res[a.value] = (b, m)
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].slice, ast.Constant):
                res[n.targets[0].slice.value] = (n.value, m)
            elif isinstance(n, ast.Call) and (dotted_name(n.func) or "").split(".")[-1] in ("update", "dict"):
                for kw in n.keywords:
                    if kw.arg:
                        res[kw.arg] = (kw.value, m)
    return res


def check_keys(p, rep, k, base):
    where = f"{k.module.relpath}:{k.name}"
    keys = class_tuple(p, k, "_relevant_info_keys")
    if keys is None:
        rep.bad("R2", where, "keys", "the compared keys cannot be determined: they must be a class-level tuple")
        return
    vals = info_values(p, k)
    for r in REQUIRED:
        rep.check("R2", r in keys, where, f"key {r}", f"{r!r} is not compared when deciding whether the library is up-to-date", k.node.lineno)
    for r in sorted(keys):
        rep.check("R2", r in vals, where, f"value {r}", f"key {r!r} has no recorded value", k.node.lineno)
    # every key recorded by this class itself is compared (except descriptive ones of the base)
    own = k.methods.get("_make_info_dict")
    if own is not None and k is not base:
        for r, (e, m) in vals.items():
            if m is own:
                rep.check("R2", r in keys, where, f"own key {r}", f"{k.name} records {r!r} but does not compare it", e.lineno)
    # constructor settings
    inits = [c.methods["__init__"] for c in p.mro(k) if "__init__" in c.methods]
    adefs = {}
    for i in inits:
        ps = set(i.param_names())
        for n in ast.walk(i.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self_name(i):
                        adefs.setdefault(t.attr, []).append((n.value, i, ps))
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute):
                adefs.setdefault(n.target.attr, []).append((n.value, i, ps))

    def from_params(attr):
        return any(isinstance(x, ast.Name) and x.id in ps and x.id != "self" for e, i, ps in adefs.get(attr, []) for x in ast.walk(e))

    keyfuncs = {"_save_info", "_need_recompile", "_load_info", "_make_info_dict", "_make_hash", "_make_code_hash"}
    inner = p.find_method(k, "_maybe_compile_inner")
    if inner is None:
        return
    used = set()
    seen = []
    todo = [inner]
    while todo:
        f = todo.pop()
        if f is None or f in seen or f.name in keyfuncs:
            continue
        seen.append(f)
        for a, n in self_attr_loads(f):
            m = p.find_method(k, a)
            if m is not None:
                todo.append(m)
            else:
                used.add(a)
    rep.analysed(*seen)

    def attrs_of(e, f, depth=0, seen=None):
        seen = set() if seen is None else seen
        res = set()
        s = self_name(f)
        for x in ast.walk(e):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == s and x.attr not in seen:
                seen.add(x.attr)
                res.add(x.attr)
                m = p.find_method(k, x.attr)
                if m is not None:
                    res |= attrs_of(m.node, m, depth + 1, seen)
                for e2, i2, _ in adefs.get(x.attr, []):
                    if any(isinstance(y, ast.Call) for y in ast.walk(e2)):
                        res |= attrs_of(e2, i2, depth + 1, seen)
            elif isinstance(x, ast.Name) and x.id != s and depth < 6 and isinstance(x.ctx, ast.Load):
                # local variable: all its definitions
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in n.targets) and n.value is not e and ("loc", f, x.id) not in seen:
                        seen.add(("loc", f, x.id))
                        res |= attrs_of(n.value, f, depth + 1, seen)
        return res

    keyed = set()
    for r in keys:
        if r in vals:
            e, m = vals[r]
            keyed |= attrs_of(e, m)
    for a in sorted(used):
        if a in NEUTRAL or not from_params(a) or a.startswith("__"):
            continue
        rep.check("R2", a in keyed, where, f"setting {a}", f"constructor setting {a!r} influences the compiled library but not the compared key", k.node.lineno)
    # values are complete: list-like / dict-like settings are recorded as they are
    for r, a in (("c_macro_defines", "c_macro_defines"), ("ld_flags", "ld_flags"), ("code_version", "code_version")):
        if r in vals and r in keys:
            rep.check("R2", complete(vals[r][0], vals[r][1], a), where, f"complete {r}", f"only a part of {a!r} is recorded for key {r!r}", vals[r][0].lineno)
    # the hash covers the whole code
    if "code_hash" in vals and k is base:
        e, m = vals["code_hash"]
        ok = False
        for f in [m] + [p.find_method(k, a) for a in attrs_of(e, m) if p.find_method(k, a)]:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and (dotted_name(n.func) or "").split(".")[-1] in ("update", "md5", "sha1", "sha256", "blake2b", "sha512"):
                    for x in n.args:
                        if complete(x, f, "code"):
                            ok = True
        rep.check("R2", ok, where, "complete code", "the recorded hash does not cover the whole code", e.lineno)


def complete(e, f, attr, depth=0):
    """e is self.<attr> or an injective function of it"""
    s = self_name(f)
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == s:
        return e.attr == attr or depth == 0 and e.attr.strip("_") == attr.strip("_")
    if isinstance(e, ast.Call):
        fn = (dotted_name(e.func) or "").split(".")[-1] or (e.func.attr if isinstance(e.func, ast.Attribute) else "")
        if isinstance(e.func, ast.Attribute) and fn in ("encode", "copy", "items"):
            return complete(e.func.value, f, attr, depth + 1)
        if fn in ("tuple", "list", "dict", "str", "repr", "better_repr", "deepcopy") and e.args:
            return complete(e.args[0], f, attr, depth + 1)
        if fn == "sorted" and len(e.args) == 1 and isinstance(e.args[0], ast.Call) and isinstance(e.args[0].func, ast.Attribute) and e.args[0].func.attr == "items":
            return complete(e.args[0].func.value, f, attr, depth + 1)
        return False
    if isinstance(e, ast.Name) and depth < 5:
        ds = [n.value for n in ast.walk(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        return bool(ds) and all(complete(d, f, attr, depth + 1) for d in ds)
    if isinstance(e, (ast.List, ast.Tuple)) and len(e.elts) == 1 and isinstance(e.elts[0], ast.Starred):
        return complete(e.elts[0].value, f, attr, depth + 1)
    return False


def check_load(p, rep, k, base):
    internal = {"_maybe_compile", "_maybe_compile_inner", "_need_recompile", "_so_filename", "_save_info", "_load_info"}
    closure = {m.name for m in method_closure(p, k, ["_maybe_compile"])}
    for m in sorted(k.methods.values(), key=lambda x: x.name):
        if m.name in internal or m.name in closure:
            continue
        if not any(a == "_so_filename" for a, _ in self_attr_loads(m)):
            continue
        fl = Flow(m, cls=k)
        bad = []

        def uses(nk):
            n = nk[1]
            cc = fl.calls.get(nk)
            if cc is not None:
                return any(refers(a, "_so_filename") for a in list(cc.args) + list(cc.kwargs.values()))
            if n.kind == "return" and n.d.get("value") is not None:
                return any(a[0] == "attr" and a[2] == "_so_filename" for a in alts(fl.term(nk, n.d["value"])))
            return False

        def step(nk, st, lab):
            cc = fl.calls.get(nk)
            if cc is not None and cc.name == "_maybe_compile" and lab != "exc":
                return True
            if not st and uses(nk) and not bad:
                bad.append(nk)
                rep.bad("R5", m.where, "use", "the library is used without the up-to-date check", nk[1].line, fl.witness())
            return st

        n = fl.simulate(False, step)
        rep.flow(fl, n)
        if not bad:
            rep.ok("R5", m.where)
