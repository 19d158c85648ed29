"""
C08 file cache: complete, current copies only, created under the lock, kept alive while in use.
"""

from __future__ import annotations
import ast
from ..flow import Flow, alts, fmt, subterms, lin_parts, cat_parts, implied_atoms
from ..project import walk_own
from .common import is_call_to, return_terms, content_map, deep_subterms

CACHE = "returnn.util.file_cache.FileCache"
LOCK = "returnn.util.basic.LockFile"
COPY = ("copyfileobj", "copyfile", "copy", "copy2", "sendfile")


def has(t, sub):
    return any(s == sub for s in subterms(t))


def check(p, rep):
    rep.rule("R1", "the cached file and its info are created only while holding the lock of the destination, after re-checking validity under it")
    rep.rule("R2", "get_file returns a path only if under the lock it was found valid (size equal, recorded mtime not older) or completely copied and renamed in place")
    rep.rule("R3", "the recorded mtime is the one of the source from before copying, and never written while a stale copy exists")
    rep.rule("R4", "the renamed temporary file is completely written, truncated to its size and closed")
    rep.rule("R5", "the lock file is kept alive during copying, the returned file and its info are kept alive after")
    rep.rule("R6", "cleanup removes only entries found older than a threshold above the keep-alive interval")
    rep.rule("R7", "an attempt that succeeded is not reported as failure")
    rep.rule("R8", "keep-alive counts its users, refreshes all registered files each interval, and scoped registrations end on every exit")
    rep.assumptions += [
        "os.rename is atomic within the cache file system",
        "mtime of the cache file system compares to time.time() (documented assumption of the cache)",
        "num_tries > 0 (asserted by the constructor)",
    ]
    c = p.get_class(CACHE)
    get = c and p.find_method(c, "get_file")
    if get is None:
        rep.errors.append("FileCache.get_file not found")
        return
    mod = get.module
    thr = next((k for k in mod.classes.values() if any(b.split(".")[-1] == "Thread" for b in base_names(k))), None)
    adders, ctx_adders, removers = thread_roles(thr)

    inline = lambda g: g.module is mod and g.name != "cleanup" and not (thr is not None and g.cls is thr)
    fl = Flow(get, cls=c, inline=inline)
    src = ("param", get.full, get.param_names()[1])
    rts = {a for _, t in return_terms(fl) for a in alts(t)}
    if len(rts) != 1 or src in rts or not all(has(t, src) for t in rts):
        rep.bad("R2", get.where, "return", "get_file must return the cached path of the given source", get.node.lineno)
        return
    dst = next(iter(rts))

    def lock_term(t):
        return any(is_call_to(s, "LockFile") and has(s, dst) for s in alts(t))

    def mode_of(cc):
        m = cc.arg(1, "mode") or ("c", "r")
        return str(m[1]) if m[0] == "c" else "?"

    def open_of(t, path=None, write=None):
        """paths of open() calls in term alternatives"""
        res = []
        for a in alts(t):
            if a[0] == "call" and is_call_to(a, "open") and a[2]:
                m = a[2][1] if len(a[2]) > 1 else dict(a[3]).get("mode", ("c", "r"))
                w = m[0] != "c" or any(x in str(m[1]) for x in "wax+")
                if write is None or w == write:
                    res.append(a[2][0])
        return res

    def is_mtime_src(t):
        return any(s[0] == "attr" and s[2].startswith("st_mtime") and any(is_call_to(q, "stat") and src in q[2] for q in subterms(s)) for s in subterms(t)) or any(
            is_call_to(s, "getmtime") and src in s[2] for s in subterms(t)
        )

    def size_of(t, path):
        return any(s[0] == "attr" and s[2] == "st_size" and s[1][0] == "call" and is_call_to(s[1], "stat", "lstat") and s[1][2] == (path,) for s in alts(t)) or any(
            is_call_to(s, "getsize") and s[2] == (path,) for s in alts(t)
        )

    def recorded(t):
        """value read from a file beside dst"""
        return any(
            is_call_to(s, "open") and s[2] and s[2][0] != dst and has(s[2][0], dst) for s in subterms(t)
        )

    info_reads = {s[2][0] for nk in fl.env if nk[1].kind == "branch" for s in subterms(fl.cond_term(nk)[0]) if is_call_to(s, "open") and s[2] and s[2][0] != dst and has(s[2][0], dst)}
    info_reads |= {a for nk, cc in fl.calls.items() if cc.ext() in ("open", "io.open") and cc.args and mode_of(cc).startswith("r") for a in alts(cc.args[0]) if a != dst and a != src and has(a, dst)}

    def is_info(t):
        return any(a in info_reads for a in alts(t))

    bad = set()

    def viol(rule, cc_where, construct, msg, line):
        k = (rule, construct)
        if k not in bad:
            bad.add(k)
            rep.bad(rule, cc_where, construct, msg, line, fl.witness())

    n_events = {"create": 0, "rename": 0}
    GOOD = {"size", "mtime", "renamed", "info"}

    def good(st):
        return {"size", "mtime"} <= st or {"renamed", "info"} <= st

    def step(nk, st, lab):
        n = nk[1]
        if n.kind == "enter" and lab != "exc":
            v = fl.term(nk, n.d["value"])
            if lock_term(v):
                return (st - GOOD - {"gone", "copied", "pre", "openw", "latestat", "checked"}) | {"lock"}
            if any(is_call_to(a, *ctx_adders) and any(s[0] == "attr" and lock_term(s[1]) for s in subterms(a)) for a in alts(v)):
                return st | {"kalock"}
            if open_of(v, write=True) and any(x != dst and not is_info(x) for x in open_of(v, write=True)):
                return st | {"openw"}
            return st
        if n.kind == "exitwith":
            v = fl.term(nk, n.d["value"])
            if lock_term(v):
                return st - {"lock"}
            if any(is_call_to(a, *ctx_adders) for a in alts(v)) and any(s[0] == "attr" and lock_term(s[1]) for s in subterms(v)):
                return st - {"kalock"}
            if open_of(v, write=True) and any(not is_info(x) for x in open_of(v, write=True)):
                return st - {"openw"}
            return st
        if n.kind == "except":
            return st - GOOD - {"copied"}
        if n.kind == "iter" and lab == "done" and nk[0] is fl.root and "iterated" not in st:
            it = fl.term(nk, n.d["iter"])
            if is_call_to(it, "range"):
                return None
        if n.kind == "iter" and lab == "iter" and nk[0] is fl.root:
            return st | {"iterated"}
        if n.kind == "raise" and nk[0] is fl.root and good(st):
            viol("R7", get.where, "raise-after-success", "get_file raises although the last attempt succeeded", n.line)
            return st
        cc = fl.calls.get(nk)
        if cc is None or nk in fl.inlined:
            return st
        e = cc.ext()
        where = cc.frame.func.where
        if cc.name in ("lock", "unlock") and cc.recv is not None and lock_term(cc.recv) and lab != "exc":
            return (st - GOOD) | {"lock"} if cc.name == "lock" else st - {"lock"}
        if cc.name in adders and cc.recv is not None and lab != "exc" and cc.args:
            d = deep_subterms(fl, cc.args[0])
            if dst in d:
                st = st | {"ka_dst"}
            if d & info_reads:
                st = st | {"ka_info"}
            return st
        if e in ("os.stat", "os.path.getmtime") and cc.args == (src,) or (e in ("os.stat", "os.path.getmtime") and list(cc.args) == [src]):
            if "copied" in st and "info" not in st:
                return st | {"latestat"}
            return st
        if e in ("open", "io.open") and any(x in mode_of(cc) for x in "wax+"):
            pth = cc.args[0]
            if dst in alts(pth):
                viol("R4", where, "direct-write", "the cached file is written in place instead of via a temporary file", cc.line)
            if has(pth, dst):
                n_events["create"] += 1
                if "lock" not in st:
                    viol("R1", where, "unlocked-write", f"a file of the cache entry is created without holding its lock: {fmt(pth)}", cc.line)
                if not is_info(pth):
                    return st - {"copied", "pre"}
                if lab != "exc":
                    if not ({"gone", "renamed"} & st):
                        viol("R3", where, "info-stale", "the info file is written while a stale copy may still exist", cc.line)
            return st
        if cc.name == "write" and cc.recv is not None and any(is_info(x) for x in open_of(cc.recv, write=True)) and lab != "exc":
            if not is_mtime_src(cc.args[0]) or "latestat" in st:
                viol("R3", where, "info-mtime", "the recorded info is not the mtime of the source from before copying", cc.line)
            return st | {"info"}
        if lab == "exc":
            return st
        if e == "json.dump" or cc.name == "dump":
            if len(cc.args) > 1 and any(is_info(x) for x in open_of(cc.args[1], write=True)):
                if not is_mtime_src(cc.args[0]) or "latestat" in st:
                    viol("R3", where, "info-mtime", "the recorded info is not the mtime of the source from before copying", cc.line)
                return st | {"info"}
        if cc.name in ("posix_fallocate",) or (cc.name == "seek" and cc.args and cc.args[0] != ("c", 0) and cc.recv is not None and open_of(cc.recv, write=True)):
            return st | {"pre"}
        if cc.name in ("truncate", "ftruncate"):
            a = cc.args[-1] if cc.args else None
            if a is not None and size_of(a, src):
                return st - {"pre"}
            viol("R4", where, "truncate", "the temporary file is not truncated to the size of the source", cc.line)
            return st
        if cc.name in COPY and cc.args and any(has(a, src) for a in cc.args[:1]) and len(cc.args) > 1 and has(cc.args[1], dst):
            if "kalock" not in st:
                viol("R5", where, "lock-keepalive", "the lock file is not kept alive while copying", cc.line)
            if "lock" not in st:
                viol("R1", where, "unlocked-copy", "the file is copied without holding the lock", cc.line)
            if "checked" not in st:
                viol("R1", where, "no-recheck", "the file is copied without having checked under the lock whether it is still needed", cc.line)
            if len(cc.args) > 2 or cc.kwargs.get("count") is not None:
                if cc.name == "sendfile":
                    pass
            return st | {"copied"}
        if e in ("os.rename", "os.replace", "shutil.move") and len(cc.args) > 1 and dst in alts(cc.args[1]):
            n_events["rename"] += 1
            if "lock" not in st:
                viol("R1", where, "unlocked-rename", "the cached file is put in place without holding its lock", cc.line)
            if "copied" not in st or "pre" in st or "openw" in st:
                why = "not copied" if "copied" not in st else "still preallocated" if "pre" in st else "still open"
                viol("R4", where, "incomplete-rename", f"the temporary file is put in place while it can be incomplete ({why})", cc.line)
            return (st | {"renamed"}) - {"gone", "size", "mtime"}
        if e in ("os.remove", "os.unlink") and dst in alts(cc.args[0]):
            if "lock" not in st:
                viol("R1", where, "unlocked-remove", "the cached file is removed without holding its lock", cc.line)
            return (st | {"gone", "checked"}) - GOOD
        return st

    def hook(nk, st, t, val):
        # size equality
        if t[0] == "cmp" and t[1] == "Eq" and ((size_of(t[2], src) and size_of(t[3], dst)) or (size_of(t[3], src) and size_of(t[2], dst))):
            return st | ({"size", "checked"} if val else {"checked"})
        if t[0] == "cmp" and t[1] == "Lt":
            # recorded < src is False  /  src < recorded is True
            if recorded(t[2]) and is_mtime_src(t[3]) and not recorded(t[3]):
                return st | ({"checked"} if val else {"mtime", "checked"})
            if is_mtime_src(t[2]) and recorded(t[3]) and not recorded(t[2]):
                return st | ({"mtime", "checked"} if val else {"checked"})
        if t[0] == "cmp" and t[1] == "Eq" and ((recorded(t[2]) and is_mtime_src(t[3])) or (recorded(t[3]) and is_mtime_src(t[2]))):
            return st | ({"mtime", "checked"} if val else {"checked"})
        if is_call_to(t, "exists", "isfile", "lexists") and t[2] == (dst,) and not val:
            return (st | {"gone", "checked"}) - {"size", "mtime"}
        return st

    def end(nk, st, lab):
        if nk[1].kind != "exit":
            return
        if not good(st):
            miss = "neither found valid (size and recorded mtime) nor completely copied with its info recorded"
            viol("R2", get.where, "return-invalid", f"get_file can return a file that was {miss}", get.node.lineno)
        for k, what in (("ka_dst", "cached file"), ("ka_info", "info file")):
            if k not in st:
                viol("R5", get.where, k, f"get_file can return without the {what} being kept alive", get.node.lineno)

    n = fl.simulate(frozenset(), step, on_end=end, cond_hook=hook)
    rep.flow(fl, n)
    if n_events["rename"] == 0 and not bad:
        rep.bad("R2", get.where, "no-copy", "no path puts a completed copy in place", get.node.lineno)
    for r in ("R1", "R2", "R3", "R4", "R5", "R7"):
        if not any(k[0] == r for k in bad):
            rep.ok(r, f"{get.where}: all paths")
    # the info which is written is the one which is read
    writes = {a for nk, cc in fl.calls.items() if cc.ext() in ("open", "io.open") and cc.args and any(x in mode_of(cc) for x in "wax+") for a in alts(cc.args[0]) if is_info(a)}
    rep.check("R3", bool(info_reads) and bool(writes), get.where, "info-path", "the recorded mtime is read from a file which is never written", get.node.lineno)
    # other creators: only get_file's call tree creates files of the cache
    check_cleanup(p, rep, c, mod, thr)
    check_thread(p, rep, thr, adders, ctx_adders, removers, c)


def base_names(k):
    from ..project import dotted_name

    return [dotted_name(b) or "" for b in k.node.bases]


def thread_roles(thr):
    """names of methods which register / scoped-register / unregister files"""
    adders, ctx, rem = set(), set(), set()
    if thr is None:
        return adders, ctx, rem
    changed = True

    def direct(m, sign):
        for n in ast.walk(m.node):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Subscript) and isinstance(n.op, sign):
                return True
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) for t in n.targets):
                b = [x for x in ast.walk(n.value) if isinstance(x, ast.BinOp)]
                if sign is ast.Add and (not b or any(isinstance(x.op, ast.Add) for x in b)):
                    return True
                if sign is ast.Sub and any(isinstance(x.op, ast.Sub) for x in b):
                    return True
            if sign is ast.Sub and isinstance(n, ast.Delete) and any(isinstance(t, ast.Subscript) for t in n.targets):
                return True
        return False

    for m in thr.methods.values():
        if m.name in ("__init__", "run"):
            continue
        a, r = direct(m, ast.Add), direct(m, ast.Sub)
        if r:
            rem.add(m.name)
        elif a:
            adders.add(m.name)
    while changed:
        changed = False
        for m in thr.methods.values():
            if m.name in ("__init__", "run") or m.name in adders | ctx | rem:
                continue
            called = {n.func.attr for n in ast.walk(m.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}
            if called & adders and m.is_generator:
                ctx.add(m.name)
                changed = True
            elif called & adders:
                adders.add(m.name)
                changed = True
            elif called & rem:
                rem.add(m.name)
                changed = True
    return adders, ctx, rem


def numeric(p, cls, t):
    """value of a threshold term with default settings, or None"""
    if t[0] == "c" and isinstance(t[1], (int, float)):
        return t[1]
    if t[0] == "lin":
        s = t[1]
        for x, cf in t[2]:
            v = numeric(p, cls, x)
            if v is None:
                return None
            s += cf * v
        return s
    if t[0] == "attr" and t[1][0] == "self":
        for k in p.mro(cls):
            for n in k.node.body:
                if isinstance(n, (ast.Assign, ast.AnnAssign)):
                    tg = n.targets[0] if isinstance(n, ast.Assign) else n.target
                    if isinstance(tg, ast.Name) and tg.id == t[2] and isinstance(n.value, ast.Constant):
                        return n.value.value
        init = p.find_method(cls, "__init__")
        if init is not None:
            for n in ast.walk(init.node):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == t[2]:
                    if isinstance(n.value, ast.Constant):
                        return n.value.value
                    if isinstance(n.value, ast.Name):
                        d = init.default_of(n.value.id) if hasattr(init, "default_of") else default_of(init, n.value.id)
                        if isinstance(d, ast.Constant):
                            return d.value
    return None


def default_of(f, name):
    a = f.node.args
    ps = a.posonlyargs + a.args
    for x, d in zip(ps[len(ps) - len(a.defaults) :], a.defaults):
        if x.arg == name:
            return d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == name:
            return d
    return None


def check_cleanup(p, rep, c, mod, thr):
    interval = 1.0
    if thr is not None and p.find_method(thr, "__init__") is not None:
        d = default_of(p.find_method(thr, "__init__"), "interval")
        if isinstance(d, ast.Constant) and isinstance(d.value, (int, float)):
            interval = d.value
    REM = ("os.remove", "os.unlink", "os.rmdir", "shutil.rmtree")
    for m in sorted(c.methods.values(), key=lambda x: x.name):
        if m.name in ("get_file", "_copy_file_if_needed"):
            continue
        fl = Flow(m, cls=c, inline=lambda g: g.module is mod and g.cls in (c, None) and g.name not in ("get_file", "_copy_file_if_needed"))
        rems = {nk: cc for nk, cc in fl.calls.items() if cc.ext() in REM and cc.args and nk not in fl.inlined}
        params = {("param", m.full, x) for x in m.param_names()}
        # removing the (invalid) destination given as parameter is part of get_file's protocol, decided there
        rems = {nk: cc for nk, cc in rems.items() if not (alts(cc.args[0]) and all(a in params for a in alts(cc.args[0])))}
        if not rems:
            continue
        cm = content_map(fl)

        def same_entry(mt, path):
            """mt is the mtime of path"""
            paths = set(cat_parts(path)) | {path}
            base = cat_parts(path)
            # strip suffix constants
            while len(base) > 1 and base[-1][0] == "c":
                base = base[:-1]
            cand = [path] + ([base[0]] if len(base) == 1 else [("cat", tuple(base))])
            for q in cand:
                for s in subterms(mt):
                    if is_call_to(s, "stat", "lstat", "getmtime") and s[2] and s[2][0] == q:
                        return True
                    if s[0] == "attr" and s[1] == q and "mtime" in s[2]:
                        return True
                # tuple elements
                for s in subterms(mt):
                    if s[0] == "item" and q[0] == "item" and s[1] == q[1]:
                        e = s[1]
                        conts = cm.get(e[1], set()) if e[0] == "elem" else set()
                        if e[0] == "elem" and is_call_to(e[1], "sorted", "list", "reversed", "tuple"):
                            conts = set(conts) | cm.get(e[1][2][0], set())
                        for t in conts:
                            if t[0] in ("tup", "list") and len(t[1]) > max(s[2], q[2]):
                                if any(is_call_to(z, "stat", "lstat", "getmtime") and z[2] and z[2][0] == t[1][q[2]] for z in subterms(t[1][s[2]])) and "mtime" in repr(t[1][s[2]]):
                                    return True
            return False

        def older(t, val):
            """-> (mtime term, threshold term) if the condition says now - mtime > threshold"""
            if t[0] != "cmp" or t[1] != "Lt":
                return None
            a, b = (t[2], t[3]) if val else (t[3], t[2])
            k1, d1 = lin_parts(b)
            k2, d2 = lin_parts(a)
            d = dict(d1)
            for x, v in d2.items():
                d[x] = d.get(x, 0) - v
            k = k1 - k2
            now = [x for x, v in d.items() if v > 0 and any(is_call_to(z, "time") and not z[2] for z in alts(x))]
            if len(now) != 1:
                return None
            neg = [(x, v) for x, v in d.items() if v < 0]
            mts = [x for x, v in neg if v == -d[now[0]] and (any(is_call_to(z, "stat", "lstat", "getmtime") for z in subterms(x)) or any(z[0] in ("item", "elem") for z in subterms(x)))]
            rest = {x: -v for x, v in d.items() if x != now[0] and x not in mts[:1]}
            if not mts:
                return None
            from ..flow import mk_lin

            return mts[0], mk_lin(-k, rest)

        bad = set()

        def hook(nk, st, t, val):
            o = older(t, val)
            if o is None:
                return st
            v = numeric(p, c, o[1])
            if v is not None and v <= interval:
                return st
            return st | {o[0]}

        def step(nk, st, lab):
            n = nk[1]
            if n.kind == "iter" and lab == "iter":
                it = fl.term(nk, n.d["iter"])
                es = {("elem", a) for a in alts(it)} | {("elem", it)}
                st = frozenset(x for x in st if not any(s in es for s in subterms(x)))
            if nk in rems and nk not in bad and lab != "exc":
                cc = rems[nk]
                if not all(any(same_entry(x, a) for x in st) for a in alts(cc.args[0])):
                    bad.add(nk)
                    rep.bad("R6", cc.frame.func.where, f"remove {cc.name}", f"{fmt(cc.args[0])} is removed without having been found older than the in-use threshold", cc.line, fl.witness())
            return st

        n = fl.simulate(frozenset(), step, cond_hook=hook)
        rep.flow(fl, n)
        for nk, cc in rems.items():
            if nk not in bad:
                rep.ok("R6", f"{cc.frame.func.where}: {cc.name} only when old")
    # threshold vs lock timeout
    lt = numeric(p, c, ("attr", ("self", c.full if hasattr(c, "full") else ""), "_lock_timeout"))
    if lt is not None:
        rep.check("R6", lt > 2 * interval, f"{c.module.relpath}:FileCache._lock_timeout", "timeout", "the lock timeout must exceed the keep-alive interval")


def check_thread(p, rep, thr, adders, ctx_adders, removers, c):
    if thr is None or p.find_method(thr, "run") is None or not adders:
        rep.bad("R8", c.module.relpath, "thread", "there is no thread which keeps used files alive")
        return
    run = p.find_method(thr, "run")
    fl = Flow(run, cls=thr, inline=lambda g: g.cls is thr)
    # registry attribute
    reg = set()
    for nm in adders | removers:
        for n in ast.walk(thr.methods[nm].node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute):
                reg.add(n.value.attr)
    uts = [cc for cc in fl.calls.values() if cc.ext() in ("os.utime",) and cc.args]
    touched = [cc for cc in uts if any(s[0] == "attr" and s[2] in reg for s in deep_subterms(fl, cc.args[0]))]
    rep.check("R8", bool(touched), run.where, "touch", "the thread does not refresh the registered files", run.node.lineno)
    # never stops touching except when stop is set or an error is raised
    bad = set()
    waits = {nk: cc for nk, cc in fl.calls.items() if cc.name in ("wait", "sleep")}
    rep.check("R8", bool(waits) and all(any(s[0] == "attr" and "interval" in s[2] for a in list(cc.args) + list(cc.kwargs.values()) for s in subterms(a)) for cc in waits.values()), run.where, "interval", "the refresh interval is not the configured one", run.node.lineno)

    def step(nk, st, lab):
        cc = fl.calls.get(nk)
        if cc is not None and cc.ext() == "os.utime" and cc in touched and lab != "exc":
            return st | {"touched"}
        if nk in waits:
            if not ({"touched", "empty"} & st) and "w" not in bad:
                bad.add("w")
                rep.bad("R8", run.where, "skip", "an interval can pass without refreshing the registered files", waits[nk].line, fl.witness())
            return frozenset()
        if nk[1].kind == "iter" and lab == "done":
            return st | {"empty"}
        return st

    def hook(nk, st, t, val):
        if any(s[0] == "attr" and ("stop" in s[2]) for s in subterms(t)) and val:
            return st | {"stop"}
        return st

    def end(nk, st, lab):
        if nk[1].kind == "exit" and "stop" not in st and "e" not in bad:
            bad.add("e")
            rep.bad("R8", run.where, "ends", "the keep-alive thread can end without having been stopped", run.node.lineno, fl.witness())

    n = fl.simulate(frozenset(), step, on_end=end, cond_hook=hook)
    rep.flow(fl, n)
    if not bad:
        rep.ok("R8", f"{run.where}: refreshes each interval until stopped")

    # counting
    for nm in sorted(adders | removers):
        m = thr.methods[nm]
        f2 = Flow(m, cls=thr)
        for nk in f2.env:
            n_ = nk[1]
            if n_.kind == "assign" and n_.d["target"][0] == "sub":
                b = f2.term(nk, n_.d["target"][1])
                if any(a[0] == "attr" and a[2] in reg for a in alts(b)):
                    v = f2.term(nk, n_.d["value"])
                    ok = any(s[0] == "sub" and s[1][0] == "attr" and s[1][2] in reg for s in subterms(v)) or any(is_call_to(s, "get") for s in subterms(v))
                    rep.check("R8", ok, m.where, "count", "the number of users of a file is overwritten instead of counted", n_.line)
        if nm in removers:
            bad2 = set()
            dels = {nk for nk in f2.env if nk[1].kind == "del" and nk[1].d["target"][0] == "sub"} | {nk for nk, cc in f2.calls.items() if cc.name == "pop" and cc.recv is not None and any(s[0] == "attr" and s[2] in reg for s in subterms(cc.recv))}

            def hook2(nk, st, t, val):
                if t[0] == "cmp" and t[1] in ("Lt", "Eq") and any(x[0] == "c" and isinstance(x[1], int) for x in t[2:4]):
                    if any(s[0] == "sub" and s[1][0] == "attr" and s[1][2] in reg for s in subterms(t)):
                        return True
                if t[0] in ("sub", "lin", "phi") and not val and any(s[0] == "sub" and s[1][0] == "attr" and s[1][2] in reg for s in subterms(t)):
                    return True
                return st

            def step2(nk, st, lab):
                if nk[1].kind == "iter":
                    return False
                if nk in dels and not st and "d" not in bad2:
                    bad2.add("d")
                    rep.bad("R8", m.where, "unregister", "a file is unregistered regardless of its remaining users", nk[1].line, f2.witness())
                return st

            if dels:
                f2.simulate(False, step2, cond_hook=hook2)
                if not bad2:
                    rep.ok("R8", f"{m.where}: unregisters only at zero users")
            rep.flow(f2)
        # registration starts the thread
        if nm in adders:
            f3 = Flow(m, cls=thr, inline=lambda g: g.cls is thr)
            starts = [cc for cc in f3.calls.values() if cc.name == "start"]
            rep.check("R8", bool(starts), m.where, "start", "registering a file does not start the keep-alive thread", m.node.lineno)
    # scoped registration
    for nm in sorted(ctx_adders):
        m = thr.methods[nm]
        f2 = Flow(m, cls=thr)
        bad3 = set()

        def step3(nk, st, lab):
            cc = f2.calls.get(nk)
            if cc is not None and lab != "exc" and cc.name in adders:
                return True
            if cc is not None and cc.name in removers:
                return False
            return st

        def end3(nk, st, lab):
            if st and "x" not in bad3:
                bad3.add("x")
                rep.bad("R8", m.where, "scope", "the scoped keep-alive registration is not ended on every exit", m.node.lineno, f2.witness())

        f2.simulate(False, step3, on_end=end3)
        rep.flow(f2)
        if not bad3:
            rep.ok("R8", f"{m.where}: ends on every exit")
