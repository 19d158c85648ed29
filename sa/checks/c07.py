"""
C07 lock files: exclusive and always released.
"""

from __future__ import annotations
import ast
from ..flow import Flow, alts, fmt, subterms, lin_parts, static_callees
from ..project import walk_own
from .common import is_call_to, return_terms, deep_subterms

LOCK = "returnn.util.basic.LockFile"
NONDET_NAMES = ("getpid", "uuid4", "uuid1", "time", "time_ns", "gethostname", "urandom", "random", "id", "mkdtemp", "mkstemp", "monotonic")


def check(p, rep):
    rep.rule("R1", "the lock is acquired only by creating the lock file with O_CREAT|O_EXCL; no other way out of lock()")
    rep.rule("R2", "a lock file that is not held is removed only after it was found older than the timeout")
    rep.rule("R3", "unlock() closes and removes the lock file on every path")
    rep.rule("R4", "the context manager acquires on entry, releases on every exit and does not swallow exceptions")
    rep.rule("R5", "every user of a lock releases it on every path out of the protected region")
    rep.rule("R6", "competing processes compute the same lock file name")
    rep.assumptions += ["O_CREAT|O_EXCL is atomic on the file system", "clocks of the competing hosts agree up to the timeout"]
    c = p.get_class(LOCK)
    if c is None:
        rep.errors.append("LockFile not found")
        return
    same = lambda g: g.cls is c
    where = c.module.relpath + ":LockFile"

    def lockpath(t):
        return any(s[0] == "attr" and s[2] in lock_attrs for s in alts(t))

    # attribute(s) holding the path: those passed to os.open with O_EXCL
    lock_attrs = set()
    for m in c.methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("open", "remove", "unlink") and n.args and isinstance(n.args[0], ast.Attribute):
                lock_attrs.add(n.args[0].attr)
    lock_attrs = lock_attrs or {"lockfile"}

    def excl(cc):
        if cc.ext() == "os.open":
            fl_ = cc.arg(1, "flags") or ("c", 0)
            names = {str(s[1]).split(".")[-1] for s in subterms(fl_) if s[0] in ("g", "gv")} | {s[2] for s in subterms(fl_) if s[0] == "attr"}
            ops = {s[1] for s in subterms(fl_) if s[0] == "b"}
            return {"O_CREAT", "O_EXCL"} <= names and ops <= {"BitOr", "Add"} and lockpath(cc.args[0])
        if cc.ext() in ("open", "io.open"):
            m = cc.arg(1, "mode") or ("c", "r")
            return m[0] == "c" and "x" in str(m[1]) and lockpath(cc.args[0])
        if cc.ext() in ("os.mkdir", "os.link", "os.symlink"):
            return any(lockpath(a) for a in cc.args)
        return False

    # R1
    lock = p.find_method(c, "lock")
    if lock is None:
        rep.bad("R1", where, "lock", "LockFile.lock is missing")
        return
    fl = Flow(lock, cls=c, inline=same)
    seen = set()
    opens = {nk for nk, cc in fl.calls.items() if excl(cc)}
    rep.check("R1", bool(opens), lock.where, "exclusive", "the lock file is not created exclusively (O_CREAT|O_EXCL)", lock.node.lineno)

    def step(nk, st, lab):
        if nk in opens:
            return "no" if lab == "exc" else "held"
        cc = fl.calls.get(nk)
        if cc is not None and cc.ext() in ("os.remove", "os.unlink") and cc.args and lockpath(cc.args[0]) and st == "held":
            return "no"
        return st

    def end(nk, st, lab):
        if nk[1].kind == "exit" and st != "held" and "r" not in seen:
            seen.add("r")
            rep.bad("R1", lock.where, "return-unheld", "lock() can return without having created the lock file", lock.node.lineno, fl.witness())

    if opens:
        n = fl.simulate("no", step, on_end=end)
        rep.flow(fl, n)
        if "r" not in seen:
            rep.ok("R1", f"{lock.where}: returns only when held")
        # the descriptor must be kept for unlock
        kept = False
        for nk in fl.env:
            n_ = nk[1]
            if n_.kind == "assign" and n_.d["target"][0] == "a":
                v = fl.term(nk, n_.d["value"])
                if is_call_to(v, "open"):
                    kept = True
        rep.check("R1", kept or any(is_call_to(fl._call_value(fl.calls[o], fl.call_key(fl.calls[o])), "mkdir", "link", "symlink") for o in opens), lock.where, "fd", "the descriptor of the created lock file is not kept for unlock()")

    # R2
    def older(t, val):
        """the condition implies now - mtime > timeout"""
        if t[0] != "cmp" or t[1] != "Lt":
            return False
        a, b = t[2], t[3]
        if not val:
            a, b = b, a  # not (a<b)  =>  b <= a
        # a < b : b - a > 0
        co = {"now": 0.0, "mtime": 0.0, "timeout": 0.0}

        def add(x, f):
            k, d = lin_parts(x)
            for tt, cf in d.items():
                v = f * cf
                if is_call_to(tt, "abs") and tt[2]:
                    add(tt[2][0], v)
                    continue
                for alt in alts(tt):
                    if is_call_to(alt, "time") and not alt[2]:
                        co["now"] += v
                        break
                    if any(is_call_to(s, "getmtime", "stat", "lstat", "fstat") for s in subterms(alt)):
                        co["mtime"] += v
                        break
                    if any(s[0] == "attr" and "timeout" in s[2] for s in subterms(alt)):
                        f2 = 1.0
                        if alt[0] == "b" and alt[1] in ("Mult", "Div"):
                            for q in alt[2:4]:
                                if q[0] == "c" and isinstance(q[1], (int, float)) and q[1]:
                                    f2 = f2 * q[1] if alt[1] == "Mult" else f2 / q[1]
                        co["timeout"] += v * f2
                        break

        add(b, 1.0)
        add(a, -1.0)
        return co["now"] > 0 and co["mtime"] < 0 and co["timeout"] <= -co["now"]

    holder = {"unlock", "__exit__"}
    nrem = 0
    for m in sorted(c.methods.values(), key=lambda x: x.name):
        if m.name in holder or m.name == "__init__":
            continue
        fl = Flow(m, cls=c, inline=lambda g: same(g) and g.name not in holder)
        rems = {nk: cc for nk, cc in fl.calls.items() if cc.ext() in ("os.remove", "os.unlink", "shutil.rmtree", "os.rename", "os.replace") and cc.args and lockpath(cc.args[0])}
        if not rems:
            continue
        nrem += 1
        opens2 = {nk for nk, cc in fl.calls.items() if excl(cc)}
        bad = set()

        def hook(nk, st, t, val):
            return st | {"old"} if older(t, val) else st

        def step2(nk, st, lab):
            if nk in opens2 and lab != "exc":
                st = st | {"held"}
            if nk in rems and not (st & {"old", "held"}) and nk not in bad:
                bad.add(nk)
                cc = rems[nk]
                rep.bad("R2", cc.frame.func.where, "remove", "an existing lock file is removed without having been found older than the timeout", cc.line, fl.witness())
            if nk in rems and lab != "exc":
                st = st - {"old", "held"}
            cc = fl.calls.get(nk)
            if cc is not None and cc.ext() == "time.sleep":
                st = st - {"old"}
            return st

        n = fl.simulate(frozenset(), step2, cond_hook=hook)
        rep.flow(fl, n)
        for nk in rems:
            if nk not in bad:
                rep.ok("R2", f"{rems[nk].frame.func.where} via {m.name}: removed only when old")
    # other code removing lock files / calling unlock
    for f in p.all_funcs():
        if f.cls is c:
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("remove", "unlink") and n.args:
                if any(isinstance(x, ast.Attribute) and x.attr in lock_attrs for x in ast.walk(n.args[0])):
                    rep.bad("R2", f.where, "remove-outside", "a lock file is removed outside of the lock class", n.lineno)

    # R3
    unl = p.find_method(c, "unlock")
    if unl is None:
        rep.bad("R3", where, "unlock", "LockFile.unlock is missing")
        return
    fl = Flow(unl, cls=c, inline=same)
    bad = set()

    def step3(nk, st, lab):
        cc = fl.calls.get(nk)
        if cc is not None and lab != "exc":
            if cc.ext() in ("os.remove", "os.unlink", "os.rmdir") and cc.args and lockpath(cc.args[0]):
                return st | {"removed"}
            if cc.ext() == "os.close" or (cc.name == "close" and cc.recv is not None):
                return st | {"closed"}
        return st

    def end3(nk, st, lab):
        if nk[1].kind == "exit":
            for k in ("removed", "closed"):
                if k not in st and k not in bad:
                    bad.add(k)
                    rep.bad("R3", unl.where, k, f"unlock() can return without the lock file being {k}", unl.node.lineno, fl.witness())

    def hook3(nk, st, t, val):
        # "nothing to do when not held"
        if t[0] == "cmp" and t[1] == "Is" and ("c", None) in t[2:4] and val and any(s[0] == "attr" for s in t[2:4]):
            return st | {"removed", "closed"}
        if t[0] == "attr" and t[2] == "fd" and not val:
            return st | {"removed", "closed"}
        return st

    # the descriptor may have been released only by unlock itself
    n = fl.simulate(frozenset(), step3, on_end=end3, cond_hook=hook3)
    rep.flow(fl, n)
    for k in ("removed", "closed"):
        if k not in bad:
            rep.ok("R3", f"{unl.where}: {k}")

    # R4
    en = p.find_method(c, "__enter__")
    ex = p.find_method(c, "__exit__")
    if en is None or ex is None:
        rep.bad("R4", where, "context", "the lock has no context manager protocol")
    else:
        fl = Flow(en, cls=c, inline=same)
        ops = {nk for nk, cc in fl.calls.items() if excl(cc)}
        bad4 = set()

        def step4(nk, st, lab):
            if nk in ops and lab != "exc":
                return True
            return st

        def end4(nk, st, lab):
            if nk[1].kind == "exit" and not st and "e" not in bad4:
                bad4.add("e")
                rep.bad("R4", en.where, "enter", "the protected region can be entered without holding the lock", en.node.lineno, fl.witness())

        n = fl.simulate(False, step4, on_end=end4)
        rep.flow(fl, n)
        if not bad4:
            rep.ok("R4", f"{en.where}: acquires")
        fl2 = Flow(ex, cls=c, inline=same)
        rems = {nk for nk, cc in fl2.calls.items() if cc.ext() in ("os.remove", "os.unlink", "os.rmdir") and cc.args and lockpath(cc.args[0])}
        bad5 = set()

        def step5(nk, st, lab):
            if nk in rems and lab != "exc":
                return True
            return st

        def end5(nk, st, lab):
            if nk[1].kind == "exit" and not st and "x" not in bad5:
                bad5.add("x")
                rep.bad("R4", ex.where, "exit", "the protected region can be left without releasing the lock", ex.node.lineno, fl2.witness())

        n = fl2.simulate(False, step5, on_end=end5, cond_hook=lambda nk, st, t, val: True if (t[0] == "attr" and t[2] == "fd" and not val) or (t[0] == "cmp" and t[1] == "Is" and val and ("c", None) in t[2:4] and any(s[0] == "attr" for s in t[2:4])) else st)
        rep.flow(fl2, n)
        if not bad5:
            rep.ok("R4", f"{ex.where}: releases")
        for nk, t in return_terms(fl2):
            for alt in alts(t):
                rep.check("R4", alt[0] == "c" and not alt[1], ex.where, "swallow", f"__exit__ returns {fmt(alt)[:40]}: exceptions of the protected region can be swallowed", nk[1].line)

    # R5 / R6
    users(p, rep, c)
    init = p.find_method(c, "__init__")
    fl = Flow(init, cls=c, inline=same)
    rep.flow(fl)
    for nk in fl.env:
        n = nk[1]
        if n.kind == "assign" and n.d["target"][0] == "a" and n.d["target"][2] in lock_attrs:
            v = fl.term(nk, n.d["value"])
            bad6 = [s for s in subterms(v) if is_call_to(s, *NONDET_NAMES)]
            ps = {s[2] for s in subterms(v) if s[0] == "param"}
            rep.check("R6", not bad6 and ps, init.where, "name", f"the lock file name {fmt(v)[:80]} is not the same in competing processes", n.line)


def users(p, rep, c):
    for f in p.all_funcs():
        if f.cls is c:
            continue
        if not any(isinstance(n, (ast.Name, ast.Attribute)) and (getattr(n, "id", None) == "LockFile" or getattr(n, "attr", None) == "LockFile") for n in ast.walk(f.node)):
            continue
        fl = Flow(f, cls=f.cls)
        for nk, cc in list(fl.calls.items()):
            if c not in cc.classes():
                continue
            rep.flow(fl)
            bad = [s for a in list(cc.args) + list(cc.kwargs.values()) for s in deep_subterms(fl, a) if is_call_to(s, *NONDET_NAMES)]
            rep.check("R6", not bad, f.where, "user-name", f"lock directory/name depends on {fmt(bad[0]) if bad else ''}", cc.line)
        locks = [(nk, cc) for nk, cc in fl.calls.items() if cc.name == "lock" and cc.recv is not None and (c in fl.types(cc.recv) or any(is_call_to(s, "LockFile") for s in alts(cc.recv)))]
        unlocks = {nk for nk, cc in fl.calls.items() if cc.name == "unlock" or (cc.name == "__exit__")}
        if locks:
            ln = {nk for nk, _ in locks}
            bad = set()

            def step(nk, st, lab):
                if nk in ln and lab != "exc":
                    return "held"
                if nk in unlocks:
                    return "free"
                return st

            def end(nk, st, lab):
                if st == "held" and "x" not in bad:
                    bad.add("x")
                    rep.bad("R5", f.where, "leak", "the lock is still held on a path out of the function" + (" (exception)" if nk[1].kind == "excexit" else ""), locks[0][1].line, fl.witness())

            n = fl.simulate("free", step, on_end=end)
            rep.flow(fl, n)
            if not bad:
                rep.ok("R5", f"{f.where}: lock()/unlock() paired")
        # with-statements
        for nk in fl.env:
            if nk[1].kind == "enter":
                t = None
                for k in ("ctx", "value", "cm", "expr"):
                    if k in nk[1].d:
                        t = fl.term(nk, nk[1].d[k])
                        break
                if t is not None and any(is_call_to(s, "LockFile") for s in alts(t)):
                    rep.ok("R5", f"{f.where}: with-statement")
