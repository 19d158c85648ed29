"""
C01 atomic publication: files that readers look up by their final name appear there only by renaming a temporary file
(in the same directory) which was completely written and closed.
"""

from __future__ import annotations
from ..flow import Flow, alts, fmt, path_prefix, subterms, relevance_by_names
from ..fileeff import effect, handle_paths, is_handle
from .engine_common import TORCH_ENGINE, entry, allowed_module

WRITERS = {"torch.save"}


def check(p, rep):
    rep.rule("R1", "the final path is never opened for writing / written to directly")
    rep.rule("R2", "a rename publishes only a file that was completely written and closed on every path leading to it")
    rep.rule("R3", "every temporary file written for publication is renamed to its final name on every normal path")
    rep.rule("R4", "temporary file and final file are in the same directory (rename is atomic)")
    rep.rule("R5", "the previously published file is not removed before its replacement is renamed over it")
    rep.assumptions += [
        "os.rename / os.replace / shutil.move within one directory is atomic",
        "calls to unresolved external functions do not touch the tracked paths",
    ]
    roots = [
        (TORCH_ENGINE, "train_epoch", None, ("returnn.torch.engine", "returnn.torch.updater", "returnn.engine", "returnn.learning_rate_control"), True, 1),
        ("returnn.learning_rate_control.LearningRateControl", "save", "filename", ("returnn.learning_rate_control",), True, 1),
        ("returnn.datasets.hdf.SimpleHDFWriter", "close", "filename", ("returnn.datasets.hdf",), True, 1),
        ("returnn.util.file_cache.FileCache", "get_file", None, ("returnn.util.file_cache",), False, 1),
    ]
    thorough = rep.tier == "thorough"
    for cls_name, meth, pub_attr, mods, strict, min_pub in roots:
        cls, f = entry(p, cls_name, meth)
        if f is None:
            rep.errors.append(f"entry {cls_name}.{meth} not found")
            continue
        rel = relevance_by_names(p, {"rename", "replace", "move", "torch", "open", "copyfile", "unlink", "remove", "link"})

        def inline(g, mods=mods, rel=rel):
            return allowed_module(g, mods) and not g.name.startswith("eval_model") and rel(g)

        fl = Flow(f, cls=cls, inline=inline, max_depth=8 if thorough else 6)
        _check_flow(fl, rep, ("attr", ("self", cls.full), pub_attr) if pub_attr else None, strict, min_pub)


def _check_flow(fl, rep, pub_term, strict, min_pub):
    effs = {}
    for nk, c in fl.calls.items():
        if nk in fl.inlined:
            continue
        e = effect(c)
        if e is not None:
            effs[nk] = e
    published = set()
    tmp_of = {}
    ren = []
    for nk, e in effs.items():
        if e[0] == "rename":
            for s in alts(e[1]):
                for d in alts(e[2]):
                    published.add(d)
                    tmp_of.setdefault(s, []).append((d, nk))
                    ren.append((s, d, nk))
    if pub_term is not None:
        if not ren or not any(d == pub_term for _, d, _ in ren):
            rep.bad(
                "R3",
                fl.entry.where,
                "publish:" + fmt(pub_term),
                f"no rename of a temporary file to {fmt(pub_term)} found in the code that persists it",
            )
        published.add(pub_term)
    # R4
    for s, d, nk in ren:
        same_dir = path_prefix(d, s) or any(
            x[0] == "call" and x[1][-1] in ("os.path.dirname", "dirname") and d in x[2] for x in subterms(s)
        )
        c = fl.calls[nk]
        rep.check(
            "R4",
            same_dir and s != d,
            c.frame.func.where,
            f"rename->{fmt(d)[:60]}",
            f"temporary path {fmt(s)} is not derived from the directory of the final path {fmt(d)}",
            c.line,
        )
    # R1
    for nk, e in effs.items():
        if e[0] in ("write", "openw"):
            c = fl.calls[nk]
            for pth in alts(e[1]):
                rep.check(
                    "R1",
                    pth not in published,
                    c.frame.func.where,
                    f"{c.name}->{fmt(pth)[:60]}",
                    f"writes directly to the published path {fmt(pth)}",
                    c.line,
                )
    # which written paths must be published
    must = set()
    for nk, e in effs.items():
        c = fl.calls[nk]
        if e[0] == "write" and c.ext() in WRITERS:
            must |= set(alts(e[1]))
        elif e[0] in ("write", "openw") and any(x in tmp_of for x in alts(e[1])):
            if strict:
                must |= {x for x in alts(e[1]) if x in tmp_of}
    written = set()
    for nk, e in effs.items():
        if e[0] in ("write", "openw"):
            written |= set(alts(e[1]))
    for s, d, nk in ren:
        c = fl.calls[nk]
        if s not in written:
            rep.bad(
                "R2",
                c.frame.func.where,
                f"rename-unwritten->{fmt(d)[:60]}",
                f"renames {fmt(s)} to {fmt(d)}, but that temporary file is never written on the way",
                c.line,
            )

    def setst(st, pth, status):
        d = dict(st)
        for x in alts(pth):
            if status is None:
                d.pop(x, None)
            else:
                d[x] = status
        return frozenset(d.items())

    bad_seen = set()

    def step(nk, st, lab):
        node = nk[1]
        if node.kind == "call":
            e = effs.get(nk)
            if e is None:
                return st
            c = fl.calls[nk]
            k = e[0]
            exc = lab == "exc"
            if k == "openw":
                return st if exc else setst(st, e[1], "open")
            if k == "write":
                return setst(st, e[1], "partial" if exc else "done")
            if k == "data":
                if exc:
                    for h in handle_paths(e[1]):
                        st = setst(st, h, "partial")
                return st
            if k == "close":
                for h in handle_paths(e[1]):
                    if dict(st).get(h) == "open":
                        st = setst(st, h, "partial" if exc else "done")
                return st
            if k == "rename":
                d = dict(st)
                for s in alts(e[1]):
                    if s in written and not exc:
                        stt = d.get(s)
                        if stt != "done":
                            key = ("R2", nk, stt)
                            if key not in bad_seen:
                                bad_seen.add(key)
                                what = {
                                    None: "before it is written",
                                    "open": "while it is still open (unflushed, possibly interrupted write)",
                                    "partial": "after writing it failed",
                                }[stt]
                                rep.bad(
                                    "R2",
                                    c.frame.func.where,
                                    f"rename->{fmt(e[2])[:60]}:{stt}",
                                    f"{fmt(s)} is published as {fmt(e[2])} {what}",
                                    c.line,
                                    fl.witness(),
                                )
                    if strict and not exc:
                        for dd in alts(e[2]):
                            if d.get(dd) == "removed":
                                key = ("R5", nk)
                                if key not in bad_seen:
                                    bad_seen.add(key)
                                    rep.bad(
                                        "R5",
                                        c.frame.func.where,
                                        f"rename->{fmt(dd)[:60]}",
                                        f"{fmt(dd)} is removed before its replacement is in place",
                                        c.line,
                                        fl.witness(),
                                    )
                if not exc:
                    st = setst(st, e[1], None)
                return st
            if k == "remove":
                if exc:
                    return st
                for x in alts(e[1]):
                    if x in published:
                        st = setst(st, x, "removed")
                    else:
                        st = setst(st, x, None)
                return st
        elif node.kind == "exitwith":
            t = fl.term(nk, node.d["value"])
            if is_handle(t):
                for h in handle_paths(t):
                    if dict(st).get(h) == "open":
                        st = setst(st, h, "partial" if node.d["how"] == "exc" else "done")
            return st
        return st

    def on_end(nk, st, kind):
        if kind != "exit":
            return
        for x, status in st:
            if x in must and status != "removed":
                key = ("R3", x)
                if key not in bad_seen:
                    bad_seen.add(key)
                    rep.bad(
                        "R3",
                        fl.entry.where,
                        f"unpublished:{fmt(x)[:80]}",
                        f"{fmt(x)} is written but on some normal path never renamed to a final name",
                        0,
                        fl.witness(),
                    )

    n = fl.simulate(frozenset(), step, on_end=on_end, correlate=False)
    rep.flow(fl, n)
    for s, d, nk in ren:
        c = fl.calls[nk]
        if not any(b[0] == "R2" and b[1] == nk for b in bad_seen):
            rep.ok("R2", f"{c.frame.func.where} publishes {fmt(d)}")
        if strict and not any(b[0] == "R5" and b[1] == nk for b in bad_seen):
            rep.ok("R5", f"{c.frame.func.where} replaces {fmt(d)}")
    for x in must:
        if ("R3", x) not in bad_seen:
            rep.ok("R3", f"{fl.entry.where}: {fmt(x)}")
    if not ren and not must:
        rep.need("R2", 0, min_pub, f"publishing renames reachable from {fl.entry.where}")
