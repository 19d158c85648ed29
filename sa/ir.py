"""
Lowering of a Python function to a control-flow graph of simple instructions.

* calls are hoisted to their own nodes in evaluation order (results in temps),
* ``and``/``or``/``not``/conditional expressions in branch position become branches,
* ``finally`` / ``with`` exits are cloned per continuation (normal, exception, return, break, continue),
* comprehensions become loops,
* every node which may raise has an ``exc`` edge to its handler.
"""

from __future__ import annotations
import ast
from typing import Dict, List, Optional, Tuple, Any, Callable
from .project import Func, dotted_name

NORETURN_CALLS = {"sys.exit", "os._exit", "os.abort"}
NOTHROW_CALLS = {
    "print",
    "len",
    "isinstance",
    "hasattr",
    "id",
    "type",
    "repr",
    "bool",
    "time.time",
    "time.monotonic",
    "list",
    "tuple",
    "dict",
    "set",
    "super",
    "logging.debug",
    "logger.debug",
    "logger.info",
    "logger.warning",
    "log.debug",
    "log.info",
}


class Node:
    __slots__ = ("id", "kind", "ast", "d", "succ", "rpo")

    def __init__(self, id_: int, kind: str, ast_node=None, **d):
        self.id = id_
        self.kind = kind
        self.ast = ast_node
        self.d = d
        self.succ: List[Tuple["Node", str]] = []
        self.rpo = 0

    def __repr__(self):
        return f"<{self.id}:{self.kind} L{self.line}>"

    @property
    def line(self):
        return getattr(self.ast, "lineno", 0)


class FuncIR:
    def __init__(self, func: Func):
        self.func = func
        self.nodes: List[Node] = []
        self.entry: Node = None
        self.exit: Node = None
        self.exc_exit: Node = None
        self.live = None


class _Ctx:
    """continuations"""

    __slots__ = ("exc", "ret", "brk", "cont")

    def __init__(self, exc, ret, brk=None, cont=None):
        self.exc = exc
        self.ret = ret
        self.brk = brk
        self.cont = cont


_ir_cache: Dict[int, FuncIR] = {}


def get_ir(func: Func) -> FuncIR:
    k = id(func.node)
    if k not in _ir_cache:
        ir = _Lower(func).run()
        _number_rpo(ir)
        _ir_cache[k] = ir
    return _ir_cache[k]


def _uses(e, acc):
    if isinstance(e, tuple):
        if len(e) >= 2 and e[0] == "n" and isinstance(e[1], str):
            acc.add(e[1])
        elif len(e) == 2 and e[0] == "t" and isinstance(e[1], int):
            acc.add(("t", e[1]))
        else:
            for x in e:
                if isinstance(x, tuple):
                    _uses(x, acc)


def live_in(ir: FuncIR):
    """node id -> set of live local names / temps at node entry"""
    if ir.live is not None:
        return ir.live
    from .project import names_in_nested

    always = names_in_nested(ir.func)
    use, df = {}, {}
    for n in ir.nodes:
        u, d = set(), set()
        for k, v in n.d.items():
            if k == "target":
                if v[0] == "n":
                    d.add(v[1])
                elif v[0] == "t":
                    d.add(("t", v[1]))
                else:
                    _uses(v[1:], u)
            elif k == "dest":
                if n.kind != "compadd":
                    d.add(("t", v))
            elif isinstance(v, tuple):
                _uses(v, u)
        use[n.id] = u
        df[n.id] = d - u if n.kind not in ("call",) else d
    live = {n.id: set(use[n.id]) for n in ir.nodes}
    changed = True
    while changed:
        changed = False
        for n in sorted(ir.nodes, key=lambda n: -n.rpo):
            out = set()
            for t, _ in n.succ:
                out |= live[t.id]
            new = use[n.id] | (out - df[n.id])
            if new != live[n.id]:
                live[n.id] = new
                changed = True
    for k in live:
        live[k] |= always
        live[k].add("$ret")
    ir.live = live
    return live


def _number_rpo(ir: FuncIR):
    post = []
    seen = {ir.entry.id}
    # loop bodies before what follows the loop: follow exits first, such that they are numbered later
    prio = {"exc": 0, "done": 1, "F": 2}

    def succ(n):
        return iter(sorted(n.succ, key=lambda x: prio.get(x[1], 3)))

    stack = [(ir.entry, succ(ir.entry))]
    while stack:
        n, it = stack[-1]
        for t, _ in it:
            if t.id not in seen:
                seen.add(t.id)
                stack.append((t, succ(t)))
                break
        else:
            post.append(n)
            stack.pop()
    for n in ir.nodes:
        n.rpo = 1 << 30
    for i, n in enumerate(reversed(post)):
        n.rpo = i


class _Lower:
    def __init__(self, func: Func):
        self.func = func
        self.ir = FuncIR(func)
        self.cur: Optional[Node] = None
        self.cur_label = ""
        self.tmp = 0
        self.ctx: _Ctx = None
        self.rename: List[Dict[str, str]] = []
        self.comp_depth = 0

    # --- basics

    def node(self, kind, ast_node=None, **d) -> Node:
        n = Node(len(self.ir.nodes), kind, ast_node, **d)
        if self.comp_depth:
            n.d["incomp"] = True
        self.ir.nodes.append(n)
        return n

    def link(self, a: Optional[Node], b: Node, label=""):
        if a is None:
            return
        if (b, label) not in a.succ:
            a.succ.append((b, label))

    def emit(self, kind, ast_node=None, *, may_raise=False, **d) -> Node:
        n = self.node(kind, ast_node, **d)
        self.link(self.cur, n, self.cur_label)
        self.cur = n
        self.cur_label = ""
        if may_raise:
            self.link(n, self.ctx.exc(), "exc")
        return n

    def goto(self, target: Node):
        self.link(self.cur, target, self.cur_label)
        self.cur = None
        self.cur_label = ""

    def start(self, n: Optional[Node], label=""):
        self.cur = n
        self.cur_label = label

    def new_tmp(self):
        self.tmp += 1
        return self.tmp

    def run(self) -> FuncIR:
        f = self.func
        ir = self.ir
        ir.entry = self.node("entry", f.node)
        ir.exit = self.node("exit", f.node)
        ir.exc_exit = self.node("excexit", f.node)
        self.ctx = _Ctx(exc=lambda: ir.exc_exit, ret=lambda: ir.exit)
        self.start(ir.entry)
        if isinstance(f.node, ast.Lambda):
            e = self.expr(f.node.body)
            self.emit("return", f.node, value=e)
            self.goto(ir.exit)
        else:
            self.block(f.node.body)
            if self.cur is not None:
                self.emit("return", f.node, value=("c", None), implicit=True)
                self.goto(ir.exit)
        return ir

    def block(self, stmts):
        for s in stmts:
            if self.cur is None:
                return
            self.stmt(s)

    # --- statements

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.emit("nop", s)
            return
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        e = self.expr(s.value)
        if e[0] not in ("t", "c", "n"):
            self.emit("eval", s, value=e)

    def s_Assign(self, s):
        v = self.expr(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is None:
            return
        v = self.expr(s.value)
        self.assign(s.target, v, s)

    def s_AugAssign(self, s):
        cur = self.expr(self._as_load(s.target))
        v = self.expr(s.value)
        self.assign(s.target, ("b", type(s.op).__name__, cur, v), s, aug=True)

    def _as_load(self, t):
        t2 = ast.copy_location(ast.parse(ast.unparse(t), mode="eval").body, t)
        ast.fix_missing_locations(t2)
        for n in ast.walk(t2):
            if hasattr(n, "lineno"):
                n.lineno = getattr(t, "lineno", 0)
        return t2

    def assign(self, t, v, s, aug=False):
        if isinstance(t, (ast.Tuple, ast.List)):
            star = any(isinstance(e, ast.Starred) for e in t.elts)
            if v[0] in ("tup", "list") and len(v[1]) == len(t.elts) and not star and self._swap(t.elts, v[1]):
                tmps = []
                for x in v[1]:
                    tmp = self.new_tmp()
                    self.emit("assign", s, target=("t", tmp), value=x, aug=False)
                    tmps.append(("t", tmp))
                for e, x in zip(t.elts, tmps):
                    self.assign(e, x, s)
                return
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, ("item*", v, i), s)
                elif v[0] in ("tup", "list") and len(v[1]) == len(t.elts) and not star:
                    self.assign(e, ("snap", v, i), s)
                else:
                    self.assign(e, ("item", v, i), s)
            return
        tgt = self.target(t)
        self.emit("assign", s, target=tgt, value=v, aug=aug)

    def _swap(self, elts, values):
        """does a later value read what an earlier target overwrites?"""

        def occurs(x, sub):
            if x == sub:
                return True
            return isinstance(x, tuple) and any(occurs(y, sub) for y in x)

        for i, e in enumerate(elts):
            if isinstance(e, ast.Name):
                k = ("n", self._rn(e.id))
            elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
                k = ("a", ("n", self._rn(e.value.id)), e.attr)
            elif isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name):
                k = ("n", self._rn(e.value.id))
            else:
                continue
            if any(occurs(v, k) for v in values[i + 1 :]):
                return True
        return False

    def target(self, t):
        if isinstance(t, ast.Name):
            return ("n", self._rn(t.id))
        if isinstance(t, ast.Attribute):
            return ("a", self.expr(t.value), t.attr)
        if isinstance(t, ast.Subscript):
            return ("sub", self.expr(t.value), self.expr(t.slice))
        if isinstance(t, ast.Starred):
            return self.target(t.value)
        return ("?", ast.dump(t))

    def _rn(self, name):
        for m in reversed(self.rename):
            if name in m:
                return m[name]
        return name

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, s):
        pass

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s):
        self.emit("assign", s, target=("n", s.name), value=("fn", s.name), aug=False)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s):
        self.emit("assign", s, target=("n", s.name), value=("clsdef", s.name), aug=False)

    def s_Delete(self, s):
        for t in s.targets:
            self.emit("del", s, target=self.target(t))

    def s_Return(self, s):
        v = self.expr(s.value) if s.value is not None else ("c", None)
        self.emit("return", s, value=v)
        self.goto(self.ctx.ret())

    def s_Raise(self, s):
        exc = self.expr(s.exc) if s.exc is not None else None
        self.emit("raise", s, exc=exc)
        n = self.cur
        self.link(n, self.ctx.exc(), "exc")
        self.cur = None

    def s_Assert(self, s):
        ok = self.node("nop", s)
        bad = self.node("nop", s)
        self.cond(s.test, ok, bad)
        self.start(bad)
        self.emit("raise", s, exc=("g", "AssertionError"), is_assert=True)
        self.link(self.cur, self.ctx.exc(), "exc")
        self.start(ok)

    def s_If(self, s):
        t = self.node("nop", s)
        f = self.node("nop", s)
        self.cond(s.test, t, f)
        join = self.node("nop", None)
        self.start(t)
        self.block(s.body)
        if self.cur is not None:
            self.goto(join)
        self.start(f)
        self.block(s.orelse)
        if self.cur is not None:
            self.goto(join)
        self.start(join if self._has_pred(join) else None)

    def _has_pred(self, n):
        return any(n is t for x in self.ir.nodes for (t, _) in x.succ)

    def s_While(self, s):
        head = self.emit("loophead", s)
        body = self.node("nop", s)
        done = self.node("nop", s)
        after = self.node("nop", None)
        if isinstance(s.test, ast.Constant) and s.test.value:
            self.goto(body)
        else:
            self.cond(s.test, body, done)
        old = self.ctx
        self.ctx = _Ctx(old.exc, old.ret, lambda: after, lambda: head)
        self.start(body)
        self.block(s.body)
        if self.cur is not None:
            self.goto(head)
        self.ctx = old
        if self._has_pred(done):
            self.start(done)
            self.block(s.orelse)
            if self.cur is not None:
                self.goto(after)
        self.start(after if self._has_pred(after) else None)

    def s_For(self, s):
        it = self.expr(s.iter)
        head = self.emit("iter", s, iter=it, may_raise=True)
        after = self.node("nop", None)
        old = self.ctx
        self.ctx = _Ctx(old.exc, old.ret, lambda: after, lambda: head)
        self.start(head, "iter")
        self.assign(s.target, ("elem", it), s)
        self.block(s.body)
        if self.cur is not None:
            self.goto(head)
        self.ctx = old
        self.start(head, "done")
        if s.orelse:
            self.block(s.orelse)
        if self.cur is not None:
            self.goto(after)
        self.start(after if self._has_pred(after) else None)

    s_AsyncFor = s_For

    def s_Break(self, s):
        self.goto(self.ctx.brk())

    def s_Continue(self, s):
        self.goto(self.ctx.cont())

    def _protected(self, body: Callable[[], None], final: Callable[[str], None]):
        """run body with all continuations routed through (clones of) final"""
        outer = self.ctx
        memo: Dict[str, Node] = {}

        def mk(kind):
            tgt = getattr(outer, kind)
            if tgt is None:
                return None

            def get():
                if kind not in memo:
                    entry = self.node("nop", None)
                    memo[kind] = entry
                    sv = (self.cur, self.cur_label, self.ctx)
                    self.ctx = outer
                    self.start(entry)
                    final(kind)
                    if self.cur is not None:
                        self.goto(tgt())
                    self.cur, self.cur_label, self.ctx = sv
                return memo[kind]

            return get

        self.ctx = _Ctx(mk("exc"), mk("ret"), mk("brk"), mk("cont"))
        body()
        self.ctx = outer
        if self.cur is not None:
            final("normal")

    def s_Try(self, s):
        def inner():
            if s.handlers:
                self._try_except(s)
            else:
                self.block(s.body)
                if self.cur is not None:
                    self.block(s.orelse)

        if s.finalbody:
            self._protected(inner, lambda kind: self.block(s.finalbody))
        else:
            inner()

    s_TryStar = s_Try

    def _try_except(self, s):
        outer = self.ctx
        disp = self.node("dispatch", s)
        after = self.node("nop", None)
        self.ctx = _Ctx(lambda: disp, outer.ret, outer.brk, outer.cont)
        self.block(s.body)
        self.ctx = outer
        if self.cur is not None:
            self.block(s.orelse)
        if self.cur is not None:
            self.goto(after)
        catch_all = False
        base_all = False
        for h in s.handlers:
            name = dotted_name(h.type) if h.type is not None else None
            names = []
            if isinstance(h.type, ast.Tuple):
                names = [dotted_name(x) for x in h.type.elts]
            elif name:
                names = [name]
            if h.type is None or "BaseException" in names:
                base_all = True
            if h.type is None or "Exception" in names or "BaseException" in names:
                catch_all = True
            self.start(disp, "exc:" + ",".join(x or "?" for x in names))
            self.emit("except", h, types=names, name=h.name)
            if h.name:
                self.emit("assign", h, target=("n", h.name), value=("exc", tuple(names)), aug=False)
            self.block(h.body)
            if self.cur is not None:
                self.goto(after)
            if base_all:
                break
        if not base_all:
            self.link(disp, outer.exc(), "exc-base" if catch_all else "exc")
        self.start(after if self._has_pred(after) else None)

    def s_With(self, s):
        self._with_items(s, list(s.items))

    s_AsyncWith = s_With

    def _with_items(self, s, items):
        if not items:
            self.block(s.body)
            return
        it = items[0]
        e = self.expr(it.context_expr)
        tmp = self.new_tmp()
        self.emit("assign", s, target=("t", tmp), value=e, aug=False)
        ctx_e = ("t", tmp)
        t2 = self.new_tmp()
        self.emit("enter", s, value=ctx_e, dest=t2, may_raise=True)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, ("t", t2), s)
        suppress = isinstance(it.context_expr, ast.Call) and (dotted_name(it.context_expr.func) or "").endswith(
            "suppress"
        )
        after = self.node("nop", None)

        def final(kind):
            self.emit("exitwith", s, value=ctx_e, how=kind)
            if kind == "exc" and suppress:
                self.link(self.cur, after, "suppress")

        self._protected(lambda: self._with_items(s, items[1:]), final)
        if self.cur is not None:
            self.goto(after)
        self.start(after if self._has_pred(after) else None)

    def s_Match(self, s):
        subj = self.expr(s.subject)
        join = self.node("nop", None)
        for c in s.cases:
            t = self.node("nop", c)
            f = self.node("nop", c)
            self.emit("branch", c, cond=("match", subj, ast.dump(c.pattern)))
            b = self.cur
            self.link(b, t, "T")
            self.link(b, f, "F")
            self.start(t)
            self.block(c.body)
            if self.cur is not None:
                self.goto(join)
            self.start(f)
        if self.cur is not None:
            self.goto(join)
        self.start(join)

    # --- conditions

    def cond(self, e, t: Node, f: Node):
        if isinstance(e, ast.BoolOp):
            vals = e.values
            for v in vals[:-1]:
                mid = self.node("nop", v)
                if isinstance(e.op, ast.And):
                    self.cond(v, mid, f)
                else:
                    self.cond(v, t, mid)
                self.start(mid)
            self.cond(vals[-1], t, f)
            return
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            self.cond(e.operand, f, t)
            return
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            left = e.left
            parts = []
            for op, c in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[c]), e))
                left = c
            self.cond(ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), e), t, f)
            return
        if isinstance(e, ast.Constant):
            self.goto(t if e.value else f)
            return
        c = self.expr(e)
        n = self.emit("branch", e, cond=c)
        self.link(n, t, "T")
        self.link(n, f, "F")
        self.cur = None

    # --- expressions

    def expr(self, e) -> tuple:
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return ("?", type(e).__name__)
        return m(e)

    def e_Name(self, e):
        return ("n", self._rn(e.id))

    def e_Constant(self, e):
        return ("c", e.value) if not isinstance(e.value, (complex,)) else ("c", repr(e.value))

    def e_Attribute(self, e):
        return ("a", self.expr(e.value), e.attr)

    def e_Subscript(self, e):
        b = self.expr(e.value)
        return ("sub", b, self.expr(e.slice))

    def e_Slice(self, e):
        return (
            "slice",
            self.expr(e.lower) if e.lower else ("c", None),
            self.expr(e.upper) if e.upper else ("c", None),
            self.expr(e.step) if e.step else ("c", None),
        )

    def e_Index(self, e):
        return self.expr(e.value)

    def e_Tuple(self, e):
        return ("tup", tuple(self.expr(x) for x in e.elts))

    def e_List(self, e):
        if not e.elts:
            return ("new", "list", self.new_tmp())
        return ("list", tuple(self.expr(x) for x in e.elts))

    def e_Set(self, e):
        return ("setlit", tuple(self.expr(x) for x in e.elts))

    def e_Dict(self, e):
        if not e.keys:
            return ("new", "dict", self.new_tmp())
        return (
            "dict",
            tuple(((self.expr(k) if k is not None else ("c", "**")), self.expr(v)) for k, v in zip(e.keys, e.values)),
        )

    def e_Starred(self, e):
        return ("star", self.expr(e.value))

    def e_BinOp(self, e):
        l = self.expr(e.left)
        r = self.expr(e.right)
        return ("b", type(e.op).__name__, l, r)

    def e_UnaryOp(self, e):
        return ("u", type(e.op).__name__, self.expr(e.operand))

    def e_Compare(self, e):
        if len(e.ops) == 1:
            l = self.expr(e.left)
            r = self.expr(e.comparators[0])
            return ("cmp", type(e.ops[0]).__name__, l, r)
        parts = []
        left = self.expr(e.left)
        for op, c in zip(e.ops, e.comparators):
            r = self.expr(c)
            parts.append(("cmp", type(op).__name__, left, r))
            left = r
        return ("bool", "And", tuple(parts))

    def _has_effect(self, e):
        return any(isinstance(n, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for n in ast.walk(e))

    def e_BoolOp(self, e):
        if not any(self._has_effect(v) for v in e.values[1:]):
            return ("bool", type(e.op).__name__, tuple(self.expr(v) for v in e.values))
        # value with short circuit and effects
        tmp = self.new_tmp()
        join = self.node("nop", e)
        for i, v in enumerate(e.values):
            if i < len(e.values) - 1 and (
                isinstance(v, ast.Compare) or (isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not))
            ):
                # a proper boolean: its short-circuit value is a constant
                nxt, short = self.node("nop", v), self.node("nop", v)
                if isinstance(e.op, ast.And):
                    self.cond(v, nxt, short)
                else:
                    self.cond(v, short, nxt)
                self.start(short)
                self.emit("assign", e, target=("t", tmp), value=("c", isinstance(e.op, ast.Or)), aug=False)
                self.goto(join)
                self.start(nxt)
                continue
            x = self.expr(v)
            self.emit("assign", e, target=("t", tmp), value=x, aug=False)
            if i == len(e.values) - 1:
                self.goto(join)
            else:
                n = self.emit("branch", v, cond=("t", tmp))
                nxt = self.node("nop", v)
                if isinstance(e.op, ast.And):
                    self.link(n, nxt, "T")
                    self.link(n, join, "F")
                else:
                    self.link(n, join, "T")
                    self.link(n, nxt, "F")
                self.start(nxt)
        self.start(join)
        return ("t", tmp)

    def e_IfExp(self, e):
        tmp = self.new_tmp()
        t = self.node("nop", e)
        f = self.node("nop", e)
        join = self.node("nop", e)
        self.cond(e.test, t, f)
        self.start(t)
        self.emit("assign", e, target=("t", tmp), value=self.expr(e.body), aug=False)
        self.goto(join)
        self.start(f)
        self.emit("assign", e, target=("t", tmp), value=self.expr(e.orelse), aug=False)
        self.goto(join)
        self.start(join)
        return ("t", tmp)

    def e_Lambda(self, e):
        return ("lam", id(e), e)

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        self.assign(e.target, v, e)
        return ("n", self._rn(e.target.id))

    def e_Await(self, e):
        return self.expr(e.value)

    def e_Yield(self, e):
        v = self.expr(e.value) if e.value is not None else ("c", None)
        tmp = self.new_tmp()
        self.emit("yield", e, value=v, dest=tmp, may_raise=True)
        return ("t", tmp)

    def e_YieldFrom(self, e):
        v = self.expr(e.value)
        tmp = self.new_tmp()
        self.emit("yieldfrom", e, value=v, dest=tmp, may_raise=True)
        return ("t", tmp)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(("c", v.value))
            else:
                x = self.expr(v.value)
                if v.conversion not in (-1, 115) or v.format_spec is not None:
                    x = ("fmtspec", x, v.conversion, ast.dump(v.format_spec) if v.format_spec else "")
                parts.append(x)
        return ("fstr", tuple(parts))

    def e_FormattedValue(self, e):
        return self.expr(e.value)

    def e_Call(self, e):
        fe = e.func
        if isinstance(fe, ast.Attribute):
            fexpr = ("a", self.expr(fe.value), fe.attr)
        else:
            fexpr = self.expr(fe)
        args = []
        for a in e.args:
            args.append(self.expr(a))
        kwargs = []
        for k in e.keywords:
            kwargs.append((k.arg if k.arg is not None else "**", self.expr(k.value)))
        tmp = self.new_tmp()
        dn = dotted_name(fe)
        nothrow = dn in NOTHROW_CALLS
        self.emit("call", e, func=fexpr, args=tuple(args), kwargs=tuple(kwargs), dest=tmp, may_raise=not nothrow)
        if dn in NORETURN_CALLS:
            # continue in unreachable code (no predecessor)
            self.start(self.node("nop", e))
        return ("t", tmp)

    # comprehensions

    def _comp(self, e, kind, elts):
        gens = e.generators
        tmp = self.new_tmp()
        self.rename.append({})
        its = []
        heads = []
        after = self.node("nop", e)

        def rec(i):
            if i == len(gens):
                vals = tuple(self.expr(x) for x in elts)
                its.append(vals)
                self.emit("compadd", e, dest=tmp, values=vals, ckind=kind)
                if self.cur is not None:
                    self.goto(heads[-1])
                return
            g = gens[i]
            it = self.expr(g.iter)
            head = self.emit("iter", g.iter, iter=it, may_raise=True, comp=True)
            heads.append(head)
            for nm in ast.walk(g.target):
                if isinstance(nm, ast.Name):
                    self.rename[-1][nm.id] = f"{nm.id}@{len(self.ir.nodes)}"
            self.start(head, "iter")
            self.assign(g.target, ("elem", it), e)
            for c in g.ifs:
                ok = self.node("nop", c)
                self.cond(c, ok, head)
                self.start(ok)
            rec(i + 1)
            heads.pop()
            # done edge of this head
            if heads:
                self.link(head, heads[-1], "done")
            else:
                self.link(head, after, "done")

        self.comp_depth += 1
        rec(0)
        self.comp_depth -= 1
        self.rename.pop()
        self.start(after)
        vals = its[0] if its else ()
        self.emit(
            "assign",
            e,
            target=("t", tmp),
            value=("comp", kind, vals, bool(any(g.ifs for g in gens))),
            aug=False,
        )
        return ("t", tmp)

    def e_ListComp(self, e):
        return self._comp(e, "list", [e.elt])

    def e_SetComp(self, e):
        return self._comp(e, "set", [e.elt])

    def e_GeneratorExp(self, e):
        return self._comp(e, "gen", [e.elt])

    def e_DictComp(self, e):
        return self._comp(e, "dict", [e.key, e.value])
