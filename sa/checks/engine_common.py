from __future__ import annotations
from ..project import Project, Func
from ..flow import Flow, Relevance, names_used, relevance_by_names
from ..fileeff import EFFECT_NAMES

TORCH_ENGINE = "returnn.torch.engine.Engine"


def entry(p: Project, cls_name: str, meth: str):
    c = p.get_class(cls_name)
    if c is None:
        return None, None
    return c, p.find_method(c, meth)


def allowed_module(f: Func, prefixes) -> bool:
    return any(f.module.name == x or f.module.name.startswith(x + ".") for x in prefixes)


def engine_inline(p: Project, names, modules=("returnn.torch", "returnn.engine", "returnn.learning_rate_control", "returnn.util.basic")):
    rel = relevance_by_names(p, set(names))

    def inline(f: Func) -> bool:
        if f.module.name in ("returnn.util.basic", "returnn.torch.util.debug_inf_nan", "returnn.torch.util.diagnose_gpu"):
            if f.name not in ("should_write_to_disk",):
                return False
        if not allowed_module(f, modules):
            return False
        return rel(f)

    return inline


def pure_perm(t) -> bool:
    """calls whose result does not change within a process (write permission etc)"""
    return t[0] == "call" and str(t[1][-1]).split(".")[-1].split(":")[-1] in (
        "should_write_to_disk",
        "_do_save",
        "rank",
        "bool",
        "bool_or_other",
        "int",
        "get_model_filename_postfix",
    )


def has_const(t, s: str) -> bool:
    from ..flow import subterms

    return any(x[0] == "c" and isinstance(x[1], str) and s in x[1] for x in subterms(t))
