"""file-system effect classification of calls"""

from __future__ import annotations
from typing import Optional, Tuple
from .flow import Call, alts

WRITE_AT_1 = {"torch.save", "shutil.copyfile", "shutil.copy", "shutil.copy2", "shutil.copytree"}
WRITE_AT_0 = {"numpy.save", "numpy.savez", "numpy.savetxt", "numpy.savez_compressed"}
OPEN = {"open", "io.open", "gzip.open", "codecs.open", "bz2.open"}
RENAME = {"os.rename", "os.replace", "shutil.move", "os.renames"}
REMOVE = {"os.remove", "os.unlink", "shutil.rmtree", "os.rmdir", "os.removedirs"}
DUMP_HANDLE_1 = {"pickle.dump", "json.dump", "shutil.copyfileobj", "yaml.dump"}

EFFECT_NAMES = {
    "rename",
    "replace",
    "renames",
    "move",
    "remove",
    "unlink",
    "rmtree",
    "open",
    "File",
    "copyfile",
    "copy2",
    "torch",
    "savez",
    "sendfile",
}


def _mode_writes(m) -> Optional[bool]:
    if m is None:
        return False
    if m[0] == "c" and isinstance(m[1], str):
        return any(ch in m[1] for ch in "wax+")
    if m[0] == "phi":
        return any(_mode_writes(x) for x in m[1])
    return True  # unknown mode


def effect(c: Call) -> Optional[Tuple]:
    """("openw", path) | ("write", path) | ("rename", src, dst) | ("remove", path) | ("close", handle) |
    ("data", handle)"""
    x = c.ext()
    if x is not None:
        if x in OPEN and c.args:
            if _mode_writes(c.arg(1, "mode")):
                return ("openw", c.args[0])
            return None
        if x == "h5py.File":
            m = c.arg(1, "mode")
            if _mode_writes(m):
                return ("openw", c.args[0])
            return None
        if x in WRITE_AT_1:
            p = c.arg(1, "dst") or c.arg(1, "f")
            if p is None:
                return None
            if is_handle(p):
                return ("data", p)
            return ("write", p)
        if x in WRITE_AT_0 and c.args:
            return ("write", c.args[0])
        if x in RENAME:
            return ("rename", c.arg(0, "src"), c.arg(1, "dst"))
        if x in REMOVE and (c.args or c.kwargs):
            return ("remove", c.arg(0, "path"))
        if x in DUMP_HANDLE_1 and len(c.args) >= 2 and is_handle(c.args[1]):
            return ("data", c.args[1])
        return None
    if c.recv is not None:
        if is_handle(c.recv):
            if c.name == "close":
                return ("close", c.recv)
            if c.name in ("write", "writelines", "flush", "seek", "truncate"):
                return ("data", c.recv)
    return None


def is_handle(t) -> bool:
    return any(
        a[0] == "call" and a[1][0] == "ext" and (a[1][1] in OPEN or a[1][1] == "h5py.File") for a in alts(t)
    )


def handle_paths(t):
    return [a[2][0] for a in alts(t) if a[0] == "call" and a[2]]
