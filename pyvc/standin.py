"""
Objects that stand for others: what a contract gives to the code in place of a driver, an explorer or a part of it. Code
that asks one for what it does not have shows nothing about the code: the contract is then not decided for this path.
"""
from __future__ import annotations

import dataclasses
import enum
import inspect
import re
import sys


def stands_in(obj) -> bool:
    "Made by a contract, and not as data."
    cls = obj if isinstance(obj, type) else type(obj)
    if not (cls.__module__ or "").startswith("contracts.") or dataclasses.is_dataclass(cls):
        return False
    return not issubclass(cls, (enum.Enum, BaseException))


def lacks(obj, name) -> bool:
    "An object of which a contract gave only a part, without this attribute, which other objects of its class have."
    if stands_in(obj):
        return True
    if isinstance(obj, type) or not (type(obj).__module__ or "").startswith("pysqlsync."):
        return False
    for k in type(obj).__mro__:
        if name in k.__dict__.get("__annotations__", {}):
            return True
        init = k.__dict__.get("__init__")
        code = getattr(init, "__code__", None)
        if code is not None and code.co_filename != "<string>":
            try:
                if re.search(rf"\bself\.{re.escape(name)}\b", inspect.getsource(init)):
                    return True
            except (OSError, TypeError):
                pass
    return False


def misused(ex, seen=()) -> bool:
    "An exception raised because a stand-in was asked for what it does not have, or one that such an exception led to."
    if ex is None or ex in seen:
        return False
    if isinstance(ex, AttributeError) and ex.name is not None and lacks(ex.obj, ex.name):
        return True
    if isinstance(ex, TypeError) and ex.args and isinstance(ex.args[0], str):
        m = re.match(r"(?:([A-Za-z_][\w.]*\.<locals>\.)?)([A-Za-z_<][\w.<>]*)\(\) (got|takes|missing)\b", ex.args[0])
        if m and named(m.group(2).split(".")[-2:]):
            return True
    seen = (*seen, ex)
    return misused(ex.__cause__, seen) or misused(ex.__context__, seen)


def named(parts) -> bool:
    "A method of a stand-in, or a function that replaces one of the code."
    if parts == ["<lambda>"]:
        return False
    if len(parts) != 2:
        return False
    for n, m in list(sys.modules.items()):
        if n.startswith("contracts."):
            c = getattr(m, parts[0], None)
            if isinstance(c, type) and c.__module__ == n and stands_in(c) and hasattr(c, parts[1]):
                return True
    return False
