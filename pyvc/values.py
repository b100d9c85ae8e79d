"""Symbolic values. Everything that is not one of these classes is an ordinary Python object, used natively."""
from __future__ import annotations

import z3

Text = z3.DeclareSort("Text")
Obj = z3.DeclareSort("Obj")


class Unsupported(Exception):
    "The construct is outside of the fragment: the obligation stays undecided (never reported as a violation)."


class Infeasible(Exception):
    "The path condition has become unsatisfiable."


class Sym:
    "Base class of symbolic values."

    __slots__ = ()
    __hash__ = object.__hash__

    def __bool__(self):
        raise Unsupported(f"native truth test of {type(self).__name__}")

    def __eq__(self, other):
        raise Unsupported(f"native comparison of {type(self).__name__}")

    def __str__(self):
        raise Unsupported(f"native text conversion of {type(self).__name__}")

    def __format__(self, spec):
        raise Unsupported(f"native format of {type(self).__name__}")

    def __iter__(self):
        raise Unsupported(f"native iteration of {type(self).__name__}")

    def __len__(self):
        raise Unsupported(f"native length of {type(self).__name__}")


class SBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SBool({self.e})"


class SInt(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"SInt({self.e})"


class SOpt(Sym):
    "A value that may be None."

    __slots__ = ("none", "val")

    def __init__(self, none, val):
        self.none = none  # z3 Bool
        self.val = val

    def __repr__(self):
        return f"SOpt({self.none}, {self.val!r})"


class Atom:
    "One unknown piece of text."

    __slots__ = ("e", "kind", "arg")

    def __init__(self, e, kind="text", arg=None):
        self.e = e  # z3 expression of sort Text
        self.kind = kind  # text | ident | lit | type | int | stmt | join | hom
        self.arg = arg

    def __repr__(self):
        if self.kind in ("text", "type"):
            return f"‹{self.e}›"
        return f"‹{self.kind}:{self.arg!r}›"


class SStr(Sym):
    "A text made of literal and unknown pieces (a rope)."

    __slots__ = ("pieces",)

    def __init__(self, pieces):
        out = []
        for p in pieces:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + p
                    continue
            out.append(p)
        self.pieces = tuple(out)

    def __repr__(self):
        return "S" + repr(list(self.pieces))


def rope(*parts):
    "Concatenates texts; returns a native str if nothing is symbolic."
    pieces = []
    for p in parts:
        if isinstance(p, SStr):
            pieces.extend(p.pieces)
        elif isinstance(p, (str, Atom)):
            pieces.append(p)
        else:
            raise Unsupported(f"not a text: {type(p)}")
    s = SStr(pieces)
    if not s.pieces:
        return ""
    if len(s.pieces) == 1 and isinstance(s.pieces[0], str):
        return s.pieces[0]
    return s


def pieces_of(s):
    if isinstance(s, SStr):
        return s.pieces
    if isinstance(s, str):
        return (s,) if s else ()
    raise Unsupported(f"not a text: {type(s)}")


class Opaque(Sym):
    "An object known only up to identity/equality, with a declared class."

    __slots__ = ("e", "cls", "attrs", "name")

    def __init__(self, e, cls=object, name=""):
        self.e = e  # z3 expression of sort Obj
        self.cls = cls
        self.attrs = {}
        self.name = name or str(e)

    def __repr__(self):
        return f"<{self.cls.__name__} {self.e}>"


class Base:
    """
    A finite sequence of unknown length of similar elements.

    `make(prefix)` builds a generic element whose z3 constants are all named with the prefix.
    `key(element)` is the text under which elements are distinct, if any.
    """

    def __init__(self, name, make, key=None, constrain=None):
        self.name = name
        self.make = make
        self.key = key
        self.constrain = constrain
        self.ne = z3.Bool(f"{name}.nonempty")
        self.canon = None
        self.instances = {}
        self.owner = None

    def prefix(self, tag="e"):
        return f"{self.name}.{tag}"

    def __repr__(self):
        return f"Base({self.name})"


class Seg:
    "A flat-mapped part of a sequence: for each element of `base` in order, the items of the case that applies."

    __slots__ = ("base", "cases", "rev")

    def __init__(self, base, cases, rev=False):
        self.base = base
        self.cases = [(c, tuple(items)) for c, items in cases]
        self.rev = rev

    def __repr__(self):
        return f"Seg({self.base.name}{'↓' if self.rev else ''}: " + " | ".join(
            f"{c} → {list(i)}" for c, i in self.cases
        ) + ")"


class Seq(Sym):
    "A list, tuple, set or iterator that may contain segments of unknown length. Mutable if a list or set."

    __slots__ = ("items", "kind", "birth", "noread", "pos")

    def __init__(self, items=(), kind="list", birth=0):
        self.items = list(items)
        self.kind = kind
        self.birth = birth
        self.noread = False
        self.pos = 0

    def concrete(self):
        return not any(isinstance(i, Seg) for i in self.items)

    def __repr__(self):
        return f"Seq[{self.kind}]({self.items!r})"


class SDict(Sym):
    "A dictionary: an ordered list of (key, value) entries and segments of such."

    __slots__ = ("items", "birth", "noread", "mem", "name", "bases", "lookup")

    def __init__(self, items=(), birth=0, name="dict"):
        self.items = list(items)  # (key, value) pairs or Seg whose items are (key, value) pairs
        self.birth = birth
        self.noread = False
        self.name = name
        self.mem = None
        self.lookup = {}
        self.bases = []

    def concrete(self):
        return not any(isinstance(i, Seg) for i in self.items)

    def __repr__(self):
        return f"SDict({self.items!r})"


class Poison(Sym):
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"Poison({self.why})"


class BoundMethod:
    __slots__ = ("obj", "func")

    def __init__(self, obj, func):
        self.obj = obj
        self.func = func

    def __repr__(self):
        return f"BoundMethod({self.func})"


class SymMethod:
    "A method of a symbolic text, sequence or dictionary."
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class SuperProxy:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Closure:
    "A function defined by interpreted code."

    def __init__(self, node, env, module_globals, name, defaults, kwdefaults, cls=None):
        self.node = node
        self.env = env
        self.globals = module_globals
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls

    def __repr__(self):
        return f"Closure({self.name})"


class PyRaise(Exception):
    "An exception raised by interpreted code."

    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return f"PyRaise({type(self.value).__name__})"


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class NativeFn:
    "A function of the verifier itself, callable from interpreted code."

    def __init__(self, f):
        self.f = f
