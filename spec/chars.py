"""
Readers of quoted text, character by character: what a database reads back from identifiers, string literals and LIKE
patterns. A reader is a finite state machine that treats all characters alike but those of its alphabet.

A text of a statement is a sequence of known characters and of unknown texts, each possibly passed through a mapping of
characters (what str.replace of a character and str.translate do). An unknown text is read by induction on its length:
reading what any one character is mapped to, from the state that the reader is in, must lead back to that state. What is
emitted then defines the mapping that the reader applies to the text as a whole.
"""
from __future__ import annotations

from pyvc.values import Unsupported, SStr, pieces_of

# stands for any character that is neither in the alphabet of a reader nor changed by the mapping
OTHER = "\U0010FFFE"


class Unreadable(Exception):
    pass


class Statement:
    """
    Identifiers and string literals of a statement. Emits ("id",), ("str",), ("end",) around their characters; other
    characters are emitted as they are.

    :param backslash: A backslash in a string literal escapes the next character.
    :param doubled: Two quotes in a string literal stand for one; otherwise, they separate literals that are joined.
    :param ticks: Identifiers may be delimited by backticks.
    :param double_strings: Double quotes delimit strings.
    """

    ESC = {"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f"}

    def __init__(self, backslash=False, doubled=True, ticks=False, extra=(), prefix=True, octal=False):
        self.backslash = backslash
        self.doubled = doubled
        self.ticks = ticks
        self.esc = {**self.ESC, **dict(extra)}
        self.prefix = prefix
        self.octal = octal
        self.alphabet = {"'", '"', "\\", "`", "E", "e", *self.esc, *"01234567"}
        self.start = ("top", "")

    def accepts(self, s):
        return s[0] == "top" or s[0] == "quote"

    def end(self, s):
        "What is emitted at the end of the text."
        return [("end",)] if s[0] == "quote" else []

    def step(self, s, c):
        kind = s[0]
        if kind == "quote":
            _, q, esc = s
            if c == q:
                if q == "'" and not self.doubled:
                    return ("str", q, esc), []
                return ("str", q, esc), [q]
            t, out = self.step(("top", ""), c)
            return t, [("end",), *out]
        if kind == "top":
            if c == '"' or c == "`" and self.ticks:
                return ("str", c, False), [("id",)]
            if c == "'":
                return ("str", c, self.backslash or self.prefix and s[1] in ("E", "e")), [("str",)]
            # the letter before a literal, unless it ends a word
            word = c if c != OTHER and (c.isalnum() or c == "_") else ""
            return ("top", word if s[1] == "" else (s[1] + word if word else "")[:2]), [c]
        if kind == "str":
            _, q, esc = s
            if c == q:
                return ("quote", q, esc), []
            if c == "\\" and esc:
                return ("escape", q, esc), []
            return s, [c]
        if kind == "escape":
            _, q, esc = s
            if self.octal and c in "01234567":
                return ("octal", q, esc, c), []
            return ("str", q, esc), [self.esc.get(c, c)]
        if kind == "octal":
            _, q, esc, digits = s
            if c in "01234567" and c != OTHER:
                digits += c
                if len(digits) == 3:
                    return ("str", q, esc), [chr(int(digits, 8))]
                return ("octal", q, esc, digits), []
            if digits == "0":
                t, out = self.step(("str", q, esc), c)
                return t, ["\0", *out]
            t, out = self.step(("str", q, esc), c)
            return t, [*digits, *out]
        raise Unreadable(str(s))


class Like:
    "A LIKE pattern with an escape character: emits (\"any\",) and (\"one\",) for wildcards."

    def __init__(self, escape):
        self.escape = escape
        self.alphabet = {escape, "%", "_"}
        self.start = "plain"

    def accepts(self, s):
        return s == "plain"

    def end(self, s):
        return []

    def step(self, s, c):
        if s == "escaped":
            if c not in self.alphabet:
                raise Unreadable("escape of an ordinary character")
            return "plain", [c]
        if c == self.escape:
            return "escaped", []
        if c == "%":
            return s, [("any",)]
        if c == "_":
            return s, [("one",)]
        return s, [c]


class Odbc:
    "A connection string of ODBC: emits (\"value\",) and (\"end\",) around values. A value in braces may have any character."

    def __init__(self):
        self.alphabet = {"=", ";", "{", "}"}
        self.start = "key"

    def accepts(self, s):
        return s in ("key", "value", "plain", "close")

    def end(self, s):
        return [] if s == "key" else [("end",)]

    def step(self, s, c):
        if s == "brace":
            return ("close", []) if c == "}" else (s, [c])
        if s == "close" and c == "}":
            return "brace", [c]
        if s == "key":
            return ("value", [("value",)]) if c == "=" else (s, [c])
        if c == ";":
            return "key", [("end",)]
        if s == "value" and c == "{":
            return "brace", []
        if s == "close":
            raise Unreadable("text after a value in braces")
        return "plain", [c]


# what string literals are like in each database
STANDARD = Statement()
POSTGRESQL = Statement(prefix=True)
MYSQL = Statement(backslash=True, ticks=True, extra={"0": "\0", "Z": "\x1a", "%": "\\%", "_": "\\_"}.items())
SNOWFLAKE = Statement(backslash=True, octal=True)
DELTA = Statement(backslash=True, doubled=False, ticks=True, octal=True, extra={"Z": "\x1a", "%": "\\%", "_": "\\_"}.items())


def run(machine, state, word):
    out = []
    for c in word:
        state, o = machine.step(state, c)
        out.extend(o)
    return state, out


def read(g, machine, text, what="text"):
    "The emitted text and marks; the reader must accept."
    from pyvc.builtins_ import hom_atom

    out = []

    def emit(xs):
        for x in xs:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)

    state = machine.start
    for p in [text] if isinstance(text, str) else pieces_of(text):
        if isinstance(p, str):
            try:
                state, o = run(machine, state, p)
            except Unreadable as ex:
                g.fail(f"{what} is readable", (text, ex))
                return None
            emit(o)
            continue
        if p.kind in ("type", "expr") and state[0] == "top":
            # a unit of the statement
            state = ("top", "")
            emit([SStr([p])])
            continue
        if p.kind == "hom":
            base, table = p.arg[0], dict(p.arg[1])
        elif p.kind in ("text", "type", "expr", "int"):
            base, table = p, {}
        else:
            raise Unsupported(f"reading of {p.kind}")
        digits = "0123456789-"
        decoded = {}
        for c in sorted(set(table) | machine.alphabet | set(digits)) + [OTHER]:
            if base.kind == "int" and c not in digits:
                continue
            try:
                t, o = run(machine, state, table.get(c, c))
                ok = t == state and all(isinstance(x, str) for x in o)
            except Unreadable:
                ok, t, o = False, None, []
            if not ok:
                if c == OTHER:
                    g.fail(f"any character is left inside the {what}", (state, t, o))
                    return None
                absent = g.Not(g.contains_char(base, c))
                if not g.ensure(f"character {c!r} is left inside the {what}", absent, (state, table.get(c, c), t, o)):
                    return None
            elif "".join(o) != c:
                if c == OTHER:
                    g.fail(f"any character stands for itself in the {what}", (state, o))
                    return None
                decoded[c] = "".join(o)
        decoded = {c: w for c, w in decoded.items() if not g.known(g.Not(g.contains_char(base, c)))}
        emit([SStr([hom_atom(g.e, base, decoded)])])
    if not machine.accepts(state):
        g.fail(f"{what} is complete", (text, state))
        return None
    emit(machine.end(state))
    return out


def parts(g, out):
    "Marks and texts: [(kind, text)] of identifiers and literals, and the text between them."
    from pyvc.values import rope

    r = []
    kind, buf = "text", []
    for x in [*out, ("stop",)]:
        if isinstance(x, tuple):
            if kind != "text" or buf:
                r.append((kind, rope(*buf) if buf else ""))
            kind, buf = ("text" if x[0] in ("end", "stop") else x[0]), []
        else:
            buf.append(x)
    return r


def tokens(g, machine, text, what="text"):
    o = read(g, machine, text, what)
    return None if o is None else parts(g, o)


def like(g, escape, text, what="pattern"):
    return read(g, Like(escape), text, what)
