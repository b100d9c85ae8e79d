"""
A reader for the SQL that the library writes: independent of how the text was put together. Texts are native strings
(concrete runs) or ropes of literal and unknown pieces (proofs); lists of unknown length appear as segments. The result
is a list of abstract operations.
"""
from __future__ import annotations

import re

from pyvc.values import Atom, Seg, Seq, SStr, Unsupported, pieces_of
from pyvc.gen import SpecError

TOKEN = re.compile(
    r"""
    (?P<ws>\s+)
  | (?P<str>[EeNn]?'(?:[^'\\]|''|\\.)*')
  | (?P<id>"(?:[^"]|"")*"|`(?:[^`]|``)*`)
  | (?P<num>\d+(?:\.\d+)?)
  | (?P<word>[A-Za-z_$][A-Za-z0-9_$]*)
  | (?P<p2>::)
  | (?P<ph>[:@$?]\d*|%s)
  | (?P<p><=|>=|<>|!=|[-+*/=<>();,.\[\]{}&|!:~@%?])
    """,
    re.X | re.S,
)


# dialects in whose string literals a backslash escapes the next character
BACKSLASH = ("delta", "snowflake", "mysql")


class Join:
    "A separated list of unknown length."

    def __init__(self, sep, items):
        self.sep = sep
        self.items = items

    def __repr__(self):
        return f"Join({self.sep!r}, {self.items!r})"


def lex_plain(s, out, backslash=False):
    pos = 0
    while pos < len(s):
        if s[pos] == "'" or (s[pos] in "EeNn" and s[pos + 1:pos + 2] == "'"):
            pos = lex_string(s, pos, out, backslash)
            continue
        m = TOKEN.match(s, pos)
        if m is None:
            raise SpecError(f"unreadable SQL at {s[pos:pos + 30]!r}")
        pos = m.end()
        k = m.lastgroup
        t = m.group()
        if k == "ws":
            continue
        if k == "id":
            q = t[0]
            out.append(("id", t[1:-1].replace(q + q, q)))
        elif k == "word":
            out.append(("w", t))
        elif k == "num":
            out.append(("num", t))
        elif k == "ph":
            out.append(("ph", t))
        else:
            out.append(("p", t))


ESC = {"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f", "0": "\0", "Z": "\x1a"}


def lex_string(s, pos, out, backslash):
    esc = backslash
    if s[pos] in "Ee":
        esc = True
        pos += 1
    elif s[pos] in "Nn":
        pos += 1
    pos += 1
    buf = []
    while True:
        if pos >= len(s):
            raise SpecError("unterminated string literal")
        c = s[pos]
        if c == "'":
            if s[pos + 1:pos + 2] == "'":
                buf.append("'")
                pos += 2
                continue
            break
        if c == "\\" and esc:
            if pos + 1 >= len(s):
                raise SpecError("unterminated escape")
            n = s[pos + 1]
            buf.append(ESC.get(n, n))
            pos += 2
            continue
        buf.append(c)
        pos += 1
    out.append(("str", "".join(buf)))
    return pos + 1


def lex(text, backslash=False):
    out = []
    if isinstance(text, str):
        lex_plain(text, out, backslash)
        return out
    for p in pieces_of(text):
        if isinstance(p, str):
            lex_plain(p, out, backslash)
        elif p.kind == "ident" or p.kind == "bident":
            out.append(("id", p.arg))
        elif p.kind == "lit":
            out.append(("str", p.arg))
        elif p.kind in ("stmt", "coldef"):
            out.append((p.kind, p.arg))
        elif p.kind == "join":
            sep, seq = p.arg
            out.append(Join(sep, list(seq.items)))
        elif p.kind in ("type", "expr", "int"):
            out.append(("sym", SStr([p])))
        else:
            raise Unsupported(f"unknown text in a statement: {p!r}")
    return out


def smap(items, f):
    "Maps each element of a list that may contain segments to a list of elements."
    out = []
    for i in items:
        if isinstance(i, Seg):
            out.append(Seg(i.base, [(c, tuple(smap(xs, f))) for c, xs in i.cases], i.rev))
        else:
            out.extend(f(i))
    return out


def is_w(t, *words):
    return isinstance(t, tuple) and t[0] == "w" and t[1].upper() in words


def is_p(t, c):
    return isinstance(t, tuple) and t[0] == "p" and t[1] == c


def text_items(items):
    return items


def statements(tokens):
    "Splits a script into its statements (token lists); segments of statements stay segments."
    out, cur = [], []
    depth_begin = 0
    for t in tokens:
        if not cur and isinstance(t, Join) and not t.sep.strip():
            out.extend(smap(t.items, lambda x: statements(lex(x))))
        elif not cur and isinstance(t, tuple) and t[0] == "stmt":
            out.append([t])
        elif is_p(t, ";") and depth_begin and is_w(cur[-1], "END"):
            out.append(cur)
            cur, depth_begin = [], 0
        elif is_p(t, ";") and not depth_begin:
            if cur:
                out.append(cur)
                cur = []
        else:
            if not cur and is_w(t, "BEGIN"):
                depth_begin = 1
            cur.append(t)
    if cur:
        raise SpecError(f"statement without terminator: {cur!r}")
    return out


def commas(tokens, sep=","):
    "Splits at separators outside of parentheses; separated lists of unknown length become segments."
    out, cur, depth = [], [], 0
    for n, t in enumerate(tokens):
        if isinstance(t, Join) and t.sep.strip() == sep and depth == 0:
            if cur:
                raise SpecError(f"list after {cur!r}")
            nxt = tokens[n + 1] if n + 1 < len(tokens) else None
            if nxt is not None and not is_p(nxt, sep) and not is_w(nxt, sep):
                raise SpecError("list not followed by a separator")
            out.extend(smap(t.items, lambda x: commas(lex(x), sep)))
            cur = None
            continue
        if is_p(t, "("):
            depth += 1
        elif is_p(t, ")"):
            depth -= 1
            if depth < 0:
                raise SpecError("unbalanced parentheses")
        if (is_p(t, sep) or is_w(t, sep)) and depth == 0:
            if cur is not None:
                if not cur:
                    raise SpecError("empty list item")
                out.append(cur)
            cur = []
            continue
        if cur is None:
            raise SpecError("text after a list")
        cur.append(t)
    if depth:
        raise SpecError("unbalanced parentheses")
    if cur:
        out.append(cur)
    elif cur is not None and out:
        raise SpecError("trailing separator")
    return out


class Cursor:
    def __init__(self, tokens):
        self.t = tokens
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def done(self):
        return self.i >= len(self.t)

    def next(self):
        if self.done():
            raise SpecError("unexpected end of statement")
        self.i += 1
        return self.t[self.i - 1]

    def word(self, *words):
        for w in words:
            t = self.next()
            if not is_w(t, w):
                raise SpecError(f"expected {w}, got {t!r} in {self.t!r}")

    def accept(self, *words):
        for k, w in enumerate(words):
            if not is_w(self.peek(k), w):
                return False
        self.i += len(words)
        return True

    def punct(self, c):
        t = self.next()
        if not is_p(t, c):
            raise SpecError(f"expected {c!r}, got {t!r} in {self.t!r}")

    def accept_p(self, c):
        if is_p(self.peek(), c):
            self.i += 1
            return True
        return False

    def ident(self):
        t = self.next()
        if not (isinstance(t, tuple) and t[0] == "id"):
            raise SpecError(f"expected an identifier, got {t!r} in {self.t!r}")
        return t[1]

    def qname(self):
        a = self.ident()
        if self.accept_p("."):
            return (a, self.ident())
        return (None, a)

    def string(self):
        t = self.next()
        if not (isinstance(t, tuple) and t[0] == "str"):
            raise SpecError(f"expected a string literal, got {t!r} in {self.t!r}")
        return t[1]

    def group(self):
        "The tokens inside of a parenthesized group."
        self.punct("(")
        depth, out = 1, []
        while True:
            t = self.next()
            if is_p(t, "("):
                depth += 1
            elif is_p(t, ")"):
                depth -= 1
                if depth == 0:
                    return out
            out.append(t)

    def until(self, *stops):
        out, depth = [], 0
        while not self.done():
            t = self.peek()
            if depth == 0 and is_w(t, *stops):
                break
            if is_p(t, "("):
                depth += 1
            elif is_p(t, ")"):
                depth -= 1
            out.append(self.next())
        return tuple(out)

    def rest(self):
        out = tuple(self.t[self.i:])
        self.i = len(self.t)
        return out

    def end(self):
        if not self.done():
            raise SpecError(f"unexpected {self.peek()!r} in {self.t!r}")


def idents(tokens):
    "A parenthesized list of identifiers."
    def one(ts):
        c = Cursor(ts)
        v = c.ident()
        c.end()
        return [v]
    return smap(commas(tokens), one)


SPEC_STOP = ("NOT", "NULL", "DEFAULT", "GENERATED", "IDENTITY", "AUTO_INCREMENT", "COMMENT", "CONSTRAINT", "CHARACTER", "DROP")


def column_spec(c: Cursor, partial=False):
    "type and attributes of a column; every attribute at most once"
    if isinstance(c.peek(), tuple) and c.peek()[0] == "coldef":
        return {"def": c.next()[1]}
    spec = {"type": None, "notnull": None, "default": None, "identity": None, "comment": None, "charset": None,
            "default_name": None}
    typ = c.until(*SPEC_STOP)
    spec["type"] = typ if typ else None
    if not typ and not partial:
        raise SpecError("column without a type")

    def put(k, v):
        if spec[k] is not None:
            raise SpecError(f"{k} given twice in a column definition")
        spec[k] = v

    while not c.done():
        if c.accept("NOT", "NULL"):
            put("notnull", True)
        elif c.accept("NULL"):
            put("notnull", False)
        elif c.accept("DEFAULT"):
            e = []
            if is_w(c.peek(), "NULL"):
                e.append(c.next())
            e.extend(c.until(*SPEC_STOP))
            if not e:
                raise SpecError("empty default")
            put("default", tuple(e))
        elif c.accept("CONSTRAINT"):
            put("default_name", c.ident())
            if not is_w(c.peek(), "DEFAULT"):
                raise SpecError("constraint in a column definition")
        elif c.accept("GENERATED", "BY", "DEFAULT", "AS", "IDENTITY") or c.accept("IDENTITY") or c.accept("AUTO_INCREMENT"):
            put("identity", True)
        elif c.accept("DROP", "IDENTITY"):
            put("identity", False)
        elif c.accept("COMMENT"):
            put("comment", c.string())
        elif c.accept("CHARACTER", "SET"):
            a = c.next()
            c.word("COLLATE")
            put("charset", (a, c.next()))
        else:
            raise SpecError(f"unexpected {c.peek()!r} in a column definition")
    return spec


def constraint_spec(c: Cursor):
    name = c.ident()
    if c.accept("UNIQUE"):
        r = ("unique", name, idents(c.group()))
    elif c.accept("FOREIGN", "KEY"):
        cols = idents(c.group())
        c.word("REFERENCES")
        q = c.qname()
        r = ("foreign", name, cols, q, idents(c.group()))
    elif c.accept("PRIMARY", "KEY"):
        r = ("primary", name, idents(c.group()))
    elif c.accept("CHECK"):
        r = ("check", name, tuple(c.group()))
    elif c.accept("DEFAULT"):
        e = c.until("FOR")
        c.word("FOR")
        r = ("default", name, e, c.ident())
    else:
        raise SpecError(f"unknown constraint {c.t!r}")
    c.end()
    return r


def action(ts, dialect):
    "One action of ALTER TABLE / ALTER TYPE."
    if len(ts) == 1 and isinstance(ts[0], tuple) and ts[0][0] == "stmt":
        return ("opaque", ts[0][1])
    c = Cursor(ts)
    if c.accept("ADD", "COLUMN") or (is_w(c.peek(), "ADD") and isinstance(c.peek(1), tuple) and c.peek(1)[0] == "id" and c.next()):
        n = c.ident()
        r = ("add", n, column_spec(c))
    elif c.accept("ADD", "CONSTRAINT"):
        s = constraint_spec(c)
        r = ("addc", s[1], s)
    elif c.accept("DROP", "COLUMN"):
        r = ("drop", c.ident())
    elif c.accept("DROP", "CONSTRAINT"):
        r = ("dropc", c.ident())
    elif c.accept("RENAME", "COLUMN"):
        a = c.ident()
        c.word("TO")
        r = ("rename", a, c.ident(), None)
    elif c.accept("RENAME", "TO"):
        r = ("renameto", c.ident())
    elif c.accept("CHANGE"):
        a = c.ident()
        b = c.ident()
        r = ("rename", a, b, column_spec(c))
    elif c.accept("ALTER", "COLUMN"):
        n = c.ident()
        if c.accept("SET", "DATA", "TYPE"):
            r = ("alter", n, "type", c.rest())
        elif c.accept("SET", "NOT", "NULL"):
            r = ("alter", n, "nullable", False)
        elif c.accept("DROP", "NOT", "NULL"):
            r = ("alter", n, "nullable", True)
        elif c.accept("DROP", "DEFAULT"):
            r = ("alter", n, "default", None)
        elif c.accept("SET", "DEFAULT"):
            r = ("alter", n, "default", c.rest())
        elif c.accept("DROP", "IDENTITY"):
            r = ("alter", n, "identity", False)
        elif c.accept("ADD", "GENERATED", "BY", "DEFAULT", "AS", "IDENTITY"):
            r = ("alter", n, "identity", True)
        elif dialect == "mssql":
            r = ("redefine", n, column_spec(c))
        else:
            raise SpecError(f"unknown alteration {ts!r}")
        if r[0] == "alter" and r[2] in ("type", "default") and r[3] == ():
            raise SpecError("empty alteration")
    elif c.accept("MODIFY", "COLUMN"):
        n = c.ident()
        r = ("redefine", n, column_spec(c))
    elif c.accept("MODIFY"):
        n = c.ident()
        r = ("modify", n, column_spec(c, partial=True))
    elif c.accept("COMMENT"):
        c.punct("=")
        r = ("comment", c.string())
    elif c.accept("DROP", "ATTRIBUTE"):
        r = ("drop", c.ident())
    elif c.accept("ADD", "ATTRIBUTE"):
        n = c.ident()
        r = ("add", n, {"type": c.rest()})
    elif c.accept("ALTER", "ATTRIBUTE"):
        n = c.ident()
        c.word("SET", "DATA", "TYPE")
        r = ("alter", n, "type", c.rest())
    elif c.accept("ADD", "VALUE"):
        r = ("addvalue", c.string())
    else:
        raise SpecError(f"unknown action {ts!r}")
    c.end()
    return r


def actions(tokens, dialect):
    verb = None
    if tokens and is_w(tokens[0], "ADD", "DROP") and len(tokens) > 1 and (
            isinstance(tokens[1], Join) or is_w(tokens[1], "CONSTRAINT", "COLUMN")):
        verb = tokens[0]
        if isinstance(tokens[1], Join):
            tokens = tokens[1:]

    def one(ts):
        ts = list(ts)
        if verb is not None and is_w(ts[0], "CONSTRAINT", "COLUMN"):
            ts = [verb] + ts
        return [action(ts, dialect)]

    return smap(commas(tokens), one)


def values_list(c):
    "VALUES (…), (…)"
    def row(ts):
        k = Cursor(ts)
        r = smap(commas(k.group()), lambda x: [tuple(x)])
        return [("row", r, k.rest())]
    return row


def statement(ts, dialect="ansi"):
    if len(ts) == 1 and isinstance(ts[0], tuple) and ts[0][0] == "stmt":
        return ("opaque", ts[0][1])
    c = Cursor(ts)
    if c.accept("ALTER", "TABLE"):
        q = c.qname()
        return ("altertable", q, actions(list(c.rest()), dialect))
    if c.accept("ALTER", "TYPE"):
        q = c.qname()
        return ("altertype", q, actions(list(c.rest()), dialect))
    if c.accept("CREATE", "TABLE"):
        c.accept("IF", "NOT", "EXISTS")
        q = c.qname()
        body = commas(c.group())

        def member(x):
            k = Cursor(x)
            if k.accept("CONSTRAINT"):
                return [("constraint", constraint_spec(k))]
            n = k.ident()
            return [("column", n, column_spec(k))]

        r = ("createtable", q, smap(body, member))
        if not c.done():
            c.word("COMMENT")
            c.accept_p("=")
            r = r + (c.string(),)
        else:
            r = r + (None,)
    elif c.accept("CREATE", "TYPE"):
        q = c.qname()
        c.word("AS")
        if c.accept("ENUM"):
            def lit(x):
                k = Cursor(x)
                v = k.string()
                k.end()
                return [v]
            r = ("createenum", q, smap(commas(c.group()), lit))
        else:
            def member(x):
                k = Cursor(x)
                return [("column", k.ident(), {"type": k.rest()})]
            r = ("createstruct", q, smap(commas(c.group()), member))
    elif c.accept("DROP", "TABLE"):
        ife = c.accept("IF", "EXISTS")
        r = ("droptable", c.qname()) + (("if exists",) if ife else ())
        if c.accept("CASCADE", "CONSTRAINTS"):
            c.accept("PURGE")
    elif c.accept("DROP", "TYPE"):
        c.accept("IF", "EXISTS")
        r = ("droptype", c.qname())
    elif c.accept("CREATE", "SCHEMA"):
        c.accept("IF", "NOT", "EXISTS")
        r = ("createschema", c.ident())
    elif c.accept("DROP", "SCHEMA"):
        c.accept("IF", "EXISTS")
        n = c.ident()
        c.accept("CASCADE")
        r = ("dropschema", n)
    elif c.accept("IF", "NOT", "EXISTS"):
        # Microsoft SQL Server: the statement is a batch of its own
        k = Cursor(c.group())
        k.word("SELECT")
        k.punct("*")
        k.word("FROM", "SYS")
        k.punct(".")
        k.word("SCHEMAS", "WHERE", "NAME")
        k.punct("=")
        k.accept("N")
        n = k.string()
        k.end()
        c.word("EXEC")
        k = Cursor(c.group())
        inner = statement(lex(k.string()), dialect)
        k.end()
        r = inner + ("unless", n)
    elif c.accept("BEGIN", "EXECUTE", "IMMEDIATE"):
        # Oracle: errors about a missing table are ignored
        r = statement(lex(c.string()), dialect)
        c.punct(";")
        c.word("EXCEPTION", "WHEN", "OTHERS", "THEN", "IF", "SQLCODE")
        c.punct("!=")
        c.punct("-")
        if c.next() != ("num", "942"):
            raise SpecError("only the error about a missing table is ignored")
        c.word("THEN", "RAISE")
        c.punct(";")
        c.word("END", "IF")
        c.punct(";")
        c.word("END")
        r = r + ("if exists",)
    elif c.accept("COMMENT", "ON"):
        what = c.next()[1].upper()
        a = [c.ident()]
        while c.accept_p("."):
            a.append(c.ident())
        c.word("IS")
        v = None if c.accept("NULL") else c.string()
        r = ("commenton", what, tuple(a), v)
    elif c.accept("INSERT", "INTO"):
        return insert(c)
    elif c.accept("MERGE", "INTO"):
        return merge(c)
    elif c.accept("DELETE", "FROM"):
        q = c.qname()
        c.word("WHERE")
        a, v = equality(c.rest())
        return ("delete", q, a, v)
    elif c.accept("UPDATE"):
        q = c.qname()
        return ("update", q, c.rest())
    else:
        raise SpecError(f"unknown statement {ts!r}")
    c.end()
    return r


def insert(c):
    q = c.qname()
    cols = idents(c.group())
    if c.accept("VALUES"):
        toks = c.rest()
        # the rows end where a clause begins
        n = next((i for i, t in enumerate(toks) if is_w(t, "ON", "AS")), len(toks))

        def row(x):
            k = Cursor(x)
            vals = smap(commas(k.group()), lambda y: [tuple(y)])
            k.end()
            return [tuple(vals) if not any(isinstance(v, Seg) for v in vals) else vals]

        rows = smap(commas(list(toks[:n])), row)
        return ("insert", q, cols, rows, toks[n:])
    return ("insertselect", q, cols, c.rest())


def placeholder(tokens):
    "The parameter that a value stands for: (\"param\", number) or (\"param\", None) where they are not numbered."
    if len(tokens) == 1 and tokens[0] in (("ph", "?"), ("ph", "%s")):
        return ("param", None)
    if len(tokens) == 1 and tokens[0][0] in ("w", "ph") and tokens[0][1][0] in "$:" and tokens[0][1][1:].isdigit():
        return ("param", tokens[0][1][1:])
    if len(tokens) == 2 and tokens[0] in (("w", "$"), ("ph", ":")) and tokens[1][0] == "sym":
        return ("param", tokens[1][1])
    return ("other", tuple(tokens))


def equality(tokens):
    "left = right, as two lists of tokens."
    n = next((i for i, t in enumerate(tokens) if is_p(t, "=")), None)
    if n is None:
        raise SpecError(f"expected =, got {tokens!r}")
    return tuple(tokens[:n]), tuple(tokens[n + 1:])


def column_of(tokens, row=None):
    "A column, or a column of the given row."
    tokens = list(tokens)
    if row is not None:
        if not (len(tokens) == 3 and is_w(tokens[0], row) and is_p(tokens[1], ".")):
            raise SpecError(f"expected a column of {row}, got {tokens!r}")
        tokens = tokens[2:]
    if len(tokens) != 1 or tokens[0][0] != "id":
        raise SpecError(f"expected a column, got {tokens!r}")
    return tokens[0][1]


def assignments(tokens, target=None):
    "Assignments to columns: (column, \"new\" or \"old\", column whose supplied or previous value it gets)."
    def one(ts):
        a, b = equality(ts)
        a = column_of(a, target)
        if len(b) == 3 and is_w(b[0], "EXCLUDED", "SOURCE") and is_p(b[1], "."):
            return [(a, "new", column_of(b[2:]))]
        if len(b) == 4 and is_w(b[0], "VALUES") and is_p(b[1], "(") and is_p(b[3], ")"):
            return [(a, "new", column_of(b[2:3]))]
        return [(a, "old", column_of(b))]
    return smap(commas(list(tokens)), one)


def conflict(tokens):
    "What an INSERT does about rows that are there already."
    c = Cursor(tokens)
    if c.done():
        return None
    if c.accept("ON", "DUPLICATE", "KEY", "UPDATE"):
        return ("update", None, assignments(c.rest()))
    c.word("ON", "CONFLICT")
    keys = idents(c.group()) if is_p(c.peek(), "(") else None
    c.word("DO")
    if c.accept("NOTHING"):
        c.end()
        return ("nothing", keys)
    c.word("UPDATE", "SET")
    return ("update", keys, assignments(c.rest()))


def merge(c):
    q = c.qname()
    c.word("TARGET", "USING")
    k = Cursor(c.group())
    k.word("VALUES")
    values = smap(commas(k.group()), lambda y: [placeholder(y)])
    k.end()
    c.word("SOURCE")
    cols = idents(c.group())

    def match(ts):
        a, b = equality(ts)
        a, b = column_of(a, "TARGET"), column_of(b, "SOURCE")
        return [(a, b)]

    on = None
    if c.accept("ON"):
        on = smap(commas(c.group(), "OR"), match)
    rest = list(c.rest())
    cut = [i for i, t in enumerate(rest) if is_w(t, "WHEN")] + [len(rest)]
    if cut[0] != 0:
        raise SpecError(f"unexpected {rest!r}")
    matched = unmatched = None
    for a, b in zip(cut, cut[1:]):
        k = Cursor(rest[a + 1:b])
        if k.accept("MATCHED", "THEN"):
            if matched is not None:
                raise SpecError("matched twice")
            k.word("UPDATE", "SET")
            matched = assignments(k.rest(), "TARGET")
        else:
            k.word("NOT", "MATCHED", "THEN", "INSERT")
            if unmatched is not None:
                raise SpecError("not matched twice")
            names = idents(k.group())
            k.word("VALUES")
            unmatched = (names, smap(commas(k.group()), lambda y: [column_of(y, "SOURCE")]))
            k.end()
    return ("merge", q, values, cols, on, matched, unmatched)


def script(text, dialect="ansi"):
    "The operations of a script (None: no script)."
    if text is None:
        return []
    ts = statements(lex(text, backslash=dialect in BACKSLASH))
    return smap(ts, lambda s: [statement(s, dialect)])
