"""
Matches a regular expression against a text of literal pieces and of numbers: each number stands for any text of
decimal digits that is not empty. A match that would depend on which digits, or on how many, is refused.
"""
from __future__ import annotations

import re

import re._compiler as rc
import re._parser as rp

from .values import Unsupported

DIGITS = "0123456789"


class Run:
    "A run of digits."

    def __init__(self, atom):
        self.atom = atom


class Matcher:
    def __init__(self, pattern, flags):
        if not isinstance(pattern, str):
            flags |= pattern.flags & ~re.UNICODE
            pattern = pattern.pattern
        self.tree = rp.parse(pattern, flags)
        self.flags = flags | self.tree.state.flags
        self.singles = {}

    def single(self, node):
        "The predicate on a character, of a part that matches a character."
        if id(node) not in self.singles:
            c = rc.compile(rp.SubPattern(self.tree.state, [node]), int(self.flags))
            self.singles[id(node)] = (node, c)
        c = self.singles[id(node)][1]
        return lambda ch: c.fullmatch(ch) is not None

    def match(self, tokens, which):
        "The positions of the groups, or None. A position is (token, inside of a run)."
        starts = range(len(tokens) + 1) if which == "search" else (0,)
        for s in starts:
            if s and which == "search" and s < len(tokens) and isinstance(tokens[s - 1], Run):
                pass
            end = lambda pos, groups: groups | {0: ((s, False), pos)} if which != "fullmatch" or pos == (len(tokens), False) else None
            r = self.seq(tokens, list(self.tree), 0, (s, False), {}, end)
            if r is not None:
                return r
            if which == "search" and s < len(tokens) and isinstance(tokens[s], Run):
                r = self.seq(tokens, list(self.tree), 0, (s, True), {}, end)
                if r is not None:
                    return r
        return None

    def seq(self, ts, nodes, i, pos, groups, k):
        if i == len(nodes):
            return k(pos, groups)
        op, av = nodes[i]
        name = str(op)
        rest = lambda p, g: self.seq(ts, nodes, i + 1, p, g, k)
        if name in ("LITERAL", "NOT_LITERAL", "IN", "ANY"):
            p = self.one(ts, nodes[i], pos)
            return None if p is None else rest(p, groups)
        if name == "AT":
            at = str(av)
            if at in ("AT_BEGINNING", "AT_BEGINNING_STRING") and not self.flags & re.MULTILINE:
                return rest(pos, groups) if pos == (0, False) else None
            if at == "AT_END" and not self.flags & re.MULTILINE:
                n = len(ts)
                return rest(pos, groups) if pos == (n, False) or (pos == (n - 1, False) and ts[n - 1] == "\n") else None
            if at == "AT_END_STRING":
                return rest(pos, groups) if pos == (len(ts), False) else None
            raise Unsupported(f"regular expression: {at}")
        if name == "SUBPATTERN":
            group, add, drop, sub = av
            if add or drop:
                raise Unsupported("regular expression: flags of a group")
            close = (lambda p, g: rest(p, g)) if group is None else (lambda p, g: rest(p, g | {group: (pos, p)}))
            return self.seq(ts, list(sub), 0, pos, groups, close)
        if name == "BRANCH":
            for b in av[1]:
                r = self.seq(ts, list(b), 0, pos, groups, rest)
                if r is not None:
                    return r
            return None
        if name in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = av
            return self.repeat(ts, list(sub), lo, hi, name == "MAX_REPEAT", pos, groups, rest, 0)
        raise Unsupported(f"regular expression: {name}")

    def repeat(self, ts, sub, lo, hi, greedy, pos, groups, rest, n):
        single = len(sub) == 1 and str(sub[0][0]) in ("LITERAL", "NOT_LITERAL", "IN", "ANY")

        def more():
            if hi != rp.MAXREPEAT and n >= hi:
                return None
            if pos[0] < len(ts) and isinstance(ts[pos[0]], Run) and single:
                # all the digits of the run, or some of them
                if not self.takes_digits(sub[0]):
                    return None
                if hi != rp.MAXREPEAT or n + 1 < lo:
                    raise Unsupported("regular expression: a number of digits")
                whole = lambda: self.repeat(ts, sub, lo, hi, greedy, (pos[0] + 1, False), groups, rest, n + 1)
                some = lambda: rest((pos[0], True), groups)
                for f in (whole, some) if greedy else (some, whole):
                    r = f()
                    if r is not None:
                        return r
                return None

            def again(p, g):
                if p == pos:
                    return None
                return self.repeat(ts, sub, lo, hi, greedy, p, g, rest, n + 1)
            return self.seq(ts, sub, 0, pos, groups, again)

        def stop():
            return rest(pos, groups) if n >= lo else None
        for f in (more, stop) if greedy else (stop, more):
            r = f()
            if r is not None:
                return r
        return None

    def takes_digits(self, node):
        f = self.single(node)
        some = [f(c) for c in DIGITS]
        if any(some) and not all(some):
            raise Unsupported("regular expression: some of the digits")
        return all(some)

    def one(self, ts, node, pos):
        i, inside = pos
        if i == len(ts):
            return None
        if isinstance(ts[i], Run):
            if self.takes_digits(node):
                raise Unsupported("regular expression: one of the digits")
            return None
        return (i + 1, False) if self.single(node)(ts[i]) else None


def tokens_of(pieces, number):
    out = []
    for p in pieces:
        if isinstance(p, str):
            out.extend(p)
        elif number(p):
            # digits next to a number are not part of its run
            out.append(Run(p))
        else:
            return None
    for a, b in zip(out, out[1:]):
        if isinstance(a, Run) and (isinstance(b, Run) or b.isdigit()) or isinstance(b, Run) and not isinstance(a, Run) and a.isdigit():
            return None
    return out
