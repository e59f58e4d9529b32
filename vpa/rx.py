"""Languages of the regular expressions written in the source: which words does a pattern's value part accept?

A pattern is read from the source as a literal, parsed, turned into an automaton over a small alphabet, and
compared with the language of the words that may stand there (inclusion by product search).  Nothing is matched
against running code.
"""
import re
try:
    from re import _parser as sp, _constants as sc
except ImportError:          # pragma: no cover
    import sre_parse as sp
    import sre_constants as sc

ALPHA = ["a", "1", "-", "_", ".", "/", "=", "+", ":", "%", "~", "\\", "'", '"', " "]


class NFA:
    def __init__(self):
        self.eps, self.tr = [], []

    def new(self):
        self.eps.append(set())
        self.tr.append([])
        return len(self.eps) - 1

    def closure(self, S):
        S, w = set(S), list(S)
        while w:
            for x in self.eps[w.pop()]:
                if x not in S:
                    S.add(x)
                    w.append(x)
        return frozenset(S)

    def step(self, S, c):
        return self.closure({q for s in S for f, q in self.tr[s] if f(c)})


def cls(items, icase):
    neg, tests = False, []
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            tests.append(lambda c, v=chr(av): c == v or icase and c.lower() == v.lower())
        elif op is sc.RANGE:
            tests.append(lambda c, lo=av[0], hi=av[1]: lo <= ord(c) <= hi or icase and (lo <= ord(c.upper()) <= hi or lo <= ord(c.lower()) <= hi))
        elif op is sc.CATEGORY:
            tests.append(CAT[av])
    return lambda c: any(t(c) for t in tests) != neg


CAT = {sc.CATEGORY_SPACE: str.isspace, sc.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
       sc.CATEGORY_DIGIT: str.isdigit, sc.CATEGORY_NOT_DIGIT: lambda c: not c.isdigit(),
       sc.CATEGORY_WORD: lambda c: c.isalnum() or c == "_", sc.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == "_")}


def build(N, seq, a, b, icase):
    cur = a
    for op, av in seq:
        nx = N.new()
        if op is sc.LITERAL:
            N.tr[cur].append((lambda c, v=chr(av): c == v or icase and c.lower() == v.lower(), nx))
        elif op is sc.NOT_LITERAL:
            N.tr[cur].append((lambda c, v=chr(av): c != v, nx))
        elif op is sc.ANY:
            N.tr[cur].append((lambda c: True, nx))
        elif op is sc.IN:
            N.tr[cur].append((cls(av, icase), nx))
        elif op is sc.BRANCH:
            for alt in av[1]:
                s, e = N.new(), N.new()
                N.eps[cur].add(s)
                build(N, alt, s, e, icase)
                N.eps[e].add(nx)
        elif op is sc.SUBPATTERN:
            s, e = N.new(), N.new()
            N.eps[cur].add(s)
            build(N, av[-1], s, e, icase)
            N.eps[e].add(nx)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            x = cur
            for _ in range(min(lo, 4)):
                y = N.new()
                build(N, sub, x, y, icase)
                x = y
            if hi is sc.MAXREPEAT or hi > 8:
                l = N.new()
                N.eps[x].add(l)
                e = N.new()
                build(N, sub, l, e, icase)
                N.eps[e].add(l)
                N.eps[l].add(nx)
            else:
                N.eps[x].add(nx)
                for _ in range(hi - min(lo, 4)):
                    y = N.new()
                    build(N, sub, x, y, icase)
                    N.eps[y].add(nx)
                    x = y
        elif op is sc.AT:
            N.eps[cur].add(nx)
        else:
            raise ValueError("regex operator %s" % op)
        cur = nx
    N.eps[cur].add(b)


def automaton(seq, icase):
    N = NFA()
    a, b = N.new(), N.new()
    build(N, seq, a, b, icase)
    return N, a, b


def parse(p):
    t = sp.parse(p)
    return list(t), bool(t.state.flags & re.I)


def value_part(p):
    """the part of the pattern behind its first group at top level (None: other shape)"""
    t, ic = parse(p)
    for i, (op, av) in enumerate(t):
        if op is sc.SUBPATTERN and av[0] is not None:
            return (t[:i + 1], t[i + 1:], ic) if i + 1 < len(t) else None
    return None


def firsts(seq, ic):
    """first characters the sequence may begin with (of printable ASCII)"""
    N, a, b = automaton(seq, ic)
    S = N.closure({a})
    return {chr(c) for c in range(33, 127) if N.step(S, chr(c))}


def literals(seq):
    out = set()
    for op, av in seq:
        if op is sc.LITERAL:
            out.add(chr(av))
        elif op is sc.SUBPATTERN:
            out |= literals(av[-1])
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and av[0] > 0:
            out |= literals(av[2])
    return out


def missing(want, have_seq, icase, limit=7):
    """shortest word of `want` (pattern) that the sequence does not accept, or None"""
    W, wa, wb = automaton(*_p(want))
    L, la, lb = automaton(have_seq, icase)
    start = (W.closure({wa}), L.closure({la}))
    seen, work = {start}, [("", start)]
    while work:
        nxt = []
        for w, (s, l) in work:
            for c in ALPHA:
                s2 = W.step(s, c)
                if not s2:
                    continue
                l2 = L.step(l, c)
                if wb in s2 and lb not in l2:
                    return w + c
                if (s2, l2) not in seen:
                    seen.add((s2, l2))
                    nxt.append((w + c, (s2, l2)))
        work = nxt
    return None


def _p(p):
    t, ic = parse(p)
    return t, ic


SHELL_WORD = r"""(?:\\[^a]|"(?:\\["\\a]|[^"\\])*"|'[^']*'|[a1\-_./=+:%~])+"""
QUERY_VALUE = r"""[a1\-_./=+:%~]+"""
TOKEN = r"""[a1\-_./=+~]+"""


def value_gap(p):
    """(kind of value, shortest value the pattern cuts) for a secret pattern, or None"""
    v = value_part(p)
    if v is None:
        return None
    pre, rest, ic = v
    # what ties prefix and value together
    f = firsts(pre, ic)
    if f and f <= {"?", "&"}:
        kind, want = "query value", QUERY_VALUE
    elif ":" in literals(pre):
        kind, want = "token", TOKEN
    else:
        # a separator written behind the name belongs to the prefix
        kind, want = "shell word", SHELL_WORD
    while rest and not (rest[0][0] is sc.SUBPATTERN and rest[0][1][0] is not None):
        rest = rest[1:]
    if not rest:
        return None
    return kind, missing(want, rest, ic)
