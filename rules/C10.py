"""Data never becomes shell code."""
from rules.common import *
from rules.C07 import Text, TEXTY
from rules.C09 import SPLICE, handler
from vpa.ir import rv_ops

SHELLS = {"sh", "bash", "zsh", "dash", "fish", "ksh"}
DASHC = {"-c", "-lc", "-ic", "-ec"}
ARG = re.compile(r"process::Command::args?$")
DISP = "script dispatched to a shell"
QUOTER = re.compile(r"^shell_words::(quote|join)$|^shlex::.*(quote|join)$")


def quoters(P):
    """workspace functions that wrap a text in single quotes, doubling the quotes inside"""
    out = set()
    for b in P.bodies.values():
        if b.kind != "fn" or b.promoted is not None or not re.search(r"String$|Cow<.*str>$", b.locals[0]):
            continue
        for i, t in b.calls:
            if t.op.fn and t.op.fn.name.endswith("::replace") and len(t.args) == 3:
                pat = t.args[1]
                if (pat.ch == "'" or pat.s == "'") and any(s in ("'\\''", "'\"'\"'") for s in const_strs(P, b, i, t.args[2])):
                    out.add(b.id)
    return out


def scripts(P):
    """(body, block, operand, description) of every text handed to a shell"""
    out = []
    for b in P.bodies.values():
        if b.promoted is not None:
            continue
        for i, t in b.calls:
            f = t.op.fn
            if not f:
                continue
            if ARG.search(f.full) and len(t.args) > 1 and set(const_strs(P, b, i, t.args[1])) & DASHC:
                # the argument that follows
                seen, work = set(), [x for x in t.succ()]
                while work:
                    j = work.pop()
                    if j in seen:
                        continue
                    seen.add(j)
                    u = b.bbs[j].term
                    if u.k == "call" and u.op.fn and ARG.search(u.op.fn.full):
                        out.append((b, j, u.args[1], "script of a shell -c"))
                        continue
                    work += u.succ()
            elif f.name.endswith("ShellProxy::dispatch") and len(t.args) > 3 and set(const_strs(P, b, i, t.args[2])) & SHELLS:
                out.append((b, i, t.args[3], DISP))
    return out


class Script(WholePolicy):
    max_nodes = 8000

    def __init__(self, P, quot, fields):
        WholePolicy.__init__(self, P, False)
        self.quot = quot
        # what is dispatched is followed into the records it is taken from, what is run directly up to the callers
        self.through_fields = fields
        self.through_params = not fields

    def cut(self, b, l, path):
        # the argument vector of a builtin: what the user wrote
        return l <= b.argc and b.kind == "fn" and handler(b) and "Vec<" in b.locals[l]

    def call(self, b, bb, t):
        if t.op.fn is not None and (QUOTER.search(t.op.fn.full) or any(x in self.quot for x in self.P.targets(b, t))):
            return "stop"
        if t.op.fn is not None and self.through_fields:
            tg = [x for x in self.P.targets(b, t) if x in self.P.bodies]
            if len(tg) > 1 or tg and self.P.bodies[tg[0]].crate != b.crate:
                return "args"
        return WholePolicy.call(self, b, bb, t)


class Piece(Text):
    max_nodes = 4000

    def __init__(self, P, quot):
        Text.__init__(self, P, quot)
        self.quot = quot

    def call(self, b, bb, t):
        f = t.op.fn
        if f is not None and (QUOTER.search(f.full) or any(x in self.quot for x in self.P.targets(b, t))):
            return "stop"
        if f is not None and f.name.rsplit("::", 1)[-1] in ("context", "with_context", "map_err", "ok_or", "ok_or_else", "next", "get", "index"):
            return [0]
        if f is not None and not TEXTY.search(dest_ty(b, t)) and SCALARISH.search(dest_ty(b, t)):
            return "stop"
        return Text.call(self, b, bb, t)


SCALARISH = re.compile(r"^(i|u)(8|16|32|64|128|size)$|^bool$|^f(32|64)$")
GROW = re.compile(r"::(replace|replacen|push_str|push|insert_str|insert|extend|write_fmt|write_str|add|add_assign)$")


META = " \t\n|&;()<>$`\\\"'*?[{#~"
ITALL = re.compile(r"Iterator::(all|any)$|iter::.*::(all|any)$|impl str>::contains$|impl str>::find$")


class Unknown(Exception):
    pass


def named_pred(n, ch):
    """the standard library's predicates, for an ASCII character that is no letter or digit"""
    if n in ("is_alphanumeric", "is_ascii_alphanumeric", "is_alphabetic", "is_ascii_alphabetic", "is_numeric", "is_ascii_digit", "is_uppercase", "is_lowercase"):
        return False
    if n in ("is_control", "is_ascii_control"):
        return ch < " "
    if n in ("is_whitespace", "is_ascii_whitespace"):
        return ch in " \t\n"
    if n in ("is_ascii_punctuation", "is_ascii_graphic"):
        return ch > " "
    return True if n == "is_ascii" else None


def char_pred(P, b, ch):
    """what a predicate over one character answers for `ch`, by constant propagation through its body: True, False or None"""
    env = {2 if b.kind == "closure" else 1: ch}

    def get(op):
        if op.is_place:
            if any(e != "*" for e in op.place.p) or op.place.l not in env:
                raise Unknown()
            return env[op.place.l]
        for a in ("s", "ch", "b", "val"):
            v = getattr(op, a)
            if v is not None:
                return v
        raise Unknown()

    def code(v):
        return ord(v) if isinstance(v, str) and len(v) == 1 else int(v)
    bb, steps = 0, 0
    try:
        while steps < 200:
            steps += 1
            blk = b.bbs[bb]
            for s in blk.stmts:
                if s.k != "=" or s.place.p:
                    continue
                env.pop(s.place.l, None)
                try:
                    k = s.rv[0]
                    if k == "use":
                        env[s.place.l] = get(s.rv[1])
                    elif k == "ref":
                        pl = s.rv[1]
                        if pl.l in env and all(e == "*" for e in pl.p):
                            env[s.place.l] = env[pl.l]
                    elif k == "cast":
                        v = get(rv_ops(s.rv)[0])
                        env[s.place.l] = v if isinstance(v, (str, bytes)) and len(v) != 1 else code(v)
                    elif k == "bin":
                        x, y = (code(get(o)) for o in rv_ops(s.rv))
                        env[s.place.l] = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[s.rv[1]]
                    elif k == "un":
                        env[s.place.l] = not get(rv_ops(s.rv)[0])
                except (Unknown, KeyError, ValueError, TypeError, IndexError):
                    pass
            t = blk.term
            if t.k == "goto":
                bb = t.target
            elif t.k == "sw":
                v = code(get(t.op))
                bb = next((g for val, g in t.targets if int(val) == v), t.otherwise)
            elif t.k == "call" and t.target >= 0:
                f = t.op.fn
                n = f.name.rsplit("::", 1)[-1] if f else ""
                a = [get(x) for x in t.args]
                r = named_pred(n, chr(code(a[0]))) if len(a) == 1 and n.startswith("is_") else None
                if r is not None:
                    pass
                elif n == "contains" and len(a) == 2 and isinstance(a[0], (str, bytes)):
                    r = chr(code(a[1])) in (a[0] if isinstance(a[0], str) else a[0].decode("latin1"))
                elif n in ("eq", "ne") and len(a) == 2:
                    r = (code(a[0]) == code(a[1])) == (n == "eq")
                elif n in ("from", "into", "clone", "deref", "borrow") and len(a) == 1:
                    r = a[0]
                elif n in ("call", "call_mut", "call_once") or f is None:
                    raise Unknown()
                else:
                    tg = [P.bodies[x] for x in P.targets(b, t) if x in P.bodies]
                    if len(tg) != 1 or len(a) != 1:
                        raise Unknown()
                    r = char_pred(P, tg[0], a[0])
                    if r is None:
                        raise Unknown()
                env[t.dest.l] = r
                bb = t.target
            elif t.k == "ret":
                return bool(env[0]) if 0 in env else None
            else:
                return None
    except (Unknown, ValueError, TypeError):
        pass
    return None


def raw_paths(P, b, R):
    """a quoter that gives a text back unquoted decided that by a character set without shell metacharacters"""
    meta = []
    guards = [(i, t) for i, t in b.calls if t.op.fn and (ITALL.search(t.op.fn.full) or ITALL.search(t.op.fn.name)) and len(t.args) > 1]
    for i, t in guards:
        if any(u.op.fn and u.op.fn.name.endswith("::replace") for _, u in b.calls) and t.op.fn.name.rsplit("::", 1)[-1] in ("contains", "find") and not closures_of(P, b, t):
            continue
        for c in closures_of(P, b, t):
            for ch in META:
                r = named_pred(c, ch) if isinstance(c, str) else char_pred(P, c, ch)
                if r is None:
                    continue
                R.count("metacharacters_decided")
                if r == (t.op.fn.name.rsplit("::", 1)[-1] == "all"):
                    meta.append(ch)
    if meta:
        R.violation("raw:%s" % short(b.name), where(b), "counts shell metacharacters among the characters it leaves unquoted: %r" % "".join(meta))
    # a way from the entry to the end on which nothing was asked of the text
    quoted = {i for i, t in b.calls if t.op.fn and t.op.fn.name.endswith("::replace")}
    seen, work = set(), [0]
    while work:
        j = work.pop()
        if j in seen or j in quoted:
            continue
        seen.add(j)
        t = b.bbs[j].term
        if t.k == "sw":
            continue
        if t.k == "ret":
            R.violation("raw:%s" % short(b.name), where(b), "gives its text back unquoted whatever it holds")
        work += t.succ()


def closures_of(P, b, t):
    out = []
    for x in t.args[1:]:
        if x.k == "fn" and x.fn is not None:
            out.append(P.bodies.get(x.fn.target, x.fn.name.rsplit("::", 1)[-1]))
        if x.is_place:
            for blk in b.bbs:
                for s in blk.stmts:
                    if s.k == "=" and s.place.l == x.place.l and not s.place.p and s.rv[0] == "agg" and s.rv[1][0] == "clo":
                        c = P.bodies.get(s.rv[1][1][1])
                        if c is not None:
                            out.append(c)
    return out


def run(P, R, tier):
    R.explanation = ("Interprocedural provenance over MIR of every text handed to a shell (the argument after -c of a started process, and what is dispatched to sh or bash): a program as a whole, or an assembly whose pieces are constants, numbers or results of a quoting function; "
                     "the text being added to is the program so far.")
    quot = quoters(P)
    R.count("quoters", len(quot))
    for q in sorted(quot):
        raw_paths(P, P.bodies[q], R)
    F = flow_of(P)
    sk = scripts(P)
    done = set()
    work = [(b, i, op, d) for b, i, op, d in sk]
    R.count("shell_scripts", len(sk))
    while work:
        b, i, op, desc = work.pop()
        for x in F.origins(b, op, i, len(b.bbs[i].stmts), Script(P, quot, desc == DISP)):
            R.count("script_sources")
            if x[0] not in ("call", "mutcall") or not SPLICE.search(x[1]):
                R.sample("%s: whole program (%s)" % (desc, leaf_str(x)), 40)
                continue
            fb, ft = x[2], x[3]
            if x[1].rsplit("::", 1)[-1].rstrip(">") in ("trim", "collect", "from_utf8_lossy", "to_lowercase", "trim_end", "trim_start") and not x[1].endswith("concat"):
                R.sample("%s: whole program (%s)" % (desc, leaf_str(x)), 40)
                continue
            bi = next((k for k, q in fb.calls if q is ft), None)
            if bi is None or (fb.id, bi) in done:
                continue
            done.add((fb.id, bi))
            R.count("assembled_scripts")
            args = ft.args
            if GROW.search(x[1].rstrip(">")) and x[0] == "call" or GROW.search(ft.op.fn.name):
                work.append((fb, bi, args[0], desc))
                args = args[1:]
            bad = []
            for a in args:
                for y in F.origins(fb, a, bi, len(fb.bbs[bi].stmts), Piece(P, quot)):
                    if y[0] in ("const", "named", "variant", "closure", "fn", "static"):
                        continue
                    bad.append(y)
            R.sample("%s: assembled in %s:%s %s: %s" % (desc, fb.file, ft.line, short(fb.name), "splices text" if bad else "constants and quoted values"), 40)
            if bad:
                R.violation("spliced:%s:%s" % (short(fb.name), x[1].rsplit("::", 1)[-1]), where(fb, ft.line), "splices unquoted text into shell code (%s): %s" % (desc, ", ".join(sorted({leaf_str(y) for y in bad})[:4])))
    R.floor("shell_scripts", 8, "texts handed to a shell")
    R.floor("assembled_scripts", 4, "assembled scripts")
    R.assumptions += ["a configured command, a stored snippet, bookmark or task, and the argument of safe-run/trigger are programs the user wrote"]
