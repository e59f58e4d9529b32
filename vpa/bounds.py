"""Difference-bound analysis of lengths and indexes over MIR.

Forward dataflow; a state is a closed set of constraints  a - b <= c  over the integer places of a body and
the lengths of its collections, refined on every branch, joined where paths meet, widened in loops.
It yields obligations (an element taken by position, a range cut out, a division, a subtraction) and says
which of them follow from what every path to them established.  Obligations over parameters are passed on
to the callers; results of workspace functions are used through summaries (per returned variant).
"""
import re
from .ir import Place, body_ty, strip_lt

Z = ("0",)
INF = None

UNSIGNED = re.compile(r"^(usize|u8|u16|u32|u64|u128)$")
INTS = re.compile(r"^(usize|u8|u16|u32|u64|u128|isize|i8|i16|i32|i64|i128)$")
SIZED = re.compile(r"^(alloc::vec::Vec<|alloc::collections::vec_deque::VecDeque<|\[|smallvec::SmallVec<|str$|alloc::string::String$)")
COLL = re.compile(r"^(alloc::vec::Vec<|alloc::collections::vec_deque::VecDeque<|\[|smallvec::SmallVec<)")
WIDE = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}


def unref(t):
    t = strip_lt(t).strip()
    while True:
        n = re.sub(r"^&(mut )?\s*", "", t)
        if n == t:
            return t
        t = n


class St:
    __slots__ = ("le", "ge", "alias", "mut", "pred", "opt", "itr", "bot")

    def __init__(self):
        self.le, self.ge = {}, {}
        self.alias, self.mut, self.pred, self.opt, self.itr = {}, {}, {}, {}, {}
        self.bot = False

    def copy(self):
        s = St()
        s.le = {a: dict(d) for a, d in self.le.items()}
        s.ge = {a: dict(d) for a, d in self.ge.items()}
        s.alias, s.mut, s.pred, s.opt, s.itr = dict(self.alias), dict(self.mut), dict(self.pred), dict(self.opt), dict(self.itr)
        s.bot = self.bot
        return s

    def get(self, a, b):
        if a == b:
            return 0
        return self.le.get(a, {}).get(b)

    def _set(self, a, b, c):
        self.le.setdefault(a, {})[b] = c
        self.ge.setdefault(b, {})[a] = c

    def add(self, a, b, c):
        """a - b <= c"""
        if a == b:
            if c < 0:
                self.bot = True
            return
        o = self.get(a, b)
        if o is not None and o <= c:
            return
        r = self.get(b, a)
        if r is not None and r + c < 0:
            self.bot = True
            return
        ins = [(a, 0)] + list(self.ge.get(a, {}).items())
        outs = [(b, 0)] + list(self.le.get(b, {}).items())
        for x, c1 in ins:
            for y, c2 in outs:
                if x == y:
                    if c1 + c + c2 < 0:
                        self.bot = True
                    continue
                n = c1 + c + c2
                o = self.get(x, y)
                if o is None or n < o:
                    self._set(x, y, n)

    def forget(self, v):
        for b in self.le.pop(v, {}):
            self.ge.get(b, {}).pop(v, None)
        for a in self.ge.pop(v, {}):
            self.le.get(a, {}).pop(v, None)

    def vars(self):
        return set(self.le) | set(self.ge)

    def key(self):
        return (tuple(sorted((repr(a), repr(b), c) for a, d in self.le.items() for b, c in d.items())), repr(sorted(self.pred.items(), key=repr)), repr(sorted(self.opt.items(), key=repr)))


def cons_of(s):
    return {(a, b): c for a, d in s.le.items() for b, c in d.items()}


def implied(s, cs):
    """the constraints of cs that s does not have already"""
    return [(a, b, c) for a, b, c in cs if s.get(a, b) is None or s.get(a, b) > c]


def join(A, B, widen=False):
    """A is the old state, B the new one"""
    if A.bot:
        return B.copy()
    if B.bot:
        return A.copy()
    R = St()
    for a, d in A.le.items():
        e = B.le.get(a)
        if not e:
            continue
        for b, c in d.items():
            x = e.get(b)
            if x is None:
                continue
            if x > c:
                if widen:
                    continue
                c = x
            R._set(a, b, c)
    if widen:
        # bounds of a loop counter at small constants survive: 0 and what the counter started from
        for a, d in A.le.items():
            e = B.le.get(a, {})
            for b, c in d.items():
                x = e.get(b)
                if x is not None and x > c and R.get(a, b) is None:
                    for k in (0, -1):
                        if x <= k:
                            R._set(a, b, k)
                            break
        close(R)
    for k in set(A.alias) | set(B.alias):
        if k in A.alias and k in B.alias:
            R.alias[k] = A.alias[k] if A.alias[k] == B.alias[k] else ("?", k)
        else:
            R.alias[k] = A.alias.get(k, B.alias.get(k))
    for k in set(A.mut) | set(B.mut):
        R.mut[k] = A.mut.get(k, frozenset()) | B.mut.get(k, frozenset())
    for k in set(A.itr) & set(B.itr):
        if A.itr[k] == B.itr[k]:
            R.itr[k] = A.itr[k]
    for name in ("pred", "opt"):
        da, db, dr = getattr(A, name), getattr(B, name), getattr(R, name)
        for k in set(da) & set(db):
            if da[k] == db[k]:
                dr[k] = da[k]
                continue
            pa, pb = cases(A, da[k]), cases(B, db[k])
            if pa is None or pb is None:
                continue
            r = {}
            for v in set(pa) | set(pb):
                if v in pa and v in pb:
                    xa, xb = with_cons(A, pa[v]), with_cons(B, pb[v])
                    if xa.bot:
                        m = cons_of(xb)
                    elif xb.bot:
                        m = cons_of(xa)
                    else:
                        ca, cb = cons_of(xa), cons_of(xb)
                        m = {q: max(c, cb[q]) for q, c in ca.items() if q in cb}
                else:
                    x = with_cons(A, pa[v]) if v in pa else with_cons(B, pb[v])
                    m = cons_of(x)
                cs = tuple(sorted(((a, b, c) for (a, b), c in m.items() if R.get(a, b) is None or R.get(a, b) > c), key=repr))
                r[v] = cs if not widen else tuple(q for q in cs if q in (pa.get(v) or ()) or v not in pa)
            dr[k] = ("cases", tuple(sorted(r.items(), key=repr)))
    return R


def with_cons(S, cs):
    s = S.copy()
    for a, b, c in cs:
        s.add(a, b, c)
        if s.bot:
            break
    return s


def cases(S, p):
    """value -> constraints, for a predicate"""
    if p[0] == "cases":
        return dict(p[1])
    if p[0] == "const":
        return {p[1]: ()}
    if p[0] == "cmp":
        return {1: tuple(cmp_cons(S, p, True)), 0: tuple(cmp_cons(S, p, False))}
    if p[0] == "not":
        c = cases(S, p[1])
        return None if c is None else {1 - v: x for v, x in c.items() if v in (0, 1)}
    return None


NEG = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt", "Eq": "Ne", "Ne": "Eq"}


def cmp_cons(S, p, truth):
    _, op, (x, i), (y, j) = p
    if not truth:
        op = NEG[op]
    # x+i op y+j
    if op == "Lt":
        return [(x, y, j - i - 1)]
    if op == "Le":
        return [(x, y, j - i)]
    if op == "Gt":
        return [(y, x, i - j - 1)]
    if op == "Ge":
        return [(y, x, i - j)]
    if op == "Eq":
        return [(x, y, j - i), (y, x, i - j)]
    # Ne: sharpen a bound that is tight
    r = []
    lo = S.get(y, x)     # y - x <= lo
    if lo is not None and lo == i - j:      # y+j <= x+i known
        r.append((y, x, i - j - 1))
    hi = S.get(x, y)
    if hi is not None and hi == j - i:
        r.append((x, y, j - i - 1))
    return r


def close(R):
    vs = list(R.vars())
    for k in vs:
        for a, c1 in list(R.ge.get(k, {}).items()):
            for b, c2 in list(R.le.get(k, {}).items()):
                if a == b:
                    continue
                o = R.get(a, b)
                if o is None or c1 + c2 < o:
                    R._set(a, b, c1 + c2)


class Need:
    """an obligation: x + i <= y + j"""
    __slots__ = ("kind", "line", "x", "y", "c", "what", "mac", "const", "src", "elem")

    def __init__(self, kind, line, x, y, c, what, mac=None, const=None, src=None, elem=None):
        self.kind, self.line, self.x, self.y, self.c, self.what, self.mac, self.const, self.src, self.elem = kind, line, x, y, c, what, mac, const, src, elem


LENLESS = re.compile(r"::(iter|iter_mut|into_iter|enumerate|rev|skip|take|filter|skip_while|take_while|peekable|cloned|copied|step_by|map|by_ref|fuse|inspect|filter_map|map_while|zip)$")
KEEPMIN = re.compile(r"::(iter|iter_mut|into_iter|enumerate|rev|peekable|cloned|copied|map|by_ref|fuse|inspect)$")
SPLITS = re.compile(r"core::str::<impl str>::(split|splitn|rsplit|rsplitn|split_terminator)$|core::slice::<impl \[T\]>::(split|splitn|rsplit)$")
SAMELEN = re.compile(r"(^|::|>::)(clone|to_vec|to_owned|into_boxed_slice|into_vec|from|into|into_iter_sorted)$")
VIEW = re.compile(r"(^|::|>::)(deref|deref_mut|as_slice|as_mut_slice|as_ref|as_mut|borrow|borrow_mut|iter|iter_mut|into_iter|by_ref|make_contiguous|as_str|as_bytes|as_mut_str|as_path)$")
NOLENCHANGE = re.compile(r"::(sort\w*|reverse|swap|iter_mut|fill|rotate_left|rotate_right|deref_mut|as_mut_slice|get_mut|last_mut|first_mut|index_mut|reserve\w*|shrink_to_fit|as_mut|chunks_mut|make_ascii_\w+|select_nth_unstable\w*|split_at_mut|borrow_mut|next|by_ref|peek|next_back|split_first_mut|split_last_mut|iter)$")
GROW = re.compile(r"::(extend|insert|append|extend_from_slice|resize)$")
SHRINK = re.compile(r"::(retain|dedup\w*|truncate|pop|pop_front|pop_back|clear|drain|split_off|remove|swap_remove|pop_if)$")


class Analysis:
    max_vars = 400

    def __init__(self, P):
        self.P = P
        self.sums = {}
        self.busy = set()
        self.results = {}
        self.entry_facts = {}

    # ---- places
    def root(self, b, s, p):
        """canonical path of a place"""
        r = s.alias.get(p.l, (p.l,))
        for e in p.p:
            if e == "*":
                continue
            if e[0] == "f":
                r = r + (e[2] if isinstance(e[2], str) else str(e[1]),)
            elif e[0] == "v":
                r = r + ("~" + e[2],)
            elif e[0] == "ci":
                r = r + (("c", e[1], e[2]),)
            else:
                return None
            if len(r) > 9:
                return None
        return r

    def place_ty(self, b, p):
        """type of a place where it is known without field types"""
        if all(e == "*" for e in p.p):
            return unref(b.locals[p.l]) if p.p else strip_lt(b.locals[p.l])
        return None

    def int_local(self, b, p):
        return not p.p and INTS.match(b.locals[p.l]) is not None

    def var(self, b, s, p):
        r = self.root(b, s, p)
        return None if r is None else ("v", r)

    def touch(self, s, v, unsigned=True):
        if unsigned:
            s.add(Z, v, 0)

    def term(self, b, s, op):
        """(variable, offset) of an integer operand"""
        if op.is_place:
            v = self.var(b, s, op.place)
            if v is None:
                return None
            t = self.place_ty(b, op.place)
            if t is not None and not INTS.match(unref(t)):
                return None
            if t is not None and UNSIGNED.match(unref(t)):
                self.touch(s, v)
            return (v, 0)
        if isinstance(op.val, int) and not isinstance(op.val, bool):
            return (Z, op.val)
        return None

    def length(self, b, s, p):
        r = self.root(b, s, p)
        if r is None:
            return None
        v = ("n", r)
        self.touch(s, v)
        return (v, 0)

    def coll_root(self, b, s, op):
        if op.is_place:
            return self.root(b, s, op.place)
        return None

    # ---- kills
    def kill(self, s, r):
        if r is None:
            return
        n = len(r)
        for v in [v for v in s.vars() if len(v) == 2 and v[1][:n] == r]:
            s.forget(v)
        for k in [k for k, p in s.pred.items() if self.mentions(p, r)]:
            s.pred[k] = self.strip(s.pred[k], r)
            if s.pred[k] is None:
                del s.pred[k]
        for k in [k for k in s.pred if k[:n] == r]:
            del s.pred[k]
        for k in [k for k in s.opt if k[:n] == r]:
            del s.opt[k]
        for k in [k for k, p in s.opt.items() if self.mentions(p, r)]:
            s.opt[k] = self.strip(s.opt[k], r)
            if s.opt[k] is None:
                del s.opt[k]
        for k in [k for k, p in s.itr.items() if p[0] is not None and p[0][1][:n] == r or k[:n] == r]:
            del s.itr[k]

    def mentions(self, p, r):
        n = len(r)

        def hit(v):
            return len(v) == 2 and v[1][:n] == r
        if p[0] == "cmp":
            return hit(p[2][0]) or hit(p[3][0])
        if p[0] == "not":
            return self.mentions(p[1], r)
        if p[0] == "cases":
            return any(hit(a) or hit(b) for v, cs in p[1] for a, b, c in cs)
        return False

    def strip(self, p, r):
        n = len(r)

        def hit(v):
            return len(v) == 2 and v[1][:n] == r
        if p[0] == "cases":
            return ("cases", tuple((v, tuple(q for q in cs if not hit(q[0]) and not hit(q[1]))) for v, cs in p[1]))
        return None

    def assign_eq(self, s, v, t):
        """v := t (variable, offset), v already killed"""
        x, k = t
        s.add(v, x, k)
        s.add(x, v, -k)

    def const_len(self, op):
        """the length of a constant slice"""
        for c in self.P.by_name.get(op.named[0], []):
            if c.promoted is not None:
                continue
            for i in c.reachable:
                for st in c.bbs[i].stmts:
                    if st.k == "=" and st.place.l == 0 and st.rv[0] == "cast" and st.rv[3] == "Unsize" and st.rv[1].is_place and not st.rv[1].place.p:
                        m = re.search(r"; (\d+)\]$", c.locals[st.rv[1].place.l])
                        if m:
                            return int(m.group(1))
        return None

    # ---- statements
    def stmt(self, b, s, st):
        if st.k != "=":
            return
        rv, p = st.rv, st.place
        k = rv[0]
        tgt = self.root(b, s, p)
        if tgt is None:
            return
        # read what the right side says before the target changes
        new = []            # constraints in terms of "self" variable ("v", tgt)
        me = ("v", tgt)
        self_k = None       # x = x + k
        lenof = None        # length of the target
        pred = opt = itr = None
        alias = mut = None
        sub = []            # (suffix, root): parts moved along
        ty = strip_lt(b.locals[p.l]) if not p.p else None
        if k in ("use", "cast"):
            op = rv[1]
            if op.is_place:
                src = self.root(b, s, op.place)
                if src is not None and src != tgt:
                    sub = self.parts(s, src, tgt)
                    if src in s.pred:
                        pred = s.pred[src]
                if not op.place.p and op.place.l in s.alias and not p.p:
                    alias = s.alias[op.place.l]
                if not p.p and op.place.l in s.mut:
                    mut = s.mut[op.place.l]
                if k == "use" and not p.p and ty is not None and ty.startswith("&") and alias is None and src is not None:
                    alias = src     # a reference read out of a place: what it points at
                if k == "cast":
                    if rv[3] == "IntToInt":
                        sub = []
                        st_ty = self.place_ty(b, op.place)
                        if st_ty and ty and WIDE.get(st_ty) and WIDE.get(ty) and WIDE[ty] >= WIDE[st_ty] or st_ty == "usize" and ty in ("isize", "i64", "i128"):
                            t = self.term(b, s, op)
                            if t:
                                new = [(me, t[0], t[1]), (t[0], me, -t[1])]
                    if rv[3] == "Unsize":
                        m = re.search(r"; (\d+)\]", b.locals[op.place.l]) if not op.place.p else None
                        if m:
                            if not p.p:
                                alias = alias or src
                            lenof = int(m.group(1))
                else:
                    t = self.term(b, s, op) if src != tgt else None
                    if t and t[0] != me:
                        new = [(me, t[0], t[1]), (t[0], me, -t[1])]
            else:
                if isinstance(op.val, bool):
                    pred = ("const", int(op.val))
                elif isinstance(op.val, int):
                    new = [(me, Z, op.val), (Z, me, -op.val)]
                elif op.named:
                    lenof = self.const_len(op)
        elif k in ("ref", "raw"):
            src = self.root(b, s, rv[1])
            if not p.p:
                alias = src if src is not None else ("?", p.l)
                if rv[2]:
                    m = s.mut.get(rv[1].l, frozenset())
                    mut = m | ({src} if src is not None else {("all", rv[1].l)})
                elif rv[1].l in s.mut and rv[1].p:
                    mut = s.mut[rv[1].l]
            elif rv[2] and src is not None:
                s.mut[p.l] = s.mut.get(p.l, frozenset()) | {src}
        elif k == "un":
            if rv[1] == "PtrMetadata" and rv[2].is_place:
                m = re.match(r"^&(mut )?\[.*; (\d+)\]$", strip_lt(b.locals[rv[2].place.l]))
                t = self.length(b, s, rv[2].place)
                if m:
                    t = (Z, int(m.group(2)))
                if t:
                    new = [(me, t[0], t[1]), (t[0], me, -t[1])]
            elif rv[1] == "Not" and rv[2].is_place:
                q = s.pred.get(self.root(b, s, rv[2].place))
                if q is not None:
                    pred = ("const", 1 - q[1]) if q[0] == "const" else ("cases", tuple(sorted((1 - v, x) for v, x in cases(s, q).items() if v in (0, 1))))
        elif k == "bin":
            op, x, y = rv[1], self.term(b, s, rv[2]), self.term(b, s, rv[3])
            base = op.replace("WithOverflow", "").replace("Unchecked", "")
            out = ("v", tgt + ("0",)) if op.endswith("WithOverflow") else me
            if op in NEG and x and y:
                pred = self.stable(s, ("cmp", op, x, y), tgt)
            elif op in ("BitAnd", "BitOr") and not x and not y and rv[2].is_place and rv[3].is_place:
                qa, qb = s.pred.get(self.root(b, s, rv[2].place)), s.pred.get(self.root(b, s, rv[3].place))
                want = 1 if op == "BitAnd" else 0
                cs = ()
                for q in (qa, qb):
                    c = cases(s, q) if q is not None else None
                    if c is not None and want in c:
                        cs += tuple(c[want])
                pred = ("cases", ((want, cs), (1 - want, ())))
            elif base in ("Add", "Sub", "Mul", "Div", "Rem", "Shr", "BitAnd") and x and y:
                new = self.arith(s, base, x, y, out, unsigned_of(b, p))
        elif k == "disc":
            src = self.root(b, s, rv[1])
            if src is not None and src in s.opt:
                pred = ("disc", src)
            elif src is not None:
                pred = ("disc", src)
        elif k == "agg":
            a = rv[1]
            if a[0] == "adt":
                nm, vi, fs = a[2], a[3], a[4]
                names = [f if isinstance(f, str) else str(f) for f in fs]
                for f, o in zip(names, rv[2]):
                    suffix = (f,) if nm is None or not self.is_enum(a[1]) else ("~" + nm, f)
                    if o.is_place:
                        src = self.root(b, s, o.place)
                        if src is not None:
                            sub += self.parts(s, src, tgt + suffix)
                        if o.place.l in s.mut:
                            s.mut[p.l] = s.mut.get(p.l, frozenset()) | s.mut[o.place.l]
                    t = self.term(b, s, o)
                    if t:
                        v = ("v", tgt + suffix)
                        new += [(v, t[0], t[1]), (t[0], v, -t[1])]
                if self.is_enum(a[1]):
                    opt = ("const", vi)
            elif a[0] in ("tup", "clo", "cor"):
                for n, o in enumerate(rv[2]):
                    if o.is_place:
                        src = self.root(b, s, o.place)
                        if src is not None:
                            sub += self.parts(s, src, tgt + (str(n),))
                        if o.place.l in s.mut:
                            s.mut[p.l] = s.mut.get(p.l, frozenset()) | s.mut[o.place.l]
                    t = self.term(b, s, o)
                    if t:
                        v = ("v", tgt + (str(n),))
                        new += [(v, t[0], t[1]), (t[0], v, -t[1])]
                    if isinstance(o.val, bool):
                        sub.append(("pred", tgt + (str(n),), ("const", int(o.val))))
            elif a[0] == "arr":
                lenof = len(rv[2])
        # apply: constraints that mention the old value of the target are handled through a shadow
        shadow = ("v", ("new",))
        new = [tuple(shadow if q == me else q for q in cn[:2]) + (cn[2],) for cn in new] if any(me in cn[:2] for cn in new) else new
        uses_shadow = any(shadow in cn[:2] for cn in new)
        if uses_shadow:
            for a_, b_, c_ in new:
                s.add(a_, b_, c_)
            if s.bot:
                s.bot = False
        for q in sub:
            if q[0] == "con":
                s.add(*q[1:])
        old_alias = s.alias.get(p.l)
        if not p.p:
            s.alias.pop(p.l, None)
            if mut is None and k != "agg":
                s.mut.pop(p.l, None)
            r0 = (p.l,)
            self.kill(s, r0)
            if tgt != r0:
                pass        # rebinding a reference leaves what it pointed at alone
            if alias is not None:
                s.alias[p.l] = alias
            if mut is not None:
                s.mut[p.l] = mut
            tgt2 = (p.l,)
        else:
            self.kill(s, tgt)
            tgt2 = tgt
        if tgt2 != tgt and not p.p:
            # a reference local: nothing of its own
            self.rename(s, "TMP", None)
            if uses_shadow:
                s.forget(shadow)
            return
        if uses_shadow:
            self.move_var(s, shadow, ("v", tgt))
        else:
            for a_, b_, c_ in new:
                s.add(a_, b_, c_)
        for q in sub:
            if q[0] == "len":
                self.assign_eq(s, ("n", q[1]), (q[2], 0))
            elif q[0] == "val":
                self.assign_eq(s, ("v", q[1]), (q[2], 0))
            elif q[0] == "opt":
                s.opt[q[1]] = q[2]
            elif q[0] == "pred":
                s.pred[q[1]] = q[2]
            elif q[0] == "itr":
                s.itr[q[1]] = q[2]
        if lenof is not None:
            r = alias if alias is not None else tgt
            v = ("n", r)
            s.forget(v)
            self.assign_eq(s, v, (Z, lenof))
        if pred is not None:
            s.pred[tgt] = pred
        if opt is not None:
            s.opt[tgt] = opt

    def move_var(self, s, a, b_):
        ins = list(s.ge.get(a, {}).items())
        outs = list(s.le.get(a, {}).items())
        s.forget(a)
        for x, c in ins:
            s.add(x, b_, c)
        for y, c in outs:
            s.add(b_, y, c)

    def rename(self, s, a, b):
        pass

    def is_enum(self, name):
        if name.startswith(("core::option::Option", "core::result::Result", "core::ops::control_flow", "core::task::poll", "core::cmp::Ordering")):
            return True
        a = self.P.adts.get(name) if hasattr(self.P, "adts") else None
        return a is not None and bool(a["enum"])

    def parts(self, s, src, dst):
        """what is known about src, to be said about dst"""
        r = []
        n = len(src)
        for v in s.vars():
            if len(v) == 2 and v[1][:n] == src:
                r.append(("len" if v[0] == "n" else "val", dst + v[1][n:], v))
        for k, p in s.opt.items():
            if k[:n] == src:
                r.append(("opt", dst + k[n:], p))
        for k, p in s.pred.items():
            if k[:n] == src and len(k) > n:
                r.append(("pred", dst + k[n:], p))
        for k, p in s.itr.items():
            if k[:n] == src:
                r.append(("itr", dst + k[n:], p))
        return r

    def stable(self, s, p, tgt):
        """rewrite a comparison over long-lived variables where they are equal"""
        def best(t):
            x, k = t
            cand = [(x, k)]
            for y, c in s.le.get(x, {}).items():
                r = s.get(y, x)
                if r is not None and r == -c and len(y) == 2:
                    cand.append((y, c + k))     # x = y + c
                if r is not None and r == -c and y == Z:
                    return (Z, c + k)
            return min(cand, key=lambda q: (q[0][0] != "n", len(q[0][1]) if len(q[0]) > 1 else 0, repr(q[0])))
        a, c = best(p[2]), best(p[3])
        cs1 = set(cmp_cons(s, p, True)) | set(cmp_cons(s, ("cmp", p[1], a, c), True))
        cs0 = set(cmp_cons(s, p, False)) | set(cmp_cons(s, ("cmp", p[1], a, c), False))
        d = {1: tuple(sorted(cs1, key=repr)), 0: tuple(sorted(cs0, key=repr))}
        return ("cases", tuple(sorted(d.items())))

    def arith(self, s, op, x, y, out, unsigned):
        r = []
        (a, i), (c, j) = x, y

        def eq(t):
            return [(out, t[0], t[1]), (t[0], out, -t[1])]
        cx = i if a == Z else None
        cy = j if c == Z else None
        if cx is None and s.get(a, Z) is not None and s.get(Z, a) is not None and s.get(a, Z) == -s.get(Z, a):
            cx = s.get(a, Z) + i
        if cy is None and s.get(c, Z) is not None and s.get(Z, c) is not None and s.get(c, Z) == -s.get(Z, c):
            cy = s.get(c, Z) + j

        def bounds(t):
            v, k = t
            if v == Z:
                return k, k
            hi, lo = s.get(v, Z), s.get(Z, v)
            return (None if lo is None else -lo + k), (None if hi is None else hi + k)
        if op == "Add":
            if cy is not None:
                return eq((a, i + cy))
            if cx is not None:
                return eq((c, j + cx))
            (lx, hx), (ly, hy) = bounds(x), bounds(y)
            if ly is not None:
                r.append((a, out, -(i + ly)))        # out >= x + ly
            if hy is not None:
                r.append((out, a, i + hy))
            if lx is not None:
                r.append((c, out, -(j + lx)))
            if hx is not None:
                r.append((out, c, j + hx))
            return r
        if op == "Sub":
            if cy is not None:
                return eq((a, i - cy))
            (lx, hx), (ly, hy) = bounds(x), bounds(y)
            if ly is not None:
                r.append((out, a, i - ly))
            if hy is not None:
                r.append((a, out, hy - i))
            if lx is not None and False:
                pass
            # x - y with a known difference
            d = s.get(a, c)
            if d is not None:
                r.append((out, Z, d + i - j))
            d = s.get(c, a)
            if d is not None:
                r.append((Z, out, d - i + j))
            if unsigned:
                r.append((Z, out, 0))
            return r
        lx, hx = bounds(x)
        ly, hy = bounds(y)
        if op == "Mul":
            if cx is not None and cy is not None:
                return [(out, Z, cx * cy), (Z, out, -cx * cy)]
            if unsigned:
                r.append((Z, out, 0))
                if ly is not None and ly >= 1:
                    r.append((a, out, -i))
                if lx is not None and lx >= 1:
                    r.append((c, out, -j))
                if lx is not None and ly is not None and lx * ly > 0:
                    r.append((Z, out, -lx * ly))
            return r
        if op == "Div":
            if unsigned:
                r += [(out, a, i), (Z, out, 0)]
                if cx is not None and cy:
                    r += [(out, Z, cx // cy), (Z, out, -(cx // cy))]
                elif hx is not None and ly:
                    r.append((out, Z, hx // ly))
                if lx is not None and hy:
                    r.append((Z, out, -(lx // hy)))
                if ly is not None and ly >= 2 and lx is not None and lx >= 1:
                    r.append((out, a, i - 1))
            return r
        if op == "Rem":
            if unsigned:
                r += [(out, a, i), (Z, out, 0), (out, c, j - 1)]
            return r
        if op in ("Shr", "BitAnd"):
            if unsigned:
                r += [(out, a, i), (Z, out, 0)]
                if op == "BitAnd":
                    r.append((out, c, j))
            return r
        return r

    # ---- branches
    def refine(self, b, s, op, value, others=None):
        """the state on the edge where op == value (or is none of others)"""
        s = s.copy()
        if not op.is_place:
            return s
        r = self.root(b, s, op.place)
        p = s.pred.get(r) if r is not None else None
        if p is not None and p[0] == "disc":
            o = s.opt.get(p[1])
            key = p[1]
            if o is None:
                if value is not None:
                    s.opt[key] = ("const", value)
                return s
            return self.apply_case(s, o, value, others, lambda v: s.opt.__setitem__(key, ("const", v)))
        if p is not None:
            if p[0] == "const" and value is None and others is not None:
                if p[1] in others:
                    s.bot = True
                return s
            return self.apply_case(s, p, value, others, lambda v: s.pred.__setitem__(r, ("const", v)))
        t = self.term(b, s, op)
        if t:
            v, k = t
            if value is not None:
                s.add(v, Z, value - k)
                s.add(Z, v, k - value)
            elif others:
                ch = True
                while ch:
                    ch = False
                    lo = s.get(Z, v)
                    if lo is not None and -lo + k in others:
                        s.add(Z, v, lo - 1)
                        ch = not s.bot
                    hi = s.get(v, Z)
                    if hi is not None and hi + k in others and not s.bot:
                        s.add(v, Z, hi - 1)
                        ch = not s.bot
                    if s.bot:
                        break
        return s

    def apply_case(self, s, p, value, others, record):
        cs = cases(s, p)
        if cs is None:
            return s
        if value is not None:
            if value not in cs:
                s.bot = True
                return s
            record(value)
            for a, b_, c in cs[value]:
                s.add(a, b_, c)
                if s.bot:
                    break
            return s
        rest = [v for v in cs if v not in (others or ())]
        if len(rest) == 1:
            record(rest[0])
            for a, b_, c in cs[rest[0]]:
                s.add(a, b_, c)
                if s.bot:
                    break
        elif not rest:
            s.bot = True
        return s

    # ---- calls
    def call(self, b, s, bb, t, needs):
        f = t.op.fn
        P = self.P
        line, mac = t.line, t.mac
        dst = self.root(b, s, t.dest)
        D = (t.dest.l,) if not t.dest.p else dst
        name = f.full if f is not None else ""
        sh = name.rsplit("::", 1)[-1]
        args = t.args
        a0 = self.coll_root(b, s, args[0]) if args else None
        ty0 = self.arg_ty(b, args[0]) if args else ""
        dty = strip_lt(b.locals[t.dest.l]) if not t.dest.p else ""
        post = []       # constraints over the state after the call; may use ("v", D..) and ("n", D..)
        opt = pred = itr = None
        alias = None
        keep = False
        lenvar0 = ("n", a0) if a0 is not None else None
        std = f is not None and not (f.target in P.bodies)
        iscoll = bool(COLL.match(unref(ty0)))
        sized = bool(SIZED.match(unref(ty0)))

        def L():
            self.touch(s, lenvar0)
            return lenvar0
        handled = False
        had = len(needs)
        if std and args:
            handled = True
            if sh == "len" and len(args) == 1 and sized and a0 is not None:
                m = re.match(r"^\[.*; (\d+)\]$", unref(ty0))
                v = L()
                post = [(("v", D), v, 0), (v, ("v", D), 0)]
            elif sh == "is_empty" and sized and a0 is not None:
                v = L()
                pred = ("cases", ((0, ((Z, v, -1),)), (1, ((v, Z, 0),))))
            elif sh in ("first", "last", "first_mut", "last_mut", "split_first", "split_last", "peek", "front", "back") and iscoll and a0 is not None:
                v = L()
                some = ((Z, v, -1),)
                if sh in ("split_first", "split_last"):
                    r1 = ("n", D + ("~Some", "0", "1"))
                    some += ((r1, v, -1), (v, r1, 1))
                opt = ("cases", ((0, ((v, Z, 0),)), (1, some)))
            elif sh in ("get", "get_mut") and iscoll and a0 is not None and len(args) > 1 and "core::ops::range::RangeFrom<" in unref(self.arg_ty(b, args[1])) and args[1].is_place:
                r = self.root(b, s, args[1].place)
                if r is not None:
                    v, st = L(), ("v", r + ("start",))
                    r1 = ("n", D + ("~Some", "0"))
                    some = [(st, v, 0), (r1, v, 0), (Z, r1, 0)]
                    hi, lo = s.get(st, Z), s.get(Z, st)
                    if hi is not None and lo is not None and hi == -lo:
                        some += [(r1, v, -hi), (v, r1, hi)]
                    opt = ("cases", ((0, ((v, st, -1),)), (1, tuple(some))))
            elif sh in ("get", "get_mut") and iscoll and a0 is not None and len(args) > 1:
                k = self.term(b, s, args[1])
                if k:
                    v = L()
                    opt = ("cases", ((0, ((v, k[0], k[1]),)), (1, ((k[0], v, -1 - k[1]),))))
            elif sh in ("index", "index_mut") and "ops::index::Index" in name:
                if iscoll and a0 is not None:
                    self.index_need(b, s, bb, t, needs, L(), D, post)
                ranged = iscoll and "core::ops::range::Range" in unref(self.arg_ty(b, args[1]))
                alias = ("?", t.dest.l) if not t.dest.p and not ranged else None
                keep = iscoll
                if iscoll and a0 is not None and not t.dest.p and "core::ops::range::RangeFull" in unref(self.arg_ty(b, args[1])):
                    alias = a0
                if iscoll and a0 is not None and not t.dest.p and INTS.match(unref(self.arg_ty(b, args[1]))) and s.get(Z, ("n", a0 + ("[]",))) is not None:
                    alias = a0 + ("[]",)
                    keep = True
                elif iscoll and a0 is not None and not args[1].is_place and not t.dest.p and isinstance(args[1].val, int):
                    alias = a0 + (("c", args[1].val, False),)
                    keep = True
            elif VIEW.search(name) and len(args) == 1 and a0 is not None:
                u0 = unref(ty0)
                if sized or u0.startswith("core::slice::") or u0.startswith("alloc::boxed::Box<[") or sh in ("by_ref",):
                    if dty.startswith("&"):
                        alias = a0
                        keep = True
                    else:
                        itr = s.itr.get(a0) or (L(), "seq", 0, 0) if iscoll else s.itr.get(a0)
                        if iscoll:
                            lo = s.get(Z, lenvar0)
                            itr = (L(), "seq", 0, 0)
                elif sh in ("into_iter", "iter") and re.match(r"^core::ops::range::Range", u0):
                    s2 = self.parts(s, a0, D)
                    self.assign_parts(s, D, s2)
                    return self.finish(b, s, t, D, [], None, None, s.itr.get(a0), None, True)
                elif sh in ("into_iter", "iter", "by_ref") and a0 in s.itr:
                    itr = s.itr[a0]
                elif dty.startswith("&"):
                    alias = a0 + ("*d",) if len(a0) < 9 else None
                    keep = True
            elif LENLESS.search(name) and a0 is not None and a0 in s.itr:
                lv, kind, mn, off = s.itr[a0]
                k2 = kind
                if sh == "enumerate":
                    k2 = "enum"
                elif sh in ("map", "zip", "filter_map", "map_while"):
                    k2 = "other"
                elif kind == "enum":
                    k2 = "enum"
                off2 = off if KEEPMIN.search(name) else None
                if sh == "skip" and off is not None and len(args) > 1:
                    k = self.term(b, s, args[1])
                    if k and k[0] == Z:
                        off2 = off + k[1]
                itr = (lv, k2, mn if KEEPMIN.search(name) else 0, off2)
            elif SPLITS.search(name):
                itr = (None, "other", 1 if sh != "split_terminator" else 0, None)
            elif sh in ("windows", "chunks_exact", "array_windows") and iscoll and len(args) > 1:
                k = self.term(b, s, args[1])
                if k and k[0] == Z:
                    itr = (None, ("chunk", k[1], k[1]), 0, None)
            elif sh in ("chunks", "rchunks") and iscoll and len(args) > 1:
                itr = (None, ("chunk", 1, None), 0, None)
            elif sh in ("next", "next_back", "peek") and a0 is not None and a0 in s.itr:
                lv, kind, mn, off = s.itr[a0]
                some = []
                if kind == "enum" and lv is not None:
                    pv = ("v", D + ("~Some", "0", "0"))
                    some = [(pv, lv, -1), (Z, pv, 0)]
                elif isinstance(kind, tuple) and kind[0] == "chunk":
                    pv = ("n", D + ("~Some", "0"))
                    some = [(Z, pv, -kind[1])] + ([(pv, Z, kind[2])] if kind[2] is not None else [])
                if lv is not None:
                    some.append((Z, lv, -1))
                opt = ("cases", ((0, ()), (1, tuple(some))))
                if mn >= 1 and sh == "next":
                    opt = ("cases", ((1, tuple(some)),))
                    s.itr[a0] = (lv, kind, 0, off)
                if sh != "peek" and s.itr[a0][3] is not None:
                    s.itr[a0] = s.itr[a0][:3] + (s.itr[a0][3] + 1,) if s.itr[a0][3] < 8 else s.itr[a0][:3] + (None,)
                keep = True
            elif sh in ("next", "next_back") and re.search(r"ops::range::Range(Inclusive)?<|iter::range|Step", name + ty0) and a0 is not None:
                inc = "RangeInclusive" in unref(ty0)
                st, en = ("v", a0 + ("start",)), ("v", a0 + ("end",))
                pv = ("v", D + ("~Some", "0"))
                self.touch(s, st)
                some = [(st2, pv, c) for st2, c in s.ge.get(st, {}).items() if len(st2) < 2 or st2[1][:1] != D]     # x <= start + c <= p + c
                some.append((pv, en, 0 if inc else -1))
                some += [(pv, y, c - (0 if inc else 1)) for y, c in s.le.get(en, {}).items() if y != st and y != pv]
                opt = ("cases", ((0, ()), (1, tuple(sorted(set(some), key=repr)))))
                # start only grows
                for y in list(s.le.get(st, {})):
                    s.le[st].pop(y, None)
                    s.ge.get(y, {}).pop(st, None)
                keep = True
            elif name.endswith("RangeInclusive::<Idx>::new") and len(args) == 2:
                x, y = self.term(b, s, args[0]), self.term(b, s, args[1])
                for t2, nm in ((x, "start"), (y, "end")):
                    if t2:
                        v = ("v", D + (nm,))
                        post += [(v, t2[0], t2[1]), (t2[0], v, -t2[1])]
            elif sh in ("position", "rposition") and a0 is not None and a0 in s.itr and s.itr[a0][0] is not None:
                pv = ("v", D + ("~Some", "0"))
                opt = ("cases", ((0, ()), (1, ((pv, s.itr[a0][0], -1), (Z, pv, 0)))))
                keep = True
            elif sh in ("collect", "from_iter", "to_vec", "collect_vec") and COLL.match(dty):
                if a0 is not None and a0 in s.itr:
                    lv, kind, mn, off = s.itr[a0]
                    n = ("n", D)
                    post.append((Z, n, -mn))
                    if lv is not None:
                        post.append((n, lv, 0))
                        if off is not None:
                            post.append((lv, n, off))
                elif iscoll and a0 is not None:
                    n = ("n", D)
                    post += [(n, L(), 0), (lenvar0, n, 0)]
            elif SAMELEN.search(name) and iscoll and COLL.match(dty) and a0 is not None:
                n = ("n", D)
                post = [(n, L(), 0), (lenvar0, n, 0)]
            elif sh in ("clone", "from", "into", "try_into", "deref") and len(args) == 1 and INTS.match(unref(ty0)) and INTS.match(dty):
                tm = self.term(b, s, args[0])
                if tm and (unref(ty0) == dty or WIDE.get(dty, 0) >= WIDE.get(unref(ty0), 999)):
                    post = [(("v", D), tm[0], tm[1]), (tm[0], ("v", D), -tm[1])]
            elif sh in ("box_assume_init_into_vec_unsafe", "into_vec") and COLL.match(dty):
                m = re.search(r"\[.*; (\d+)\]", ty0)
                if m:
                    n = ("n", D)
                    post = [(n, Z, int(m.group(1))), (Z, n, -int(m.group(1)))]
            elif sh == "from_elem" and len(args) == 2:
                tm = self.term(b, s, args[1])
                if tm:
                    n = ("n", D)
                    post = [(n, tm[0], tm[1]), (tm[0], n, -tm[1])]
                    if args[0].is_place and COLL.match(self.arg_ty(b, args[0])) and a0 is not None:
                        e = ("n", D + ("[]",))
                        post += [(e, L(), 0), (lenvar0, e, 0)]
            elif sh in ("push", "push_back", "push_front") and iscoll and a0 is not None:
                L()
                self.shift(s, lenvar0, 1)
                keep = True
            elif sh in ("pop", "pop_front", "pop_back") and iscoll and a0 is not None:
                v = L()
                # Some: it had one
                self.upper_only(s, v)
                keep = True
            elif sh in ("remove", "swap_remove") and unref(ty0).startswith("alloc::vec::Vec") and len(args) == 2 and a0 is not None:
                k = self.term(b, s, args[1])
                if k:
                    needs.append(Need("remove", line, k[0], L(), -1 - k[1], "the element removed", mac))
                    self.check(b, s, needs[-1])
                    s.add(k[0], lenvar0, -1 - k[1])
                    self.shift(s, lenvar0, -1)
                    s.bot = False
                else:
                    self.upper_only(s, L())
                keep = True
            elif sh == "insert" and unref(ty0).startswith("alloc::vec::Vec") and len(args) == 3 and a0 is not None:
                k = self.term(b, s, args[1])
                if k:
                    needs.append(Need("insert", line, k[0], L(), -k[1], "the position inserted at", mac))
                    self.check(b, s, needs[-1])
                    self.shift(s, L(), 1)
                keep = True
            elif sh in ("split_at", "split_at_mut", "split_off") and iscoll and len(args) == 2 and a0 is not None:
                k = self.term(b, s, args[1])
                if k:
                    needs.append(Need("split", line, k[0], L(), -k[1], "the position split at", mac))
                    self.check(b, s, needs[-1])
                    if sh != "split_off":
                        n0, n1 = ("n", D + ("0",)), ("n", D + ("1",))
                        post += [(n0, k[0], k[1]), (k[0], n0, -k[1]), (n1, lenvar0, 0), (Z, n1, 0)]
                        if k[0] == Z:
                            post += [(n1, lenvar0, -k[1]), (lenvar0, n1, k[1])]
                    s.bot = False
                if sh == "split_off":
                    self.upper_only(s, L())
                keep = True
            elif sh == "swap" and iscoll and len(args) == 3 and a0 is not None and "mem::" not in name:
                for q in args[1:]:
                    k = self.term(b, s, q)
                    if k:
                        needs.append(Need("swap", line, k[0], L(), -1 - k[1], "the element swapped", mac))
                        self.check(b, s, needs[-1])
                keep = True
            elif sh == "drain" and iscoll and len(args) == 2 and a0 is not None:
                self.range_need(b, s, args[1], needs, L(), line, mac, None, None)
                self.upper_only(s, L())
                keep = True
            elif sh in ("clear",) and iscoll and a0 is not None:
                s.forget(L())
                self.assign_eq(s, lenvar0, (Z, 0))
                keep = True
            elif GROW.search(name) and iscoll and a0 is not None:
                self.lower_only(s, L())
                keep = True
            elif SHRINK.search(name) and iscoll and a0 is not None:
                self.upper_only(s, L())
                keep = True
            elif NOLENCHANGE.search(name) and iscoll and a0 is not None:
                keep = True
            elif sh in ("min", "max") and len(args) == 2 and INTS.match(dty):
                x, y = self.term(b, s, args[0]), self.term(b, s, args[1])
                me = ("v", D)
                for q, o in ((x, y), (y, x)):
                    if q:
                        post.append((me, q[0], q[1]) if sh == "min" else (q[0], me, -q[1]))
                if x and y:
                    # the other side: bounds both have
                    for z_ in (s.vars() | {Z}):
                        if sh == "min":
                            c1, c2 = s.get(z_, x[0]), s.get(z_, y[0])
                            if c1 is not None and c2 is not None:
                                post.append((z_, me, max(c1 - x[1], c2 - y[1])))
                        else:
                            c1, c2 = s.get(x[0], z_), s.get(y[0], z_)
                            if c1 is not None and c2 is not None:
                                post.append((me, z_, max(c1 + x[1], c2 + y[1])))
            elif sh == "clamp" and len(args) == 3 and INTS.match(dty):
                lo, hi = self.term(b, s, args[1]), self.term(b, s, args[2])
                me = ("v", D)
                if lo:
                    post.append((lo[0], me, -lo[1]))
                if hi:
                    post.append((me, hi[0], hi[1]))
            elif sh == "saturating_sub" and len(args) == 2 and INTS.match(dty):
                x, y = self.term(b, s, args[0]), self.term(b, s, args[1])
                me = ("v", D)
                if x and UNSIGNED.match(dty):
                    post += [(me, x[0], x[1]), (Z, me, 0)]
                    if y and y[0] == Z:
                        post.append((x[0], me, y[1] - x[1]))
                        lo = s.get(Z, x[0])
                        if lo is not None and -lo + x[1] >= y[1]:
                            post.append((me, x[0], x[1] - y[1]))
                    elif y:
                        lo = s.get(Z, y[0])
                        lx = s.get(y[0], x[0])
                        if lo is not None and lx is not None and lx + y[1] - x[1] <= 0:
                            post.append((me, x[0], x[1] - (-lo + y[1])))
            elif sh in ("saturating_add", "wrapping_add") and len(args) == 2 and UNSIGNED.match(dty):
                x, y = self.term(b, s, args[0]), self.term(b, s, args[1])
                me = ("v", D)
                if sh == "saturating_add":
                    for q, o in ((x, y), (y, x)):
                        if q:
                            post.append((q[0], me, -q[1]))
                            if o and o[0] == Z:
                                post.append((me, q[0], q[1] + o[1]))
            elif sh in ("checked_sub", "checked_add") and len(args) == 2:
                x, y = self.term(b, s, args[0]), self.term(b, s, args[1])
                pv = ("v", D + ("~Some", "0"))
                if x and y and "Option<u" in dty:
                    r = self.arith(s, "Sub" if sh == "checked_sub" else "Add", x, y, pv, True)
                    if sh == "checked_sub":
                        r = list(r) + [(y[0], x[0], x[1] - y[1])]
                    opt = ("cases", ((0, ()), (1, tuple(r))))
            elif sh == "rem_euclid" and len(args) == 2:
                y = self.term(b, s, args[1])
                if y:
                    post = [(("v", D), y[0], y[1] - 1), (Z, ("v", D), 0)]
                    needs.append(Need("div", line, Z, y[0], y[1] - 1, "the divisor", mac))
                    self.check(b, s, needs[-1])
            elif sh == "div_ceil" and len(args) == 2:
                y = self.term(b, s, args[1])
                x = self.term(b, s, args[0])
                if y:
                    needs.append(Need("div", line, Z, y[0], y[1] - 1, "the divisor", mac))
                    self.check(b, s, needs[-1])
                if x:
                    post = [(("v", D), x[0], x[1])]
            elif sh in ("div", "rem", "div_assign", "rem_assign") and re.search(r"core::ops::arith::(Div|Rem)", name) and len(args) == 2 and INTS.match(unref(self.arg_ty(b, args[1]))):
                y = self.term(b, s, args[1])
                if y is None and args[1].is_place:
                    y = (("v", self.root(b, s, args[1].place)), 0)
                if y and y[0][-1] is not None and UNSIGNED.match(unref(self.arg_ty(b, args[1]))):
                    needs.append(Need("div", line, Z, y[0], y[1] - 1, "the divisor", mac))
                    self.check(b, s, needs[-1])
                else:
                    needs.append(Need("div", line, None, None, False, "the divisor", mac))
            elif sh == "is_some_and" or sh == "is_none_or":
                handled = False
            elif sh in ("is_some", "is_none", "is_ok", "is_err") and a0 is not None and a0 in s.opt:
                c = cases(s, s.opt[a0])
                if c is not None:
                    want = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[sh]
                    d = {}
                    if want in c:
                        d[1] = c[want]
                    if 1 - want in c:
                        d[0] = c[1 - want]
                    pred = ("cases", tuple(sorted(d.items())))
            elif sh in ("unwrap", "expect") and a0 is not None and re.match(r"^core::(option::Option|result::Result)<", unref(ty0)):
                want, nm = (1, "~Some") if "Option" in unref(ty0)[:24] else (0, "~Ok")
                o = s.opt.get(a0)
                if o is not None:
                    c = cases(s, o)
                    if c is not None and want in c:
                        other = c.get(1 - want)
                        if other is not None:
                            # the failing side must be excluded by what is known
                            x = with_cons(s, other)
                            if other:
                                q = other[0]
                                needs.append(Need("unwrap", line, None, None, bool(x.bot), "a value taken by " + sh, mac, elem=unref(dty)))
                        for q in c[want]:
                            s.add(*q)
                self.move_payload(s, a0 + (nm, "0"), D)
                return self.finish(b, s, t, D, [], None, None, None, None, True)
            elif sh in ("unwrap_or", "unwrap_or_default") and a0 is not None and INTS.match(dty):
                alt = self.term(b, s, args[1]) if sh == "unwrap_or" else (Z, 0)
                pv = ("v", a0 + ("~Some", "0"))
                o = s.opt.get(a0)
                x = s
                if o is not None:
                    c = cases(s, o)
                    if c and 1 in c:
                        x = with_cons(s, c[1])
                me = ("v", D)
                if alt:
                    for z_ in (x.vars() | {Z}):
                        if z_ == pv:
                            continue
                        c1, c2 = x.get(pv, z_), s.get(alt[0], z_)
                        if c1 is not None and c2 is not None:
                            post.append((me, z_, max(c1, c2 + alt[1])))
                        c1, c2 = x.get(z_, pv), s.get(z_, alt[0])
                        if c1 is not None and c2 is not None:
                            post.append((z_, me, max(c1, c2 - alt[1])))
            elif sh == "branch" and "Try" in name and a0 is not None:
                # ControlFlow: Continue(0) carries Ok/Some
                o = s.opt.get(a0)
                res = "Result" in unref(ty0)[:24]
                ok, err = (0, 1) if res else (1, 0)
                okn = "~Ok" if res else "~Some"
                c = cases(s, o) if o is not None else None
                ps = self.parts(s, a0 + (okn, "0"), D + ("~Continue", "0"))
                self.assign_parts(s, D, ps)
                if c is not None:
                    d = {}
                    ren = lambda q: tuple(("v" if v[0] == "v" else v[0], D + ("~Continue", "0") + v[1][len(a0) + 2:]) if len(v) == 2 and v[1][:len(a0) + 2] == a0 + (okn, "0") else v for v in q[:2]) + (q[2],)
                    if ok in c:
                        d[0] = tuple(c[ok]) + tuple(ren(q) for q in c[ok] if ren(q) != q)
                    if err in c:
                        d[1] = c[err]
                    opt = ("cases", tuple(sorted(d.items())))
                return self.finish(b, s, t, D, [], opt, None, None, None, True, nokill=True)
            elif sh in ("ok_or", "ok_or_else", "context", "with_context", "ok") and a0 is not None and a0 in s.opt and re.match(r"^core::(option::Option|result::Result)<", unref(ty0)):
                res0 = unref(ty0).startswith("core::result")
                res1 = dty.startswith("core::result")
                c = cases(s, s.opt[a0])
                if c is not None:
                    good0, bad0 = (0, 1) if res0 else (1, 0)
                    good1, bad1 = (0, 1) if res1 else (1, 0)
                    n0, n1 = ("~Ok" if res0 else "~Some"), ("~Ok" if res1 else "~Some")
                    ps = self.parts(s, a0 + (n0, "0"), D + (n1, "0"))
                    self.assign_parts(s, D, ps)
                    ren = lambda q: tuple((v[0], D + (n1, "0") + v[1][len(a0) + 2:]) if len(v) == 2 and v[1][:len(a0) + 2] == a0 + (n0, "0") else v for v in q[:2]) + (q[2],)
                    d = {}
                    if good0 in c:
                        d[good1] = tuple(c[good0]) + tuple(ren(q) for q in c[good0] if ren(q) != q)
                    if bad0 in c:
                        d[bad1] = c[bad0]
                    opt = ("cases", tuple(sorted(d.items())))
                    return self.finish(b, s, t, D, [], opt, None, None, None, True, nokill=True)
            else:
                handled = False
        elif std and sh in ("new", "with_capacity", "default") and COLL.match(dty):
            post = [(("n", D), Z, 0), (Z, ("n", D), 0)]
            handled = True
        if std and not handled and sh in ("new", "with_capacity", "default") and COLL.match(dty):
            n = ("n", D)
            post = [(n, Z, 0), (Z, n, 0)]
            handled = True
        for n in needs[had:]:
            n.elem = elem_of(ty0)
        summ = None
        if std and len(args) > 1 and a0 is not None and a0 in s.itr and isinstance(s.itr[a0][1], tuple) and s.itr[a0][1][0] == "chunk":
            for a in args[1:]:
                if a.is_place and not a.place.p:
                    for i in b.reachable:
                        for st in b.bbs[i].stmts:
                            if st.k == "=" and st.place.l == a.place.l and not st.place.p and st.rv[0] == "agg" and st.rv[1][0] == "clo":
                                q = ("n", (2,))
                                k = s.itr[a0][1]
                                self.entry_facts[st.rv[1][1][1]] = [(Z, q, -k[1])] + ([(q, Z, k[2])] if k[2] is not None else [])
        if not std and f is not None:
            tg = [x for x in P.targets(b, t) if x in P.bodies]
            if len(tg) == 1 and P.bodies[tg[0]].kind != "coroutine":
                summ = self.summary(tg[0])
                for n in summ["needs"]:
                    q = self.translate(b, s, t, n)
                    if q is not None:
                        needs.append(q)
                        self.check(b, s, q)
                    else:
                        needs.append(Need(n.kind, line, None, None, False, n.what, mac, n.const, n.src, n.elem))
        return self.finish(b, s, t, D, post, opt, pred, itr, alias, keep, summ=summ)

    def arg_ty(self, b, op):
        if op.is_place:
            t = self.place_ty(b, op.place)
            if t is None:
                return strip_lt(self.P_type(b, op.place) or "")
            return t
        return strip_lt(op.ty or "")

    def P_type(self, b, p):
        return None

    def index_need(self, b, s, bb, t, needs, lv, D, post):
        ix = t.args[1]
        line, mac = t.line, t.mac
        ity = self.arg_ty(b, ix)
        if INTS.match(unref(ity)) or not ix.is_place and isinstance(ix.val, int):
            k = self.term(b, s, ix)
            if k is None:
                needs.append(Need("index", line, None, None, False, "the element indexed", mac))
                return
            needs.append(Need("index", line, k[0], lv, -1 - k[1], "the element indexed", mac))
            self.check(b, s, needs[-1])
            s.add(k[0], lv, -1 - k[1])
            s.bot = False
            return
        self.range_need(b, s, ix, needs, lv, line, mac, D, post, ity)

    def range_need(self, b, s, ix, needs, lv, line, mac, D, post, ity=None):
        if ity is None:
            ity = self.arg_ty(b, ix)
        r = self.root(b, s, ix.place) if ix.is_place else None
        if not re.match(r"^core::ops::range::Range", unref(ity)):
            return
        kind = re.match(r"^core::ops::range::(\w+)", unref(ity)).group(1)
        if r is None or kind == "RangeFull":
            return
        st, en = ("v", r + ("start",)), ("v", r + ("end",))
        inc = 1 if "Inclusive" in kind else 0
        for v in (st, en):
            self.touch(s, v)
        if kind in ("Range", "RangeInclusive"):
            needs.append(Need("range", line, st, en, inc, "the start of the range", mac))
            self.check(b, s, needs[-1])
            needs.append(Need("range", line, en, lv, -inc, "the end of the range", mac))
            self.check(b, s, needs[-1])
        elif kind in ("RangeTo", "RangeToInclusive"):
            needs.append(Need("range", line, en, lv, -inc, "the end of the range", mac))
            self.check(b, s, needs[-1])
        elif kind == "RangeFrom":
            needs.append(Need("range", line, st, lv, 0, "the start of the range", mac))
            self.check(b, s, needs[-1])
        if D is not None and post is not None:
            n = ("n", D)
            post.append((n, lv, 0))
            if kind in ("RangeTo",):
                post += [(n, en, 0), (en, n, 0)]
            elif kind == "RangeFrom":
                post += self.arith(s, "Sub", (lv, 0), (st, 0), n, True)
            elif kind == "Range":
                post += self.arith(s, "Sub", (en, 0), (st, 0), n, True)

    def check(self, b, s, n):
        if n.x is None:
            return
        if n.const is None:
            hi, lo = (0, 0) if n.x == Z else (s.get(n.x, Z), s.get(Z, n.x))
            n.const = hi is not None and lo is not None and hi == -lo
        g = s.get(n.x, n.y)
        ok = g is not None and g <= n.c
        if not ok:
            # remember what is missing in terms that outlive the state
            n.what = (n.what, self.params_of(b, s, n))
        n.kind = (n.kind, ok)

    def params_of(self, b, s, n):
        """the obligation in terms of the parameters, where it can be put that way: [(x, y, c)] any of which suffices"""
        def cands(v, up):
            r = []
            if v == Z or len(v) == 2 and isinstance(v[1][0], int) and 1 <= v[1][0] <= b.argc:
                r.append((v, 0))
            src = s.le.get(v, {}) if up else s.ge.get(v, {})
            for y, c in src.items():
                if y == Z or len(y) == 2 and isinstance(y[1][0], int) and 1 <= y[1][0] <= b.argc:
                    r.append((y, c))
            return r
        out = []
        for x, c1 in cands(n.x, True):          # n.x <= x + c1
            for y, c2 in cands(n.y, False):     # y <= n.y + c2
                if x == y:
                    continue
                # x + c1 <= y - c2 + n.c suffices
                out.append((x, y, n.c - c1 - c2))
        return tuple(out)

    def shift(self, s, v, k):
        for b_, c in list(s.le.get(v, {}).items()):
            s.le[v][b_] = c + k
            s.ge[b_][v] = c + k
        for a_, c in list(s.ge.get(v, {}).items()):
            s.ge[v][a_] = c - k
            s.le[a_][v] = c - k
        self.drop_preds(s, v)

    def upper_only(self, s, v):
        """v got smaller or stayed"""
        for a_ in list(s.ge.get(v, {})):
            s.ge[v].pop(a_)
            s.le[a_].pop(v, None)
        s.add(Z, v, 0)
        self.drop_preds(s, v)

    def lower_only(self, s, v):
        for b_ in list(s.le.get(v, {})):
            s.le[v].pop(b_)
            s.ge[b_].pop(v, None)
        self.drop_preds(s, v)

    def drop_preds(self, s, v):
        r = v[1]
        for d in (s.pred, s.opt):
            for k in [k for k, p in d.items() if self.mentions(p, r)]:
                q = self.strip(d[k], r)
                if q is None:
                    del d[k]
                else:
                    d[k] = q

    def assign_parts(self, s, D, ps):
        self.kill(s, D)
        for q in ps:
            if q[0] == "len":
                self.assign_eq(s, ("n", q[1]), (q[2], 0))
            elif q[0] == "val":
                self.assign_eq(s, ("v", q[1]), (q[2], 0))
            elif q[0] == "opt":
                s.opt[q[1]] = q[2]
            elif q[0] == "pred":
                s.pred[q[1]] = q[2]
            elif q[0] == "itr":
                s.itr[q[1]] = q[2]

    def move_payload(self, s, src, D):
        self.assign_parts(s, D, self.parts(s, src, D))

    def finish(self, b, s, t, D, post, opt, pred, itr, alias, keep, summ=None, nokill=False):
        dirty = set()
        if not keep:
            for a in t.args:
                if a.is_place:
                    for r in s.mut.get(a.place.l, ()):
                        dirty.add(r)
        inh = frozenset()
        dty = b.locals[t.dest.l] if not t.dest.p else ""
        if "&" in dty or "'" in dty or "Iter" in dty or "Guard" in dty or "RefMut" in dty or "Drain" in dty:
            for a in t.args:
                if a.is_place:
                    inh |= s.mut.get(a.place.l, frozenset())
        for r in dirty:
            if r and r[0] == "all":
                self.kill(s, (r[1],))
            else:
                self.kill(s, r)
        if summ is not None:
            extra, sopt, spred = self.apply_summary(b, s, t, D, summ, dirty)
            post = post + extra
            opt = opt or sopt
            pred = pred or spred
        if not nokill:
            bad = {q for q in self.under(D)}
            if not (keep and not post and opt is None and pred is None and itr is None and alias is None and self.has_parts(s, D) and t.op.fn is not None and t.op.fn.full.rsplit("::", 1)[-1] in ("unwrap", "expect", "into_iter", "iter")):
                if not (keep and alias is None and self.fresh_ok(t)):
                    self.kill(s, D) if D is not None else None
        if alias is not None and inh and t.op.fn is not None and t.op.fn.full.rsplit("::", 1)[-1] in ("index_mut",):
            inh = frozenset({alias})
        if not t.dest.p:
            s.alias.pop(t.dest.l, None)
            s.mut.pop(t.dest.l, None)
            if alias is not None:
                s.alias[t.dest.l] = alias
            if inh:
                s.mut[t.dest.l] = inh
        for a_, b_, c in post:
            s.add(a_, b_, c)
        if D is not None:
            if opt is not None:
                s.opt[D] = opt
            if pred is not None:
                s.pred[D] = pred
            if itr is not None:
                s.itr[D] = itr
        return s

    def fresh_ok(self, t):
        return False

    def has_parts(self, s, D):
        n = len(D)
        return any(len(v) == 2 and v[1][:n] == D for v in s.vars()) or any(k[:n] == D for k in s.opt) or any(k[:n] == D for k in s.itr)

    def under(self, D):
        return []

    # ---- summaries
    def summary(self, bid):
        if bid in self.sums:
            return self.sums[bid]
        if bid in self.busy or len(self.busy) > 12:
            return {"needs": [], "cases": None, "ret": []}
        b = self.P.bodies[bid]
        self.busy.add(bid)
        try:
            r = self.analyse(bid)
        finally:
            self.busy.discard(bid)
        needs = []
        if r is not None:
            for n in r["needs"].values():
                if not n["ok"] and n["params"]:
                    needs.append(PNeed(n["kind"], n["params"], n["what"], n["const"], n["src"] or (b.id, n["line"]), n["elem"]))
        out = {"needs": needs, "cases": r["cases"] if r else None, "ret": r["ret"] if r else []}
        self.sums[bid] = out
        return out

    def map_var(self, b, s, t, v):
        """a variable over the callee's parameters, at the call"""
        if v == Z:
            return (Z, 0)
        i = v[1][0]
        if not isinstance(i, int) or not 1 <= i <= len(t.args):
            return None
        a = t.args[i - 1]
        if not a.is_place:
            if v[0] == "v" and len(v[1]) == 1 and isinstance(a.val, int):
                return (Z, a.val)
            return None
        r = self.root(b, s, a.place)
        if r is None:
            return None
        q = (v[0], r + v[1][1:])
        if v[0] == "n":
            self.touch(s, q)
        return (q, 0)

    def translate(self, b, s, t, n):
        best = None
        for x, y, c in n.params:
            mx, my = self.map_var(b, s, t, x), self.map_var(b, s, t, y)
            if mx is None or my is None:
                continue
            q = Need(n.kind, t.line, mx[0], my[0], c + my[1] - mx[1], n.what, t.mac, n.const, n.src, n.elem)
            g = s.get(q.x, q.y)
            if g is not None and g <= q.c:
                return q
            best = best or q
        return best

    def apply_summary(self, b, s, t, D, summ, dirty):
        def tr(cs, ret=True):
            out = []
            for x, y, c in cs:
                m = []
                for v in (x, y):
                    if v == Z:
                        m.append((Z, 0))
                    elif v[1][0] == 0:
                        m.append(((v[0], D + v[1][1:]), 0))
                    else:
                        q = self.map_var(b, s, t, v)
                        if q is not None and q[0] != Z and any(q[0][1][:len(r)] == r for r in dirty):
                            q = None
                        m.append(q)
                if None in m:
                    continue
                out.append((m[0][0], m[1][0], c + m[1][1] - m[0][1]))
            return out
        if D is None:
            return [], None, None
        post = tr(summ["ret"])
        opt = pred = None
        if summ["cases"] is not None:
            kind, d = summ["cases"]
            val = ("cases", tuple(sorted((v, tuple(tr(cs))) for v, cs in d.items())))
            if kind == "enum":
                opt = val
            else:
                pred = val
        return post, opt, pred

    # ---- driver
    def analyse(self, bid):
        if bid in self.results:
            return self.results[bid]
        b = self.P.bodies[bid]
        if len(b.bbs) > 4000:
            self.results[bid] = None
            return None
        init = St()
        for i in range(1, b.argc + 1):
            if UNSIGNED.match(unref(b.locals[i])):
                init.add(Z, ("v", (i,)), 0)
            if re.match(r"^&(mut )?", strip_lt(b.locals[i])) and "mut" in strip_lt(b.locals[i])[:5]:
                init.mut[i] = frozenset({(i,)})
        for q in self.entry_facts.get(bid, ()):
            init.add(*q)
        live = self.liveness(b)
        order = self.rpo(b)
        pos = {x: i for i, x in enumerate(order)}
        ins = {(0, None): init}
        visits = {}
        work = {(0, None)}
        heads = self.heads(b, pos)
        needs_at = {}
        exits = {}
        steps = 0
        while work:
            cur = min(work, key=lambda q: (pos[q[0]], repr(q[1])))
            work.discard(cur)
            steps += 1
            if steps > 60 * len(order) + 4000:
                self.results[bid] = None
                return None
            bb, tag = cur
            s = ins[cur].copy()
            needs = []
            for succ, s2, tag2 in self.block(b, bb, s, needs, tag):
                if s2.bot:
                    continue
                if succ is None:
                    exits[tag2] = join(exits[tag2], s2) if tag2 in exits else s2
                    continue
                self.prune(b, s2, live[succ])
                k = (succ, tag2)
                if k not in ins:
                    ins[k] = s2
                    work.add(k)
                else:
                    visits[k] = visits.get(k, 0) + 1
                    w = succ in heads and visits[k] > 3 or visits[k] > 30
                    j = join(ins[k], s2, widen=w)
                    if not same(j, ins[k]):
                        ins[k] = j
                        work.add(k)
            needs_at[cur] = needs
        if any(visits.get(k, 0) > 3 for k in ins if k[0] in heads):
            ins = self.narrow(b, ins, init, live, pos)
        # exits were joined with intermediate states: do a last pass
        exits = {}
        allneeds = {}
        for cur in sorted(ins, key=lambda q: (pos[q[0]], repr(q[1]))):
            bb, tag = cur
            needs = []
            for succ, s2, tag2 in self.block(b, bb, ins[cur].copy(), needs, tag):
                if succ is None and not s2.bot:
                    exits[tag2] = join(exits[tag2], s2) if tag2 in exits else s2
            for i, n in enumerate(needs):
                key = (bb, i)
                e = norm(n)
                o = allneeds.get(key)
                if o is None:
                    allneeds[key] = e
                else:
                    o["ok"] = o["ok"] and e["ok"]
                    if not e["ok"]:
                        o["params"] = tuple(q for q in o["params"] if q in e["params"]) if o["params"] and e["params"] else (e["params"] or o["params"])
        res = {"needs": allneeds, "cases": None, "ret": [], "states": steps}

        def proj(s):
            out = []
            for a, d in s.le.items():
                for c_, k in d.items():
                    ok = True
                    for v in (a, c_):
                        if v != Z and not (len(v) == 2 and isinstance(v[1][0], int) and 0 <= v[1][0] <= b.argc):
                            ok = False
                    if ok:
                        out.append((a, c_, k))
            return out
        if exits:
            if all(isinstance(k, tuple) for k in exits):
                kind = next(iter(exits))[0]
                d = {}
                for k, s in exits.items():
                    d[k[1]] = tuple(proj(s))
                res["cases"] = (kind, d)
            else:
                j = None
                for s in exits.values():
                    j = s if j is None else join(j, s)
                res["ret"] = proj(j)
        self.results[bid] = res
        return res

    def narrow(self, b, ins, init, live, pos):
        """one descending sweep: what widening gave away is taken back where the loop's own tests imply it"""
        def outs(cur, s):
            r = {}
            for succ, s2, tag2 in self.block(b, cur[0], s.copy(), [], cur[1]):
                if succ is None or s2.bot:
                    continue
                self.prune(b, s2, live[succ])
                k = (succ, tag2)
                r[k] = join(r[k], s2) if k in r else s2
            return r
        edge = {}
        for cur, s in ins.items():
            for k, s2 in outs(cur, s).items():
                edge.setdefault(k, {})[cur] = s2
        new = {}
        for cur in sorted(ins, key=lambda q: (pos[q[0]], repr(q[1]))):
            j = init.copy() if cur == (0, None) else None
            for src in sorted(edge.get(cur, {}), key=lambda q: (pos[q[0]], repr(q[1]))):
                e = edge[cur][src]
                j = e.copy() if j is None else join(j, e)
            for k in list(edge):
                edge[k].pop(cur, None)
            if j is None:
                continue        # no longer reached
            new[cur] = j
            for k, s2 in outs(cur, j).items():
                edge.setdefault(k, {})[cur] = s2
        return new

    def prune(self, b, s, live):
        dead = [v for v in s.vars() if len(v) == 2 and (v[1][0] not in live if isinstance(v[1][0], int) else False)]
        if dead:
            keep = set()
            for p in list(s.pred.values()) + list(s.opt.values()):
                if p[0] == "cases":
                    for v, cs in p[1]:
                        for a, c, k in cs:
                            keep.add(a)
                            keep.add(c)
            al = {r[0] for k, r in s.alias.items() if k in live}
            itr = {p[0] for k, p in s.itr.items() if p[0] is not None}
            for v in dead:
                if v not in keep and v[1][0] not in al and v not in itr:
                    s.forget(v)
        for d in (s.pred, s.opt):
            for k in [k for k in d if isinstance(k[0], int) and k[0] not in live]:
                if d is s.opt and any(p[0] == "disc" and p[1] == k for p in s.pred.values()):
                    continue
                if any(r[0] == k[0] for q, r in s.alias.items() if q in live):
                    continue
                del d[k]

    def block(self, b, bb, s, needs, tag):
        blk = b.bbs[bb]
        for st in blk.stmts:
            if st.k == "=" and st.place.l == 0 and not st.place.p:
                tag = self.tag_of(b, s, st, tag)
            self.stmt(b, s, st)
        t = blk.term
        if t.k == "goto":
            return [(t.target, s, tag)]
        if t.k == "return" or t.k == "ret":
            if not isinstance(tag, tuple):
                o = s.opt.get((0,)) or s.pred.get((0,))
                c = cases(s, o) if o is not None else None
                if c:
                    return [(None, with_cons(s, cs), ("enum" if s.opt.get((0,)) else "bool", v)) for v, cs in c.items()]
            return [(None, s, tag)]
        if t.k == "drop":
            return [(t.target, s, tag)]
        if t.k == "yield":
            if not t.place.p:
                s.alias.pop(t.place.l, None)
            self.kill(s, (t.place.l,))
            return [(t.target, s, tag)]
        if t.k == "assert":
            self.assertion(b, s, t, needs)
            s2 = self.refine(b, s, t.op, int(bool(t.expected)))
            return [(t.target, s2, tag)]
        if t.k == "sw":
            out = []
            vals = [v for v, _ in t.targets]
            for v, tt in t.targets:
                out.append((tt, self.refine(b, s, t.op, v), tag))
            if t.otherwise is not None and t.otherwise >= 0 and b.bbs[t.otherwise].term.k not in ("unreachable", "unr"):
                if t.ty == "bool" and vals == [0]:
                    out.append((t.otherwise, self.refine(b, s, t.op, 1), tag))
                else:
                    out.append((t.otherwise, self.refine(b, s, t.op, None, vals), tag))
            return out
        if t.k == "call":
            if t.dest.l == 0 and not t.dest.p:
                tag = None
            s = self.call(b, s, bb, t, needs)
            if t.target < 0:
                return []
            if t.dest.l == 0 and not t.dest.p:
                # split on what the callee returned
                r = []
                o = s.opt.get((0,)) or s.pred.get((0,))
                kind = "enum" if s.opt.get((0,)) else "bool"
                c = cases(s, o) if o is not None else None
                if c:
                    for v, cs in c.items():
                        r.append((t.target, with_cons(s, cs), (kind, v)))
                    return r
                tag = "any"
                if t.op.fn is not None and t.op.fn.full.endswith("::from_residual"):
                    y = strip_lt(b.locals[0])
                    if y.startswith("core::result::Result<"):
                        tag = ("enum", 1)
                    elif y.startswith("core::option::Option<"):
                        tag = ("enum", 0)
            return [(t.target, s, tag)]
        return []

    def tag_of(self, b, s, st, tag):
        rv = st.rv
        if rv[0] == "agg" and rv[1][0] == "adt" and self.is_enum(rv[1][1]):
            return ("enum", rv[1][3])
        if rv[0] == "use" and isinstance(rv[1].val, bool):
            return ("bool", int(rv[1].val))
        if rv[0] == "use" and rv[1].is_place:
            r = self.root(b, s, rv[1].place)
            if r in s.opt and s.opt[r][0] == "const":
                return ("enum", s.opt[r][1])
            if r in s.pred and s.pred[r][0] == "const":
                return ("bool", s.pred[r][1])
        return "any"

    def elem_at(self, b, t):
        """the type of the element a bounds check is about"""
        ix = t.ops[1]
        if not ix.is_place:
            cand = None
        else:
            cand = ix.place.l
        blk = b.bbs[t.target] if t.target is not None and t.target >= 0 else None
        if blk is None:
            return None
        pls = []
        for st in blk.stmts:
            if st.k == "=":
                pls.append(st.place)
                if st.rv[0] in ("ref", "raw", "disc"):
                    pls.append(st.rv[1])
                from .ir import rv_ops
                pls += [o.place for o in rv_ops(st.rv) if o.is_place]
        if blk.term.k == "call":
            pls += [o.place for o in blk.term.args if o.is_place]
        for p in pls:
            for n, e in enumerate(p.p):
                if e != "*" and e[0] == "i" and (cand is None or e[1] == cand):
                    if all(x == "*" for x in p.p[:n]):
                        return elem_of(b.locals[p.l])
                    return None
        return None

    def assertion(self, b, s, t, needs):
        had = len(needs)
        self.assertion_(b, s, t, needs)
        for n in needs[had:]:
            if t.kind == "bounds":
                n.elem = self.elem_at(b, t)

    def assertion_(self, b, s, t, needs):
        if t.kind == "bounds":
            ln, ix = self.term(b, s, t.ops[0]), self.term(b, s, t.ops[1])
            if ln and ix:
                needs.append(Need("index", t.line, ix[0], ln[0], ln[1] - ix[1] - 1, "the element indexed", t.mac))
                self.check(b, s, needs[-1])
            else:
                needs.append(Need("index", t.line, None, None, False, "the element indexed", t.mac))
        elif t.kind == "ovsub":
            x, y = self.term(b, s, t.ops[0]), self.term(b, s, t.ops[1])
            uns = any(o.is_place and UNSIGNED.match(unref(self.place_ty(b, o.place) or "")) or not o.is_place and UNSIGNED.match(o.ty or "") for o in t.ops)
            if uns:
                if x and y:
                    needs.append(Need("sub", t.line, y[0], x[0], x[1] - y[1], "what is subtracted", t.mac))
                    self.check(b, s, needs[-1])
                    s.add(y[0], x[0], x[1] - y[1])
                    s.bot = False
                else:
                    needs.append(Need("sub", t.line, None, None, False, "what is subtracted", t.mac))
        elif t.kind in ("div0", "rem0"):
            # the assertion's condition is  divisor == 0, expected false
            n = Need("div", t.line, None, None, False, "the divisor", t.mac)
            if t.op.is_place:
                r = self.root(b, s, t.op.place)
                p = s.pred.get(r)
                c = cases(s, p) if p is not None else None
                if c is not None:
                    if 1 not in c:
                        n.c = True
                    else:
                        x = with_cons(s, c[1])
                        n.c = bool(x.bot)
                        q = [z for z in c[1] if z[1] == Z or z[0] == Z]
                        if not n.c:
                            for z in c[1]:
                                if z[1] == Z and z[2] == 0:      # divisor <= 0 in the failing case
                                    n = Need("div", t.line, Z, z[0], -1, "the divisor", t.mac)
                                    self.check(b, s, n)
                                    break
            needs.append(n)

    def heads(self, b, pos):
        h = set()
        for i in b.reachable:
            for j in b.bbs[i].term.succ():
                if pos.get(j, 0) <= pos.get(i, 0):
                    h.add(j)
        return h

    def rpo(self, b):
        seen, out = set(), []
        st = [(0, iter(b.bbs[0].term.succ()))]
        seen.add(0)
        while st:
            n, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(b.bbs[x].term.succ())))
                    break
            else:
                out.append(n)
                st.pop()
        return out[::-1]

    def liveness(self, b):
        """locals used in or after a block"""
        use = {}
        for i in b.reachable:
            u = set()
            bb = b.bbs[i]
            for st in bb.stmts:
                if st.k == "=":
                    self.use_rv(st.rv, u)
                    if st.place.p:
                        u.add(st.place.l)
                    for e in st.place.p:
                        if e != "*" and e[0] == "i":
                            u.add(e[1])
            t = bb.term
            if t.k == "call":
                for a in t.args + [t.op]:
                    self.use_op(a, u)
                if t.dest.p:
                    u.add(t.dest.l)
            elif t.k in ("sw", "assert"):
                self.use_op(t.op, u)
                for o in (t.ops if t.k == "assert" else ()):
                    self.use_op(o, u)
            elif t.k == "drop":
                u.add(t.place.l)
            elif t.k == "yield":
                self.use_op(t.op, u)
            use[i] = u
        live = {i: set(use[i]) for i in b.reachable}
        base = set(range(0, b.argc + 1))
        ch = True
        while ch:
            ch = False
            for i in b.reachable:
                for j in b.bbs[i].term.succ():
                    if not live[j] <= live[i]:
                        live[i] |= live[j]
                        ch = True
        for i in live:
            live[i] |= base
        return live

    def use_op(self, o, u):
        if o.is_place:
            u.add(o.place.l)
            for e in o.place.p:
                if e != "*" and e[0] == "i":
                    u.add(e[1])

    def use_rv(self, rv, u):
        from .ir import rv_ops
        for o in rv_ops(rv):
            self.use_op(o, u)
        if rv[0] in ("ref", "raw", "disc"):
            u.add(rv[1].l)
            for e in rv[1].p:
                if e != "*" and e[0] == "i":
                    u.add(e[1])


class PNeed:
    def __init__(self, kind, params, what, const, src, elem):
        self.kind, self.params, self.what, self.const, self.src, self.elem = kind, params, what, const, src, elem


def elem_of(t):
    """the element type of a collection type"""
    t = unref(t)
    m = re.match(r"^(?:alloc::vec::Vec|alloc::collections::vec_deque::VecDeque|smallvec::SmallVec)<(.*)>$", t) or re.match(r"^\[(.*?)(?:; [^;\]]+)?\]$", t)
    return unref(m.group(1)) if m else t


def unsigned_of(b, p):
    if not p.p:
        t = strip_lt(b.locals[p.l])
        return bool(UNSIGNED.match(t)) or bool(re.match(r"^\((usize|u\d+), bool\)$", t))
    return False


def norm(n):
    if isinstance(n.kind, tuple):
        kind, ok = n.kind
        what, params = n.what if isinstance(n.what, tuple) else (n.what, ())
        return {"kind": kind, "ok": ok, "what": what, "params": params, "line": n.line, "mac": n.mac, "const": bool(n.const), "src": n.src, "elem": n.elem}
    return {"kind": n.kind, "ok": bool(n.c), "what": n.what, "params": (), "line": n.line, "mac": n.mac, "const": bool(n.const), "src": n.src, "elem": n.elem}


def same(a, b):
    return a.le == b.le and a.pred == b.pred and a.opt == b.opt and a.alias == b.alias and a.mut == b.mut and a.itr == b.itr


def has_sites(b):
    for i in b.reachable:
        t = b.bbs[i].term
        if t.k == "assert" and t.kind in ("bounds", "div0", "rem0", "ovsub"):
            return True
        if t.k == "call" and t.op.fn is not None and re.search(r"::(index|index_mut|remove|swap_remove|split_at|split_at_mut|drain|split_off|swap|rem_euclid|div_ceil|div|rem|div_assign|rem_assign)$", t.op.fn.full):
            return True
        if t.k == "call" and t.op.fn is not None and re.match(r"^core::option::Option.*::(unwrap|expect)$", t.op.fn.full):
            return True
    return False
