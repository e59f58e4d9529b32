"""Text is cut only between characters."""
from rules.common import *

CUT = re.compile(r"Index(Mut)?.*::index(_mut)?$|String::(truncate|split_off|drain|insert|insert_str|remove|replace_range)$|str>::(split_at|split_at_mut)$|str::<impl str>::(split_at|split_at_mut)$")
STR = re.compile(r"^&('\w+ )?(mut )?(str|alloc::string::String)$")
LOOK = re.compile(r"::(starts_with|ends_with|strip_prefix|strip_suffix|find|rfind|split_once|rsplit_once|contains|eq|ne|eq_ignore_ascii_case|matches|match_indices|is_char_boundary|is_ascii|is_some_and|splitn|split|rsplit|trim_start_matches|trim_end_matches)$")
ARITH = frozenset("min max saturating_sub saturating_add checked_add checked_sub clamp unwrap_or unwrap_or_else map_or unwrap_or_default wrapping_add wrapping_sub map and_then unwrap_or_else".split())
FLOOR = re.compile(r"(floor|ceil)_char_boundary$")
COUNT = re.compile(r"::(count|position|rposition|width|width_cjk)$")


class Off(LocalWhole):
    """what a byte offset is computed from"""
    max_nodes = 4000
    through_params = True

    def call(self, b, bb, t):
        f = t.op.fn
        if f is None:
            return "leaf"
        if FLOOR.search(f.full):
            return "leaf"
        if any(x in self.P.bodies for x in self.P.targets(b, t)):
            return "leaf"
        if f.name.rsplit("::", 1)[-1] in ARITH:
            return "args"
        return LocalWhole.call(self, b, bb, t)


def charcount(x):
    """a number of characters or columns, not of bytes"""
    if x[0] != "call" or not x[3].args:
        return False
    if re.search(r"Enumerate<.*\bChars\b.*>.*::next$", x[1]):
        return True
    if not COUNT.search(x[1].rstrip(">")):
        return False
    if re.search(r"width(_cjk)?$", x[1]):
        return True
    a = x[3].args[0]
    ty = (x[2].locals[a.place.l] if a.is_place else a.ty) or ""
    return bool(re.search(r"\bChars\b", ty)) and "CharIndices" not in ty


class Looks:
    """the byte lengths of the constant patterns a function compares text with, and its boundary tests"""

    def __init__(self, P):
        self.P, self.memo = P, {}

    def own(self, c):
        """what one function compares with"""
        if c.id in self.memo:
            return self.memo[c.id]
        out = self.memo[c.id] = set()
        for i in c.reachable:
            for s in c.bbs[i].stmts:
                if s.k == "=" and s.rv[0] == "bin" and s.rv[1] in ("Eq", "Ne"):
                    for o in (s.rv[2], s.rv[3]):
                        if o.ch is not None and ord(o.ch) < 128:
                            out.add(1)
                        if o.ty == "u8" and o.val is not None and int(o.val) < 128:
                            out.add(1)
            t = c.bbs[i].term
            if t.k == "sw" and (t.ty in ("char", "u8")) and all(int(v) < 128 for v, _ in t.targets):
                out.add(1)
            if t.k != "call" or not t.op.fn or not LOOK.search(t.op.fn.full.rstrip(">")):
                continue
            if t.op.fn.full.endswith(("is_char_boundary", "is_ascii")):
                out.add("boundary")
            out |= self.patterns(c, i, t)
        return out

    def patterns(self, c, i, t):
        out = set()
        for a in t.args:
            if a.ch is not None:
                out.add(len(a.ch.encode()))
            for x in flow_of(self.P).origins(c, a, i, len(c.bbs[i].stmts), LocalWhole(self.P)):
                if x[0] == "const" and isinstance(x[1], str):
                    out.add(len(x[1].encode()))
                if x[0] == "const" and isinstance(x[1], (bytes, bytearray)):
                    out.add(len(x[1]))
        return out

    def handed(self, c):
        """a closure over the result of a search: what was searched for"""
        out = set()
        if c.kind != "closure":
            return out
        F = flow_of(self.P)
        b = self.P.bodies.get(c.parent[1]) if c.parent else None
        if b is None:
            return out
        for i, t in b.calls:
            if t.op.fn is None or not t.args or not any(y[0] == "closure" and y[1] == c.id for a in t.args[1:] for y in F.origins(b, a, i, len(b.bbs[i].stmts), LocalWhole(self.P))):
                continue
            for x in F.origins(b, t.args[0], i, len(b.bbs[i].stmts), LocalWhole(self.P)):
                if x[0] == "call" and LOOK.search(x[1].rstrip(">")):
                    k = next((k for k, q in x[2].calls if q is x[3]), None)
                    if k is not None:
                        out |= self.patterns(x[2], k, x[3])
        return out


def stringof(P, b, op, n=0):
    """the place of the text an operand refers to, through references and views of it"""
    if not op.is_place:
        return None
    return textplace(P, b, op.place, n)


def textplace(P, b, pl, n=0):
    pl_f = tuple(q for q in pl.p if q != "*")
    if n > 12:
        return (pl.l, pl_f)
    if pl.l <= b.argc:
        return (pl.l, pl_f)
    ds = [(j, s) for j in b.reachable for s in b.bbs[j].stmts if s.k == "=" and s.place.l == pl.l and not s.place.p]
    cs = [t for j, t in b.calls if t.dest is not None and t.dest.l == pl.l and not t.dest.p]
    if len(ds) + len(cs) != 1:
        return (pl.l, pl_f)
    if cs:
        t = cs[0]
        if t.op.fn is not None and t.op.fn.name.rsplit("::", 1)[-1] in ("deref", "deref_mut", "as_str", "as_mut_str", "borrow", "as_ref") and t.args and t.args[0].is_place:
            r = textplace(P, b, t.args[0].place, n + 1)
            return (r[0], r[1] + pl_f)
        return (pl.l, pl_f)
    rv = ds[0][1].rv
    if rv[0] == "ref":
        r = textplace(P, b, rv[1], n + 1)
    elif rv[0] == "use" and rv[1].is_place:
        r = textplace(P, b, rv[1].place, n + 1)
    else:
        return (pl.l, pl_f)
    return (r[0], r[1] + pl_f)


def numberof(P, b, op, n=0):
    """the local holding the number an operand copies"""
    if not op.is_place or op.place.p:
        return None
    l = op.place.l
    ds = [s for j in b.reachable for s in b.bbs[j].stmts if s.k == "=" and s.place.l == l and not s.place.p]
    cs = [t for j, t in b.calls if t.dest is not None and t.dest.l == l and not t.dest.p]
    if n < 12 and len(ds) == 1 and not cs and ds[0].rv[0] == "use" and ds[0].rv[1].is_place and not ds[0].rv[1].place.p:
        return numberof(P, b, ds[0].rv[1], n + 1)
    return l


def bounds_of(P, b, op):
    """the locals holding the ends of a range operand (or the offset itself)"""
    if not op.is_place:
        return [None]
    if op.place.p:
        return [None]
    ds = [s for j in b.reachable for s in b.bbs[j].stmts if s.k == "=" and s.place.l == op.place.l and not s.place.p]
    if len(ds) == 1 and ds[0].rv[0] == "agg":
        return [numberof(P, b, o) if o.is_place else ("const", o.val) for o in ds[0].rv[-1] if hasattr(o, "is_place")]
    return [numberof(P, b, op)]


def tested(P, b, at, t):
    """is the offset of a cut, as it is there, a tested character boundary of the text cut (or nothing)?"""
    txt = stringof(P, b, t.args[0])
    for l in bounds_of(P, b, t.args[1]):
        if isinstance(l, tuple):
            if str(l[1]) != "0":
                return False
            continue
        if l is None or txt is None:
            return False
        good = set()                # edges on which the offset is a boundary
        for i in b.reachable:
            u = b.bbs[i].term
            if u.k != "sw" or not u.op.is_place or u.op.place.p:
                continue
            d = u.op.place.l
            neg = False
            for _ in range(4):
                ns = [s for j in b.reachable for s in b.bbs[j].stmts if s.k == "=" and s.place.l == d and not s.place.p]
                if len(ns) == 1 and ns[0].rv[0] == "un" and ns[0].rv[1] == "Not" and ns[0].rv[2].is_place:
                    d, neg = ns[0].rv[2].place.l, not neg
                elif len(ns) == 1 and ns[0].rv[0] == "use" and ns[0].rv[1].is_place and not ns[0].rv[1].place.p:
                    d = ns[0].rv[1].place.l
                else:
                    break
            true = lambda want: {(i, tg) for tg in u.succ() if (tg not in [x for v, x in u.targets if int(v) == 0]) == want}
            for j, c in b.calls:
                if c.dest is not None and c.dest.l == d and not c.dest.p and c.op.fn is not None and c.op.fn.full.endswith("is_char_boundary") and len(c.args) == 2:
                    if stringof(P, b, c.args[0]) == txt and numberof(P, b, c.args[1]) == l:
                        good |= true(not neg)
            for j in b.reachable:
                for s in b.bbs[j].stmts:
                    if s.k == "=" and s.place.l == d and not s.place.p and s.rv[0] == "bin" and s.rv[2].is_place and numberof(P, b, s.rv[2]) == l and str(s.rv[3].val) == "0":
                        if s.rv[1] in ("Gt", "Ne"):
                            good |= true(neg)
                        elif s.rv[1] in ("Eq", "Le"):
                            good |= true(not neg)
            if u.op.place.l == l or numberof(P, b, u.op) == l and u.ty == "usize":
                good |= {(i, x) for v, x in u.targets if int(v) == 0}
        if not good:
            return False
        # backwards from the cut: every way comes over such an edge after the last change of the offset
        seen, work = set(), [at]
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            if i != at and any(s.k == "=" and s.place.l == l for s in b.bbs[i].stmts):
                return False
            if i == at and any(s.k == "=" and s.place.l == l for s in b.bbs[i].stmts):
                return False
            ps = b.preds.get(i, []) if isinstance(b.preds, dict) else b.preds[i]
            if not ps:
                return False
            for p in ps:
                if (p, i) in good:
                    continue
                q = b.bbs[p].term
                if q.k == "call" and q.dest is not None and q.dest.l == l:
                    return False
                work.append(p)
    return True


def counters(P):
    """fields holding a number of characters"""
    out = set()
    F = flow_of(P)
    for (owner, name), ws in F.field_writes.items():
        if owner not in P.adts or not P.adts[owner]["ws"]:
            continue
        ft = next((ty for v in P.adts[owner]["variants"] for f, ty in v[2] if f == name), None)
        if ft != "usize":
            continue
        for (b, i, j, o) in ws:
            if hasattr(o, "op"):
                if charcount(("call", o.op.fn.full if o.op.fn else "?", b, o)):
                    out.add((owner, name))
                continue
            if any(charcount(x) for x in F.origins(b, o, i, j, LocalWhole(P))):
                out.add((owner, name))
    return out


def run(P, R, tier):
    R.explanation = ("Provenance over MIR of every byte offset used to slice, truncate, split, drain or insert into a str/String: it comes from a search, a length, a character index or boundary function, "
                     "and a constant enters only where the function compares the text with a constant pattern of that many bytes (or tests the boundary). A size limit, a number of characters or a column never is a byte offset.")
    looks = Looks(P)
    cnt = counters(P)
    R.count("character_counters", len(cnt))
    for b in P.bodies.values():
        if b.promoted is not None or b.derived:
            continue
        for i, t in b.calls:
            if t.op.fn is None or not CUT.search(t.op.fn.full):
                continue
            tys = [b.locals[a.place.l] if a.is_place else a.ty for a in t.args]
            if len(tys) < 2 or not STR.match(str(tys[0])) or "RangeFull" in str(tys[1]):
                continue
            R.count("cut_sites")
            leaves = origins(P, b, t.args[1], i, Off(P))
            bad = []
            for x in leaves:
                R.count("offset_sources")
                if charcount(x):
                    bad.append("a number of characters or columns (%s)" % leaf_str(x))
                elif x[0] == "call" and re.search(r"Range(Inclusive)?<.*>.*::next(_back)?$", x[1]):
                    if "boundary" not in looks.own(b) or not tested(P, b, i, t):
                        bad.append("every number of a range in turn")
                elif x[0] == "field" and (x[1], x[2]) in cnt:
                    bad.append("the character count %s.%s" % (short(x[1]), x[2]))
                elif x[0] == "const" and x[1] not in (None, 0, "0") and str(x[1]).isdigit():
                    k = int(x[1])
                    if k in looks.own(x[2]) or k in looks.handed(x[2]):
                        continue
                    if "boundary" not in looks.own(b) or not tested(P, b, i, t):
                        bad.append("the constant %d" % k)
            R.sample("%s:%s %s: %s" % (b.file, t.line, short(b.name), ", ".join(sorted({leaf_str(x)[:50] for x in leaves}))), 60)
            for m in sorted(set(bad)):
                R.violation("cut:%s:%s" % (short(b.name), m), where(b, t.line), "cuts text at a byte offset computed from %s, which may lie inside a character" % m)
    R.floor("cut_sites", 60, "places cutting text")
    R.assumptions += ["positions recorded in the shell's own structures (tokens, spans) are byte positions of the text they are used with", "a pattern test found in the function guards the cut it was written for"]
