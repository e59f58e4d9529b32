"""In-memory model of the MIR facts: bodies, blocks, statements, calls, ADTs, impls, call graph."""
import gc, json, os, pickle, re, sys
from collections import defaultdict

sys.setrecursionlimit(20000)


class Place:
    __slots__ = ("l", "p")

    def __init__(self, l, p=()):
        self.l = l
        self.p = p

    def __repr__(self):
        s = "_%d" % self.l
        for e in self.p:
            if e == "*":
                s = "(*%s)" % s
            elif e[0] == "f":
                s += "." + e[2]
            elif e[0] == "i":
                s += "[_%d]" % e[1]
            elif e[0] == "ci":
                s += "[%s%d]" % ("-" if e[2] else "", e[1])
            elif e[0] == "sub":
                s += "[%d..%s%d]" % (e[1], "-" if e[3] else "", e[2])
            elif e[0] == "v":
                s += " as " + e[2]
            else:
                s += ".?"
        return s

    def key(self):
        return (self.l, self.p)

    def fields(self):
        """names of the struct fields projected, ignoring derefs/downcasts"""
        return tuple(e[2] for e in self.p if e != "*" and e[0] == "f")


class Fn:
    """A reference to a function: k in i(tem) v(irtual) s(him) n(intrinsic) ?(unresolved)"""
    __slots__ = ("k", "name", "id", "substs", "is_trait", "rname", "rid")

    def __init__(self, k, name, id, substs, is_trait, rname, rid):
        self.k, self.name, self.id, self.substs, self.is_trait, self.rname, self.rid = k, name, id, substs, is_trait, rname, rid

    @property
    def full(self):
        return self.rname or self.name

    @property
    def target(self):
        return self.rid if self.rname else self.id

    def __repr__(self):
        return self.full


class Op:
    """operand: kind 'p' copy, 'm' move, 'c' const, 'fn'"""
    __slots__ = ("k", "place", "ty", "fn", "val", "s", "b", "ch", "named", "promoted", "static")

    def __init__(self):
        self.place = self.ty = self.fn = self.val = self.s = self.b = self.ch = self.named = self.promoted = self.static = None

    @property
    def is_place(self):
        return self.k in ("p", "m")

    def __repr__(self):
        if self.k in ("p", "m"):
            return ("move " if self.k == "m" else "") + repr(self.place)
        if self.k == "fn":
            return "fn " + repr(self.fn)
        if self.promoted:
            return "promoted[%d]" % self.promoted[0]
        for a in ("s", "b", "ch", "val"):
            v = getattr(self, a)
            if v is not None:
                return repr(v) if a != "val" else "%r:%s" % (v, self.ty)
        if self.named:
            return "const " + self.named[0]
        if self.static:
            return "static " + self.static[0]
        return "const:" + str(self.ty)


class Stmt:
    __slots__ = ("k", "place", "rv", "line", "mac")


class Term:
    __slots__ = ("k", "op", "targets", "otherwise", "ty", "line", "mac", "place", "target", "args", "dest", "kind", "ops", "expected")

    def succ(self):
        if self.k == "goto":
            return [self.target]
        if self.k == "sw":
            r = [t for _, t in self.targets]
            r.append(self.otherwise)
            return r
        if self.k in ("drop", "assert", "yield"):
            return [self.target]
        if self.k == "call":
            return [self.target] if self.target >= 0 else []
        return []


class BB:
    __slots__ = ("cleanup", "stmts", "term")


class Body:
    def __init__(self):
        self.promoted = None
        self._preds = None
        self._calls = None
        self._reach = None

    def __repr__(self):
        return "<%s>" % self.name

    @property
    def reachable(self):
        if self._reach is None:
            seen, st = {0}, [0]
            while st:
                for s in self.bbs[st.pop()].term.succ():
                    if s not in seen:
                        seen.add(s)
                        st.append(s)
            self._reach = seen
        return self._reach

    @property
    def preds(self):
        if self._preds is None:
            p = defaultdict(list)
            for i in self.reachable:
                for s in self.bbs[i].term.succ():
                    if i not in p[s]:
                        p[s].append(i)
            self._preds = p
        return self._preds

    @property
    def calls(self):
        """[(bb index, Term)] of reachable call terminators"""
        if self._calls is None:
            self._calls = [(i, self.bbs[i].term) for i in sorted(self.reachable) if self.bbs[i].term.k == "call"]
        return self._calls

    def loc(self, line=None):
        return "%s:%s" % (self.file, line if line is not None else self.line)


class Program:
    def __init__(self):
        self.bodies = {}       # id -> Body  (promoteds: (id, n))
        self.adts = {}         # name -> {enum, ws, variants:[(name, discr, [(field, ty)])]}
        self.impls = []        # dicts
        self.crates = []

    # ---- loading
    @staticmethod
    def load(d):
        gc.disable()
        try:
            return Program._load(d)
        finally:
            gc.freeze()
            gc.enable()

    @staticmethod
    def _load(d):
        pk = os.path.join(d, "program.pickle")
        if os.path.exists(pk):
            try:
                with open(pk, "rb") as f:
                    return pickle.load(f)
            except Exception:
                pass
        P = Program()
        for fn in sorted(os.listdir(d)):
            if fn.endswith(".jsonl"):
                P._load_file(os.path.join(d, fn))
        P._index()
        tmp = pk + ".tmp%d" % os.getpid()
        with open(tmp, "wb") as f:
            pickle.dump(P, f, protocol=pickle.HIGHEST_PROTOCOL)
        os.replace(tmp, pk)
        return P

    def _load_file(self, path):
        with open(path) as f:
            head = json.loads(f.readline())
            S = [sys.intern(x) for x in head["strs"]]
            self.crates.append(head["crate"])
            self.S = S
            for line in f:
                o = json.loads(line)
                if "fn" in o:
                    self._body(o, S, head["crate"])
                elif "impl" in o:
                    self.impls.append({
                        "trait": self._def(o["trait"], S), "self": S[o["self"]], "derived": o["derived"],
                        "items": [(self._def(a, S), self._def(b, S)) for a, b in o["items"]],
                        "file": S[o["file"]], "line": o["line"]})
                elif "adt" in o:
                    n = S[o["adt"][0]]
                    if n in self.adts and not o["ws"]:
                        continue
                    self.adts[n] = {"enum": o["enum"], "ws": o["ws"],
                                    "variants": [(S[v[0]], v[1], [(S[f_[0]], S[f_[1]] if o["ws"] else None) for f_ in v[2]]) for v in o["variants"]]}
        del self.S

    @staticmethod
    def _def(x, S):
        if x is None:
            return (None, None)
        return (S[x[0]], S[x[1]] if len(x) > 1 else None)

    def _place(self, x, S):
        pr = []
        for e in x[1:]:
            if e == "*":
                pr.append("*")
            elif e[0] == 0:
                pr.append(("f", e[1], S[e[2]], S[e[3]]))
            elif e[0] == 1:
                pr.append(("i", e[1]))
            elif e[0] == 2:
                pr.append(("ci", e[1], e[2], e[3]))
            elif e[0] == 3:
                pr.append(("sub", e[1], e[2], e[3]))
            elif e[0] == 4:
                pr.append(("v", e[1], S[e[2]]))
            else:
                pr.append(("x",))
        return Place(x[0], tuple(pr))

    def _fn(self, x, S):
        n, i = self._def(x[1], S)
        rn = ri = None
        if len(x) > 4:
            rn, ri = self._def(x[4], S)
        return Fn(x[0], n, i, tuple(S[t] for t in x[2]), bool(x[3]), rn, ri)

    def _op(self, x, S):
        o = Op()
        o.k = x["k"]
        if o.k in ("p", "m"):
            o.place = self._place(x["p"], S)
        elif o.k == "fn":
            o.fn = self._fn(x["f"], S)
            o.ty = S[x["t"]]
        elif o.k == "c":
            o.ty = S[x["t"]]
            o.val = x.get("v")
            o.s = x.get("s")
            o.b = bytes.fromhex(x["b"]) if "b" in x else None
            o.ch = x.get("ch")
            if "u" in x:
                o.named = self._def(x["u"], S)
            if "pr" in x:
                o.promoted = (x["pr"][0], self._def(x["pr"][1], S))
            if "st" in x:
                o.static = self._def(x["st"], S)
        return o

    def _rv(self, r, S):
        k = r[0]
        if k in ("use", "rep"):
            return (k, self._op(r[1], S))
        if k in ("ref", "raw"):
            return (k, self._place(r[1], S), r[2])
        if k == "tls":
            return (k, self._def(r[1], S))
        if k == "cast":
            return (k, self._op(r[1], S), S[r[2]], r[3])
        if k == "bin":
            return (k, r[1], self._op(r[2], S), self._op(r[3], S))
        if k == "un":
            return (k, r[1], self._op(r[2], S))
        if k == "disc":
            return (k, self._place(r[1], S), S[r[2]])
        if k == "agg":
            a = r[1]
            if a[0] == "adt":
                a = ("adt", S[a[1]], S[a[2]], a[3], tuple(S[f] for f in a[4]))
            elif a[0] in ("clo", "cor"):
                a = (a[0], self._def(a[1], S))
            else:
                a = tuple(a)
            return (k, a, [self._op(o, S) for o in r[2]])
        raise ValueError(k)

    def _body(self, o, S, crate):
        b = Body()
        b.crate = crate
        b.name, b.id = self._def(o["fn"], S)
        b.kind = o["kind"]
        b.parent = self._def(o["parent"], S) if o["parent"] else None
        b.file, b.line, b.eline, b.argc = S[o["file"]], o["line"], o["eline"], o["argc"]
        b.derived = o["derived"]
        b.trm = self._def(o["trm"], S) if o["trm"] else None
        b.locals = [S[t] for t in o["locals"]]
        b.vars = [(S[n], self._place(p, S)) for n, p in o["vars"]]
        b.bbs = []
        for x in o["bbs"]:
            bb = BB()
            bb.cleanup = bool(x["c"])
            bb.stmts = []
            for s in x["s"]:
                st = Stmt()
                st.k = s[0]
                st.rv = st.line = st.mac = None
                if s[0] == "=":
                    st.place = self._place(s[1], S)
                    st.rv = self._rv(s[2], S)
                    st.line, st.mac = s[3], S[s[4]]
                elif s[0] == "sd":
                    st.place = self._place(s[1], S)
                    st.rv = s[2]
                else:
                    st.place = Place(s[1])
                bb.stmts.append(st)
            t = x["t"]
            T = Term()
            T.k = t[0]
            T.line = T.mac = None
            if T.k == "goto":
                T.target = t[1]
            elif T.k == "sw":
                T.op = self._op(t[1], S)
                T.targets = [(v, tt) for v, tt in t[2]]
                T.otherwise = t[3]
                T.ty = S[t[4]]
                T.line, T.mac = t[5], S[t[6]]
            elif T.k == "drop":
                T.place = self._place(t[1], S)
                T.target = t[2]
                T.ty = S[t[3]]
                T.line, T.mac = t[4], S[t[5]]
            elif T.k == "call":
                T.op = self._op(t[1], S)
                T.args = [self._op(a, S) for a in t[2]]
                T.dest = self._place(t[3], S)
                T.target = t[4]
                T.line, T.mac = t[5], S[t[6]]
            elif T.k == "assert":
                T.op = self._op(t[1], S)
                T.expected = t[2]
                T.kind = t[3]
                T.ops = [self._op(a, S) for a in t[4]]
                T.target = t[5]
                T.line, T.mac = t[6], S[t[7]]
            elif T.k == "yield":
                T.op = self._op(t[1], S)
                T.target = t[2]
                T.place = self._place(t[3], S)
                T.line, T.mac = t[4], S[t[5]]
            bb.term = T
            b.bbs.append(bb)
        if "promoted" in o:
            b.promoted = o["promoted"]
            b.id = (b.id, b.promoted)
        self.bodies[b.id] = b

    # ---- indexes
    def _index(self):
        self.by_name = defaultdict(list)
        for b in self.bodies.values():
            if b.promoted is None:
                self.by_name[b.name].append(b)
        # trait method id/name -> impl method ids
        self.trait_impls = defaultdict(list)
        for im in self.impls:
            if im["trait"][0]:
                for (mn, mid), (tn, tid) in im["items"]:
                    if tn:
                        self.trait_impls[tid or tn].append(mid)
        self.reified = defaultdict(set)  # fn pointer type -> ids
        self.addr_taken = set()
        for b in self.bodies.values():
            for bb in b.bbs:
                for s in bb.stmts:
                    if s.k == "=" and s.rv[0] == "cast" and s.rv[3] == "ReifyFnPointer" and s.rv[1].k == "fn":
                        t = s.rv[1].fn.target
                        if t:
                            self.reified[strip_lt(s.rv[2])].add(t)
        self.children = defaultdict(list)  # id -> closure/coroutine ids
        for b in self.bodies.values():
            if b.parent and b.promoted is None:
                self.children[b.parent[1]].append(b.id)
        self._edges = {}
        self._callers = None

    def promoted_body(self, op):
        n, (nm, i) = op.promoted
        return self.bodies.get((i, n))

    def targets(self, body, term):
        """ids of workspace bodies a call terminator may enter"""
        f = term.op.fn
        if f is None:
            if term.op.is_place:
                ty = strip_lt(body_ty(body, term.op.place))
                return sorted(self.reified.get(ty, ()))
            return []
        r = []
        if f.k in ("v", "?") and f.is_trait:
            r = list(self.trait_impls.get(f.id or f.name, []))
            if f.id in self.bodies:
                r.append(f.id)
        elif f.target in self.bodies:
            r = [f.target]
        return r

    def edges(self, bid):
        """call-graph successors of a body: list of (callee id, kind, bb, term)"""
        if bid in self._edges:
            return self._edges[bid]
        b = self.bodies[bid]
        out = []
        for i in sorted(b.reachable):
            bb = b.bbs[i]
            for s in bb.stmts:
                if s.k == "=":
                    rv = s.rv
                    if rv[0] == "agg" and rv[1][0] in ("clo", "cor"):
                        out.append((rv[1][1][1], "closure", i, None))
                    for o in rv_ops(rv):
                        self._op_edges(o, i, out)
            t = bb.term
            if t.k == "call":
                for x in self.targets(b, t):
                    out.append((x, "call", i, t))
                for a in t.args:
                    self._op_edges(a, i, out)
        out = [e for e in out if e[0] in self.bodies]
        self._edges[bid] = out
        return out

    def _op_edges(self, o, i, out):
        if o.k == "fn" and o.fn.target in self.bodies:
            out.append((o.fn.target, "fnref", i, None))
        elif o.k == "c":
            if o.promoted:
                pid = (o.promoted[1][1], o.promoted[0])
                if pid in self.bodies:
                    out.append((pid, "const", i, None))
            elif o.named and o.named[1] in self.bodies:
                out.append((o.named[1], "const", i, None))
            elif o.static and o.static[1] in self.bodies:
                out.append((o.static[1], "const", i, None))

    @property
    def callers(self):
        if self._callers is None:
            c = defaultdict(list)
            for bid in self.bodies:
                for (t, k, i, term) in self.edges(bid):
                    c[t].append((bid, k, i, term))
            self._callers = c
        return self._callers

    def reach_from(self, roots, skip=lambda e: False):
        seen, st = set(roots), list(roots)
        while st:
            x = st.pop()
            for e in self.edges(x):
                if e[0] not in seen and not skip(e):
                    seen.add(e[0])
                    st.append(e[0])
        return seen

    def can_reach(self, pred, follow_const=True, stop=()):
        """ids of bodies from which a call term satisfying pred(body, bb, term) is reachable
        (without passing through a body in `stop`)"""
        direct = set()
        for bid, b in self.bodies.items():
            if bid in stop:
                continue
            for i, t in b.calls:
                if pred(b, i, t):
                    direct.add(bid)
                    break
        seen, st = set(direct), list(direct)
        while st:
            x = st.pop()
            for (c, k, i, t) in self.callers.get(x, ()):
                if k == "const" and not follow_const:
                    continue
                if c not in seen and c not in stop:
                    seen.add(c)
                    st.append(c)
        return seen

    def find(self, pat, kind=None):
        r = re.compile(pat)
        return [b for b in self.bodies.values() if b.promoted is None and r.search(b.name) and (kind is None or b.kind == kind)]

    def coroutine_of(self, bid):
        """the coroutine body an async fn returns, if bid is an async fn"""
        b = self.bodies.get(bid)
        if b is None or b.kind != "fn":
            return None
        for i in b.reachable:
            for s in b.bbs[i].stmts:
                if s.k == "=" and s.rv[0] == "agg" and s.rv[1][0] == "cor" and s.place.l == 0 and not s.place.p:
                    return s.rv[1][1][1]
        return None


_lt = re.compile(r"'[a-z_][a-zA-Z_0-9]*\s?|for<[^>]*>\s?")


def strip_lt(t):
    return _lt.sub("", t).replace("<>", "").replace("& ", "&")


def body_ty(body, place):
    if not place.p:
        return body.locals[place.l]
    if all(e == "*" for e in place.p):
        t = body.locals[place.l]
        for _ in place.p:
            t = re.sub(r"^&('[a-z_]+ )?(mut )?", "", t)
        return t
    return "?"


def rv_ops(rv):
    k = rv[0]
    if k in ("use", "rep", "cast"):
        return [rv[1]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "agg":
        return rv[2]
    return []


def rv_places(rv):
    """places read by an rvalue"""
    r = [o.place for o in rv_ops(rv) if o.is_place]
    if rv[0] in ("ref", "raw", "disc"):
        r.append(rv[1])
    return r


def dump_body(b, out=sys.stdout):
    print("== %s [%s] %s:%d-%d id=%s" % (b.name, b.kind, b.file, b.line, b.eline, b.id), file=out)
    for n, p in b.vars:
        print("   var %s = %r" % (n, p), file=out)
    for i in sorted(b.reachable):
        bb = b.bbs[i]
        print(" bb%d:" % i, file=out)
        for s in bb.stmts:
            if s.k == "=":
                rv = s.rv
                print("   %r = %s   ;%s %s" % (s.place, " ".join(map(repr, rv)), s.line, s.mac), file=out)
            elif s.k == "sd":
                print("   setdisc %r %r" % (s.place, s.rv), file=out)
        t = bb.term
        if t.k == "call":
            print("   %r = CALL %r%r -> bb%d  ;%s %s" % (t.dest, t.op, t.args, t.target, t.line, t.mac), file=out)
        elif t.k == "sw":
            print("   SWITCH %r %r else bb%d ;%s %s" % (t.op, t.targets, t.otherwise, t.line, t.ty), file=out)
        elif t.k == "drop":
            print("   DROP %r : %s -> bb%d" % (t.place, t.ty, t.target), file=out)
        elif t.k == "assert":
            print("   ASSERT %s %r %r -> bb%d" % (t.kind, t.op, t.ops, t.target), file=out)
        elif t.k in ("goto", "yield"):
            print("   %s bb%d" % (t.k.upper(), t.target), file=out)
        else:
            print("   " + t.k.upper(), file=out)


if __name__ == "__main__":
    from . import facts
    P = Program.load(facts.get())
    for b in P.find(sys.argv[1]):
        dump_body(b)
