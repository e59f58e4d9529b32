"""Path-sensitive property simulation over MIR.

A Spec names *events*: calls that add facts, gates whose results are tracked symbolically, and calls
that may only be reached in certain states.  The engine walks every path of an entry function,
inlining the workspace functions through which an event can be reached, keeping for every path the
set of facts, what is known of the gates' results, and the constants/variants held by live locals.
No value is ever concretised and no solver is used: joins are set unions of abstract states.
"""
from .ir import rv_ops, Place
import re

TRACING = re.compile(r"^(tracing::)?(debug|info|warn|error|trace|event)$")


def base_ty(t):
    """ADT name of a type string without generics and references"""
    t = re.sub(r"^(&('[a-z_0-9]+ )?(mut )?)+", "", t)
    i = t.find("<")
    return t[:i] if i > 0 else t


RES = "core::result::Result"
OPT = "core::option::Option"
CF = "core::ops::control_flow::ControlFlow"
POLL = "core::task::poll::Poll"


def E(adt, var, *vals):
    return ("e", adt, var, tuple(vals))


def C(v):
    return ("c", v)


class State:
    __slots__ = ("facts", "know", "env")

    def __init__(self, facts=frozenset(), know=None, env=None):
        self.facts = facts
        self.know = know or {}     # sym -> frozenset(possible variant names / bools)
        self.env = env or {}       # (local, path) -> value

    def copy(self):
        return State(self.facts, dict(self.know), dict(self.env))

    def add(self, *f):
        self.facts = self.facts | set(f)
        return self

    def key(self):
        return (self.facts, frozenset(self.know.items()), frozenset(self.env.items()))


class Spec:
    """Override: events.  `interesting` = ids of bodies to inline."""
    max_states = 60000
    max_depth = 14
    cap = 16          # refinements of one (block, facts, knowledge) before local constants are dropped

    def __init__(self, P):
        self.P = P
        self.interesting = set()
        self.findings = {}

    # on_call returns None (default handling) or a list of (value, State)
    def on_call(self, eng, st, body, bb, term, vals, stack):
        return None

    def on_drop(self, eng, st, body, bb, term, stack):
        return None

    def report(self, key, msg):
        self.findings.setdefault(key, msg)


class Engine:
    def __init__(self, P, spec):
        self.P, self.spec = P, spec
        self.memo = {}
        self.active = []
        self.stats = {"states": 0, "functions": set(), "calls": 0, "capped": 0}
        self._live = {}
        self._succ = {}
        self._tested = {}
        self.tested = frozenset()

    # ---------- tracing shortcut: treat log statements as disabled
    def skip_target(self, body, i):
        key = body.id
        m = self._succ.get(key)
        if m is None:
            m = self._succ[key] = {}
            istr = {}
            for j in body.reachable:
                t = body.bbs[j].term
                istr[j] = bool(t.mac and TRACING.match(t.mac))
            # distance to a block whose terminator is outside a tracing macro
            dist = {j: (0 if not istr[j] else None) for j in body.reachable}
            ch = True
            while ch:
                ch = False
                for j in body.reachable:
                    if istr[j]:
                        ds = [dist[s] for s in body.bbs[j].term.succ() if dist.get(s) is not None]
                        if ds and (dist[j] is None or min(ds) + 1 < dist[j]):
                            dist[j] = min(ds) + 1
                            ch = True
            for j in body.reachable:
                t = body.bbs[j].term
                if istr[j] and t.k == "sw":
                    best = min((s for s in t.succ() if dist.get(s) is not None), key=lambda s: dist[s], default=None)
                    if best is not None:
                        m[j] = best
        return m.get(i)

    # ---------- liveness of locals (address-taken locals stay live while any ref to them may be)
    def live(self, body):
        L = self._live.get(body.id)
        if L is not None:
            return L
        n = len(body.bbs)
        use, dfn, addr = [set() for _ in range(n)], [set() for _ in range(n)], set()

        def rd(pl, i):
            if pl.l not in dfn[i]:
                use[i].add(pl.l)
            for e in pl.p:
                if e != "*" and e[0] == "i" and e[1] not in dfn[i]:
                    use[i].add(e[1])
        for i in body.reachable:
            bb = body.bbs[i]
            for s in bb.stmts:
                if s.k == "=":
                    for o in rv_ops(s.rv):
                        if o.is_place:
                            rd(o.place, i)
                    if s.rv[0] in ("ref", "raw"):
                        addr.add(s.rv[1].l)
                        rd(s.rv[1], i)
                    elif s.rv[0] == "disc":
                        rd(s.rv[1], i)
                    if s.place.p:
                        rd(s.place, i)
                    else:
                        dfn[i].add(s.place.l)
            t = bb.term
            if t.k in ("sw", "assert", "yield") and t.op.is_place:
                rd(t.op.place, i)
            elif t.k == "call":
                if t.op.is_place:
                    rd(t.op.place, i)
                for a in t.args:
                    if a.is_place:
                        rd(a.place, i)
                if t.dest.p:
                    rd(t.dest, i)
            elif t.k == "drop":
                rd(t.place, i)
        livein = [set() for _ in range(n)]
        ch = True
        order = sorted(body.reachable, reverse=True)
        while ch:
            ch = False
            for i in order:
                out = set()
                for s in body.bbs[i].term.succ():
                    out |= livein[s]
                if body.bbs[i].term.k == "call" and not body.bbs[i].term.dest.p:
                    out.discard(body.bbs[i].term.dest.l)
                ni = use[i] | (out - dfn[i])
                if ni != livein[i]:
                    livein[i] = ni
                    ch = True
        # address-taken: live wherever some local is live that was derived from it; approximate by all blocks
        L = self._live[body.id] = (livein, addr)
        return L

    def tested_locals(self, body):
        """locals whose value decides more than one branch (bools copied to a switch, discriminants read)"""
        T = self._tested.get(body.id)
        if T is None:
            cnt = {}
            alias = {}
            for i in body.reachable:
                if self.skip_target(body, i) is not None:
                    continue
                bb = body.bbs[i]
                for s in bb.stmts:
                    if s.k != "=":
                        continue
                    if s.rv[0] == "disc":
                        if bb.term.k == "sw":
                            cnt[s.rv[1].l] = cnt.get(s.rv[1].l, 0) + 1
                    elif s.rv[0] in ("use", "ref") and not s.place.p:
                        pl = s.rv[1] if s.rv[0] == "ref" else (s.rv[1].place if s.rv[1].is_place else None)
                        if pl is not None:
                            alias.setdefault(s.place.l, set()).add(pl.l)
                if bb.term.k == "sw" and bb.term.op.is_place and bb.term.ty == "bool":
                    l = bb.term.op.place.l
                    cnt[l] = cnt.get(l, 0) + 1
                elif bb.term.k == "call" and bb.term.op.fn:
                    sh = bb.term.op.fn.name.rsplit("::", 1)[-1]
                    if sh in ("is_ok", "is_err", "is_some", "is_none", "branch", "eq", "ne"):
                        for a in bb.term.args:
                            if a.is_place:
                                cnt[a.place.l] = cnt.get(a.place.l, 0) + 1
            for _ in range(4):
                for a, bs in alias.items():
                    if a in cnt:
                        for b in bs:
                            k = ("a", a, b)
                            if k not in cnt:
                                cnt[k] = 1
                                cnt[b] = cnt.get(b, 0) + cnt[a]
            T = self._tested[body.id] = frozenset(k for k, v in cnt.items() if isinstance(k, int) and v >= 2)
        return T

    # ---------- environment access
    def norm(self, st, place):
        """(local, path) with derefs of known references resolved; None if unknown"""
        l, path = place.l, ()
        for e in place.p:
            if e == "*":
                v = self.get(st, (l, path))
                if v is not None and v[0] == "r":
                    l, path = v[1]
                elif v is not None and v[0] == "y":
                    continue      # reference to symbol = symbol
                elif v is not None and v[0] in ("e", "cor", "clo", "c"):
                    continue
                else:
                    path = path + ("*",)
            elif e[0] == "f":
                path = path + (e[1],)
            elif e[0] == "v":
                path = path + (("v", e[2]),)
            else:
                return None
        return (l, path)

    def get(self, st, key):
        l, path = key
        if key in st.env:
            return st.env[key]
        # walk from the longest known prefix
        for n in range(len(path) - 1, -1, -1):
            v = st.env.get((l, path[:n]))
            if v is not None:
                return self.project(v, path[n:])
        return None

    def project(self, v, path):
        i = 0
        while i < len(path):
            if v is None:
                return None
            e = path[i]
            if v[0] == "e":
                if isinstance(e, tuple):      # downcast
                    if e[1] != v[2]:
                        return None
                    i += 1
                    continue
                if e == "*":
                    i += 1
                    continue
                v = v[3][e] if isinstance(e, int) and e < len(v[3]) else None
                i += 1
            elif v[0] == "y":
                if e == "*":
                    i += 1
                    continue
                v = ("y", v[1] + (e,))
                i += 1
            elif v[0] in ("cor", "clo"):
                if e == "*":
                    i += 1
                    continue
                v = v[2][e] if isinstance(e, int) and e < len(v[2]) else None
                i += 1
            elif v[0] == "u":
                v = ("u", v[1], v[2] + (e,)) if False else None
                i += 1
            else:
                return None
        return v

    def read(self, st, place):
        k = self.norm(st, place)
        if k is None:
            return None
        v = self.get(st, k)
        if v is None and len(k[1]) <= 3 and k[0] in self.tested:
            return ("u", k)       # unknown value of that place
        return v

    def strip_u(self, v):
        return None if v is not None and v[0] == "u" else v

    def write(self, st, place, v):
        k = self.norm(st, place)
        if k is None:
            # a write through an unknown index: forget the base
            self.forget(st, place.l)
            return
        self.kill(st, k)
        v = self.clean(v)
        if v is not None:
            # writing a field of a known aggregate
            st.env[k] = v

    def clean(self, v):
        """drop 'u' values nested in aggregates"""
        if v is None:
            return None
        if v[0] == "e":
            return ("e", v[1], v[2], tuple(None if x is not None and x[0] == "u" else x for x in v[3]))
        if v[0] in ("cor", "clo"):
            return (v[0], v[1], tuple(None if x is not None and x[0] == "u" else x for x in v[2]))
        return v

    def kill(self, st, k):
        l, path = k
        dead = []
        for (kl, kp), v in st.env.items():
            if kl == l and (kp[:len(path)] == path):
                dead.append((kl, kp))
            elif kl == l and path[:len(kp)] == kp and v[0] in ("e", "cor", "clo", "y", "c"):
                # containing aggregate: split it
                dead.append((kl, kp))
            elif self.mentions(v, l, path):
                dead.append((kl, kp))
        for d in dead:
            v = st.env.pop(d)
            if d[0] == l and len(d[1]) < len(path) and v[0] == "e":
                # keep sibling fields
                rest = path[len(d[1]):]
                if len(rest) >= 1:
                    off = 0
                    pre = d[1]
                    if isinstance(rest[0], tuple):
                        off = 1
                        pre = pre + (rest[0],)
                    if off < len(rest):
                        for i, x in enumerate(v[3]):
                            if i != rest[off] and x is not None:
                                st.env[(l, pre + (i,))] = x

    def mentions(self, v, l, path):
        if v is None:
            return False
        if v[0] == "u":
            kl, kp = v[1]
            return kl == l and (kp[:len(path)] == path or path[:len(kp)] == kp)
        if v[0] in ("d", "not"):
            return self.mentions(v[1], l, path)
        if v[0] == "eq":
            return self.mentions(v[1], l, path) or self.mentions(v[2], l, path)
        return False

    def forget(self, st, l):
        for d in [k for k, v in st.env.items() if k[0] == l or self.mentions(v, l, ())]:
            st.env.pop(d)

    # ---------- values
    def operand(self, st, op, body):
        if op.is_place:
            return self.read(st, op.place)
        if op.k == "fn":
            return ("fn", op.fn.target or op.fn.full)
        if op.val is not None:
            if op.ty and op.ty not in ("bool",) and base_ty(op.ty) in self.P.adts and self.P.adts[base_ty(op.ty)]["enum"]:
                for vn, d, fs in self.P.adts[base_ty(op.ty)]["variants"]:
                    if int(d) == op.val and not fs:
                        return E(base_ty(op.ty), vn)
            return C(op.val)
        if op.s is not None:
            return C(op.s)
        if op.promoted:
            pb = self.P.promoted_body(op)
            if pb is not None:
                return self.promoted_value(pb)
        if op.named and op.named[1] in self.P.bodies:
            return self.promoted_value(self.P.bodies[op.named[1]])
        return None

    def promoted_value(self, pb):
        """value of a (reference to a) constant: only single-block aggregates of unit variants/ints"""
        if len(pb.bbs) != 1:
            return None
        st = State()
        for s in pb.bbs[0].stmts:
            if s.k == "=":
                v = self.rvalue(st, s.rv, pb)
                self.write(st, s.place, v)
        v = st.env.get((0, ()))
        if v is not None and v[0] == "r":
            v = self.get(st, v[1])
        return v if v is not None and v[0] in ("e", "c") else None

    def rvalue(self, st, rv, body):
        k = rv[0]
        if k == "use":
            return self.operand(st, rv[1], body)
        if k == "cast":
            return self.operand(st, rv[1], body)
        if k in ("ref", "raw"):
            pk = self.norm(st, rv[1])
            if pk is None:
                return None
            v = self.get(st, pk)
            if v is not None and v[0] in ("y", "cor", "r"):
                return v if v[0] == "y" else ("r", pk)
            return ("r", pk)
        if k == "disc":
            v = self.read(st, rv[1])
            return ("d", v, base_ty(rv[2])) if v is not None else None
        if k == "agg":
            vals = tuple(self.operand(st, o, body) for o in rv[2])
            a = rv[1]
            if a[0] == "adt":
                return E(a[1], a[2], *vals)
            if a[0] == "tup":
                return E("()", "()", *vals)
            if a[0] == "clo":
                return ("clo", a[1][1], vals)
            if a[0] == "cor":
                return ("cor", a[1][1], vals)
            return None
        if k == "un" and rv[1] == "Not":
            v = self.operand(st, rv[2], body)
            if v is None:
                return None
            if v[0] == "c" and isinstance(v[1], bool):
                return C(not v[1])
            return ("not", v)
        if k == "bin" and rv[1] in ("Eq", "Ne"):
            a, b = self.operand(st, rv[2], body), self.operand(st, rv[3], body)
            if a is not None and b is not None:
                if a[0] == "c" and b[0] == "c":
                    return C((a[1] == b[1]) == (rv[1] == "Eq"))
                r = ("eq", a, b)
                return r if rv[1] == "Eq" else ("not", r)
            for o in (rv[2], rv[3]):
                if o.ch is not None:
                    r = ("chr", o.ch)
                    return r if rv[1] == "Eq" else ("not", r)
            return None
        return None

    def variants(self, adt):
        a = self.P.adts.get(adt)
        return [v[0] for v in a["variants"]] if a else None

    # split a state on a boolean value: [(True/False, State)]
    def split_bool(self, st, v):
        if v is None:
            return [(True, st), (False, st.copy())]
        if v[0] == "c":
            return [(bool(v[1]), st)]
        if v[0] == "not":
            return [(not b, s) for b, s in self.split_bool(st, v[1])]
        if v[0] == "y":
            poss = st.know.get(v[1], frozenset([True, False]))
            out = []
            for b in (True, False):
                if b in poss:
                    s = st.copy()
                    s.know[v[1]] = frozenset([b])
                    out.append((b, s))
            return out
        if v[0] == "u":
            w = self.get(st, v[1])
            if w is not None and w != v:
                return self.split_bool(st, w)
            out = []
            for b in (True, False):
                s = st.copy()
                s.env[v[1]] = C(b)
                out.append((b, s))
            return out
        if v[0] == "chr":
            s2 = st.copy()
            st.facts = st.facts | {("key", v[1])}
            return [(True, st), (False, s2)]
        if v[0] == "eq":
            a, b = v[1], v[2]
            for x, y in ((a, b), (b, a)):
                x = self.deref(st, x)
                y = self.deref(st, y)
                if x is None or y is None:
                    continue
                # discriminant comparison with a constant
                if x[0] == "d" and y[0] == "d":
                    x, y = x[1], y[1]
                    if x is None or y is None:
                        continue
                if y[0] == "e" and not any(z is not None for z in y[3]):
                    vs = self.variants(y[1])
                    if vs:
                        res = []
                        for var, s in self.split_variant(st, x, y[1]):
                            res.append((var == y[2], s))
                        return res
            return [(True, st), (False, st.copy())]
        return [(True, st), (False, st.copy())]

    def deref(self, st, v):
        n = 0
        while v is not None and v[0] == "r" and n < 6:
            w = self.get(st, v[1])
            if w is None:
                return ("u", v[1])
            v = w
            n += 1
        if v is not None and v[0] == "u":
            w = self.get(st, v[1])
            if w is not None:
                return w
        return v

    # split a state on the variant of an enum value: [(variant, State)]
    def split_variant(self, st, v, adt):
        vs = self.variants(adt) or []
        v = self.deref(st, v)
        if v is None:
            return [(x, st.copy()) for x in vs]
        if v[0] == "e":
            return [(v[2], st)]
        if v[0] == "y":
            poss = st.know.get(v[1], None)
            out = []
            for x in vs:
                if poss is None or x in poss:
                    s = st.copy()
                    s.know[v[1]] = frozenset([x])
                    out.append((x, s))
            return out
        if v[0] == "u":
            out = []
            for x in vs:
                s = st.copy()
                a = self.P.adts[adt]
                nf = [len(f) for n, d, f in a["variants"] if n == x][0]
                s.env[v[1]] = ("e", adt, x, (None,) * nf)
                out.append((x, s))
            return out
        return [(x, st.copy()) for x in vs]

    # ---------- running
    def run(self, bid, args, st, stack):
        """explore body bid with argument values; returns list of (ret value, facts, know)"""
        body = self.P.bodies[bid]
        key = (bid, tuple(args), st.facts, frozenset(st.know.items()))
        if key in self.memo:
            return self.memo[key]
        if len(self.active) >= self.spec.max_depth or any(a[0] == bid and a[1] == st.facts for a in self.active) or sum(1 for a in self.active if a[0] == bid) > 1:
            return [(None, st.facts, frozenset(st.know.items()))]
        self.active.append((bid, st.facts))
        saved_tested, self.tested = self.tested, self.tested_locals(body)
        self.stats["functions"].add(bid)
        s0 = State(st.facts, dict(st.know), {})
        if body.kind == "coroutine":
            for i, a in enumerate(args):
                a = self.clean_arg(a)
                if a is not None:
                    s0.env[(1, (i,))] = a
        elif body.kind == "closure":
            ups = args[0]
            if ups is not None:
                s0.env[(1, ())] = ups
            for i, a in enumerate(args[1:]):
                a = self.clean_arg(a)
                if a is not None:
                    s0.env[(2 + i, ())] = a
        else:
            for i, a in enumerate(args):
                a = self.clean_arg(a)
                if a is not None:
                    s0.env[(1 + i, ())] = a
        outs = {}
        livein, addr = self.live(body)
        seen = set()
        per_bb = {}
        work = [(0, s0)]
        n = 0
        while work:
            i, s = work.pop()
            # prune dead locals
            lv = livein[i]
            self.gc(s, lv)
            fk = (i, s.facts, frozenset(s.know.items()))
            cnt = per_bb.get(fk, 0)
            if cnt > self.spec.cap:
                # too many refinements here: keep only symbols and coroutine/closure values
                self.stats["capped"] += 1
                s.env = {k: v for k, v in s.env.items() if v[0] in ("r", "cor", "clo") or self.any_y(v)}
            sk = (i, s.key())
            if sk in seen:
                continue
            seen.add(sk)
            per_bb[fk] = cnt + 1
            n += 1
            self.stats["states"] += 1
            if self.stats["states"] > self.spec.max_states:
                raise RuntimeError("path engine: state budget exceeded in " + body.name)
            bb = body.bbs[i]
            for q in bb.stmts:
                if q.k == "=":
                    v = self.rvalue(s, q.rv, body)
                    # moves out of places keep the value for both (harmless)
                    self.spec_stmt(s, body, i, q, v, stack)
                    self.write(s, q.place, v)
                elif q.k == "sd":
                    self.write(s, q.place, None)
            t = bb.term
            if t.k == "goto":
                work.append((t.target, s))
            elif t.k in ("assert",):
                work.append((t.target, s))
            elif t.k == "yield":
                work.append((t.target, s))
            elif t.k == "drop":
                r = self.spec.on_drop(self, s, body, i, t, stack)
                for s2 in (r if r is not None else [s]):
                    work.append((t.target, s2))
            elif t.k == "sw":
                sk_t = self.skip_target(body, i)
                if sk_t is not None:
                    work.append((sk_t, s))
                    continue
                for tgt, s2 in self.switch(s, t, body):
                    work.append((tgt, s2))
            elif t.k == "ret":
                rv = s.env.get((0, ()))
                if rv is None:
                    # gather fields
                    rv = None
                rv = self.export(s, rv)
                outs[(rv, s.facts, frozenset(s.know.items()))] = True
            elif t.k == "call":
                self.stats["calls"] += 1
                for v, s2 in self.call(s, body, i, t, stack):
                    if t.target >= 0:
                        self.write(s2, t.dest, v)
                        work.append((t.target, s2))
        self.active.pop()
        self.tested = saved_tested
        res = list(outs)
        if not any(a[0] == bid for a in self.active):
            self.memo[key] = res
        return res

    def gc(self, s, lv):
        """forget dead locals; a borrowed local stays while a kept value refers to it"""
        byl = {}
        for k in s.env:
            byl.setdefault(k[0], []).append(k)
        keep = {l for l in byl if l in lv or l == 0}
        work = list(keep)
        while work:
            for k in byl.get(work.pop(), ()):
                for l in self.refs(s.env[k]):
                    if l in byl and l not in keep:
                        keep.add(l)
                        work.append(l)
        if len(keep) < len(byl):
            s.env = {k: v for k, v in s.env.items() if k[0] in keep}

    def refs(self, v):
        if v is None:
            return ()
        if v[0] == "r":
            return (v[1][0],)
        if v[0] == "u":
            return (v[1][0],)
        if v[0] == "e":
            return [l for x in v[3] for l in self.refs(x)]
        if v[0] in ("cor", "clo"):
            return [l for x in v[2] for l in self.refs(x)]
        if v[0] in ("d", "not"):
            return self.refs(v[1])
        if v[0] == "eq":
            return list(self.refs(v[1])) + list(self.refs(v[2]))
        return ()

    def spec_stmt(self, s, body, i, q, v, stack):
        pass

    def clean_arg(self, a):
        if a is None or a[0] in ("u", "r", "d", "eq", "not"):
            return None
        return self.clean(a)

    def export(self, s, v, depth=0):
        if v is None or depth > 4:
            return None
        if v[0] == "r":
            return self.export(s, self.deref(s, v), depth + 1)
        if v[0] == "u":
            return None
        if v[0] in ("d", "eq", "not"):
            return None
        if v[0] == "e":
            return ("e", v[1], v[2], tuple(self.export(s, x, depth + 1) for x in v[3]))
        if v[0] in ("cor", "clo"):
            return (v[0], v[1], tuple(self.export(s, x, depth + 1) for x in v[2]))
        return v

    def switch(self, s, t, body):
        v = self.operand(s, t.op, body)
        out = []
        if t.ty == "bool":
            tm = dict(t.targets)
            for b, s2 in self.split_bool(s, v):
                out.append((tm.get(1 if b else 0, t.otherwise), s2))
            return out
        if v is not None and v[0] == "d":
            adt = v[2]
            a = self.P.adts.get(adt)
            if a:
                dm = {n: int(d) for n, d, _ in a["variants"]}
                tm = dict(t.targets)
                for var, s2 in self.split_variant(s, v[1], adt):
                    out.append((tm.get(dm.get(var), t.otherwise), s2))
                return out
        if v is not None and v[0] == "c" and isinstance(v[1], int):
            tm = dict(t.targets)
            return [(tm.get(int(v[1]), t.otherwise), s)]
        if t.ty == "char":
            for val, tgt in t.targets:
                s2 = s.copy()
                s2.facts = s2.facts | {("key", chr(val))}
                out.append((tgt, s2))
            if body.bbs[t.otherwise].term.k != "unr":
                out.append((t.otherwise, s.copy()))
            return out
        for tgt in dict.fromkeys(x for _, x in t.targets):
            out.append((tgt, s.copy()))
        if body.bbs[t.otherwise].term.k != "unr":
            out.append((t.otherwise, s.copy()))
        return out

    def sym(self, st, name):
        """fresh symbol for a gate call: forget what was known of an earlier execution"""
        pre = (name,)
        st.know = {k: v for k, v in st.know.items() if k[:1] != pre}
        for k in [k for k, v in st.env.items() if self.has_sym(v, name)]:
            st.env.pop(k)
        return ("y", pre)

    def has_sym(self, v, name):
        if v is None:
            return False
        if v[0] == "y":
            return v[1][0] == name
        if v[0] == "e" or v[0] in ("cor", "clo"):
            return any(self.has_sym(x, name) for x in (v[3] if v[0] == "e" else v[2]))
        if v[0] in ("d", "not"):
            return self.has_sym(v[1], name)
        if v[0] == "eq":
            return self.has_sym(v[1], name) or self.has_sym(v[2], name)
        return False

    def call(self, s, body, i, t, stack):
        vals = [self.operand(s, a, body) for a in t.args]
        r = self.spec.on_call(self, s, body, i, t, vals, stack)
        if r is not None:
            return r
        f = t.op.fn
        name = f.full if f else ""
        m = self.model(s, name, f, vals, t, body, i, stack)
        if m is not None:
            return m
        # inline
        tg = self.P.targets(body, t)
        inl = [x for x in tg if self.should_inline(x, vals, s)]
        if inl:
            out = []
            for x in inl:
                out += self.inline(s, x, vals, body, i, t, stack)
            if len(inl) < len(tg):
                out.append((None, s.copy()))
            self.mutargs(out, t, vals)
            return out
        # closures and futures handed to unknown (std) callees may run: explore those that reach events
        out = [(None, s)]
        transparent = name.rsplit("::", 1)[-1] in ("block_in_place", "block_on", "catch_unwind", "with")
        for v in vals:
            v = self.deref(s, v) if v is not None else None
            if v is None or v[0] not in ("clo", "fn", "cor") or v[1] not in self.P.bodies:
                continue
            if v[1] not in self.spec.interesting and not (v[0] != "fn" and self.any_sym(v)):
                continue
            nb = self.P.bodies[v[1]]
            outs2 = []
            for (pv, s2) in out:
                if not transparent:
                    outs2.append((pv, s2.copy()))
                if v[0] == "cor":
                    args = [self.export(s2, x) for x in v[2]]
                elif v[0] == "clo":
                    args = [("clo", v[1], tuple(self.export(s2, x) for x in v[2]))] + [None] * (nb.argc - 1)
                else:
                    args = [None] * nb.argc
                for rv, facts, know in self.run(v[1], args, s2, stack + [(body, t.line)]):
                    s3 = s2.copy()
                    s3.facts, s3.know = facts, dict(know)
                    outs2.append((rv if transparent else None, s3))
            out = outs2
        self.mutargs(out, t, vals)
        return out

    def mutargs(self, out, t, vals):
        """places whose reference is handed to a callee may have changed (only plain data is forgotten)"""
        for v, s in out:
            for a in vals:
                if a is not None and a[0] == "r":
                    w = self.get(s, a[1])
                    if w is not None and w[0] in ("c", "e") and getattr(t, "k", "") == "call":
                        # a shared reference cannot change plain data; the borrow kind is kept per call site
                        if self.is_mut_arg(t, a, vals):
                            self.kill(s, a[1])

    def is_mut_arg(self, t, a, vals):
        i = vals.index(a)
        op = t.args[i]
        if op.is_place:
            ty = self.cur_local_ty(op.place)
            return ty is None or ty.startswith("&mut") or re.match(r"^&'[a-z_0-9]+ mut", ty) is not None
        return False

    def cur_local_ty(self, place):
        bid = self.active[-1][0] if self.active else None
        if bid is None or place.p:
            return None
        return self.P.bodies[bid].locals[place.l]

    def should_inline(self, bid, vals, s):
        if bid in self.spec.interesting:
            return True
        b = self.P.bodies[bid]
        if len(b.bbs) <= 40:
            for v in vals:
                v = self.deref(s, v) if v is not None else None
                if self.any_sym(v):
                    return True
        if len(b.bbs) <= 12 and any(b.locals[0] == x for x in ("bool",)):
            return False
        return False

    def any_y(self, v):
        if v is None:
            return False
        if v[0] == "y":
            return True
        if v[0] in ("d", "not"):
            return self.any_y(v[1])
        if v[0] == "eq":
            return self.any_y(v[1]) or self.any_y(v[2])
        if v[0] in ("e", "cor", "clo"):
            return any(self.any_y(x) for x in (v[3] if v[0] == "e" else v[2]))
        return False

    def any_sym(self, v):
        if v is None:
            return False
        if v[0] == "y":
            return True
        if v[0] == "e":
            return any(self.any_sym(x) for x in v[3])
        if v[0] in ("cor", "clo"):
            return v[1] in self.spec.interesting or any(self.any_sym(x) for x in v[2])
        return False

    def inline(self, s, x, vals, body, i, t, stack):
        out = []
        args = [self.export(s, v) if v is not None and v[0] in ("r", "e", "cor", "clo") else v for v in vals]
        for rv, facts, know in self.run(x, args, s, stack + [(body, t.line)]):
            s2 = s.copy()
            s2.facts, s2.know = facts, dict(know)
            out.append((rv, s2))
        return out

    def call_value(self, s, fv, args, body, i, t, stack):
        """call a closure / fn value"""
        fv = self.deref(s, fv) if fv is not None else None
        if fv is not None and fv[0] == "clo" and fv[1] in self.P.bodies:
            if fv[1] in self.spec.interesting or len(self.P.bodies[fv[1]].bbs) <= 40:
                out = []
                exp = ("clo", fv[1], tuple(self.export(s, x) for x in fv[2]))
                for rv, facts, know in self.run(fv[1], [exp] + [self.export(s, a) for a in args], s, stack + [(body, t.line)]):
                    s2 = s.copy()
                    s2.facts, s2.know = facts, dict(know)
                    out.append((rv, s2))
                return out
        if fv is not None and fv[0] == "fn" and fv[1] in self.P.bodies and fv[1] in self.spec.interesting:
            out = []
            for rv, facts, know in self.run(fv[1], [self.export(s, a) for a in args], s, stack + [(body, t.line)]):
                s2 = s.copy()
                s2.facts, s2.know = facts, dict(know)
                out.append((rv, s2))
            return out
        return [(None, s)]

    def model(self, s, name, f, vals, t, body, i, stack):
        """library functions that carry enum/bool values around"""
        if f is None:
            return None
        n = f.name
        short = n.rsplit("::", 1)[-1]
        if n.endswith("Try>::branch") or name.endswith("Try>::branch"):
            adt = RES if "result::Result" in name else OPT if "option::Option" in name else None
            if adt is None:
                return None
            good, bad = ("Ok", "Err") if adt == RES else ("Some", "None")
            out = []
            for var, s2 in self.split_variant(s, vals[0], adt):
                v = self.deref(s2, vals[0])
                if var == good:
                    out.append((E(CF, "Continue", self.project(v, (("v", good), 0)) if v is not None and v[0] in ("e", "y") else None), s2))
                else:
                    pay = self.project(v, (("v", bad), 0)) if v is not None and v[0] in ("e", "y") and adt == RES else None
                    out.append((E(CF, "Break", E(adt, bad, pay) if adt == RES else E(adt, bad)), s2))
            return out
        if "from_residual" in short:
            if "result::Result" in name:
                return [(E(RES, "Err", None), s)]
            if "option::Option" in name:
                return [(E(OPT, "None"), s)]
            return None
        if n.endswith("IntoFuture::into_future") or name.endswith("IntoFuture>::into_future"):
            return [(vals[0], s)]
        if n.startswith("core::pin::Pin::") and short in ("new_unchecked", "new", "as_mut"):
            return [(vals[0], s)]
        if n.startswith("alloc::boxed::Box::") and short in ("pin", "new"):
            v = vals[0]
            if v is not None and v[0] in ("cor", "clo", "fn", "y"):
                return [(v, s)]
            return None
        if n.endswith("Future::poll") or n.endswith("Future>::poll"):
            v = self.deref(s, vals[0]) if vals and vals[0] is not None else None
            if v is not None and v[0] == "cor" and v[1] in self.P.bodies and (v[1] in self.spec.interesting or self.any_sym(v)):
                out = []
                exp = [self.export(s, x) for x in v[2]]
                for rv, facts, know in self.run(v[1], exp, s, stack + [(body, t.line)]):
                    s2 = s.copy()
                    s2.facts, s2.know = facts, dict(know)
                    out.append((E(POLL, "Ready", rv), s2))
                return out
            if v is not None and v[0] == "y":
                return [(E(POLL, "Ready", v), s)]
            tg = [x for x in self.P.targets(body, t) if x in self.spec.interesting]
            if tg:
                return None
            return [(E(POLL, "Ready", None), s)]
        if short in ("is_ok", "is_err", "is_some", "is_none") and (n.startswith(RES) or n.startswith(OPT)):
            adt = RES if n.startswith(RES) else OPT
            want = {"is_ok": "Ok", "is_err": "Err", "is_some": "Some", "is_none": "None"}[short]
            return [(C(var == want), s2) for var, s2 in self.split_variant(s, vals[0], adt)]
        if n.startswith(RES) or n.startswith(OPT):
            adt = RES if n.startswith(RES) else OPT
            good, bad = ("Ok", "Err") if adt == RES else ("Some", "None")
            v0 = self.deref(s, vals[0]) if vals and vals[0] is not None else None
            if short in ("as_ref", "as_mut", "as_deref", "as_deref_mut", "cloned", "copied", "inspect_err", "inspect"):
                return [(vals[0] if v0 is None or v0[0] == "u" else v0, s)]
            if short in ("ok", "map_err", "unwrap", "expect", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "map", "and_then", "or", "or_else", "ok_or", "ok_or_else", "err", "map_or", "map_or_else", "is_some_and", "is_ok_and", "is_none_or", "filter", "context", "with_context"):
                tracked = v0 is not None and v0[0] in ("y", "e")
                clo = any(self.is_evclo(s, x) for x in vals[1:])
                if not tracked and not clo:
                    if short == "map_err" or short in ("ok", "ok_or", "ok_or_else"):
                        pass
                    else:
                        return None
                out = []
                for var, s2 in self.split_variant(s, vals[0], adt):
                    v = self.deref(s2, vals[0])
                    pay = None
                    if v is not None and v[0] in ("e", "y"):
                        pay = self.project(v, (("v", var), 0))
                    g = var == good
                    if short in ("ok",):
                        out.append((E(OPT, "Some", pay) if g else E(OPT, "None"), s2))
                    elif short == "err":
                        out.append((E(OPT, "None") if g else E(OPT, "Some", pay), s2))
                    elif short in ("map_err", "context", "with_context"):
                        if g:
                            out.append((E(RES, "Ok", pay), s2))
                        else:
                            for rv, s3 in (self.call_value(s2, vals[1], [pay], body, i, t, stack) if len(vals) > 1 and short == "map_err" else [(None, s2)]):
                                out.append((E(RES, "Err", rv), s3))
                    elif short in ("ok_or", "ok_or_else"):
                        out.append((E(RES, "Ok", pay), s2) if g else (E(RES, "Err", None), s2))
                    elif short in ("unwrap", "expect"):
                        if g:
                            out.append((pay, s2))
                    elif short == "unwrap_or":
                        out.append((pay if g else vals[1], s2))
                    elif short == "unwrap_or_default":
                        d = None
                        if not g:
                            ty = f.substs[0] if f.substs else ""
                            d = C(False) if ty == "bool" else C(0) if re.match(r"^[iu](8|16|32|64|size)$", ty) else None
                        out.append((pay if g else d, s2))
                    elif short == "unwrap_or_else":
                        if g:
                            out.append((pay, s2))
                        else:
                            out += self.call_value(s2, vals[1], [pay] if adt == RES else [], body, i, t, stack)
                    elif short == "map":
                        if g:
                            for rv, s3 in self.call_value(s2, vals[1], [pay], body, i, t, stack):
                                out.append((E(adt, good, rv), s3))
                        else:
                            out.append((E(adt, bad, *([None] if adt == RES else [])), s2))
                    elif short == "and_then":
                        if g:
                            out += self.call_value(s2, vals[1], [pay], body, i, t, stack)
                        else:
                            out.append((E(adt, bad, *([None] if adt == RES else [])), s2))
                    elif short == "filter":
                        if g:
                            for rv, s3 in self.call_value(s2, vals[1], [pay], body, i, t, stack):
                                for b, s4 in self.split_bool(s3, rv):
                                    out.append((E(adt, good, pay) if b else E(adt, bad), s4))
                        else:
                            out.append((E(adt, bad), s2))
                    elif short in ("or", "or_else"):
                        if g:
                            out.append((E(adt, good, pay), s2))
                        elif short == "or":
                            out.append((vals[1], s2))
                        else:
                            out += self.call_value(s2, vals[1], [pay] if adt == RES else [], body, i, t, stack)
                    elif short in ("is_some_and", "is_ok_and"):
                        if g:
                            out += self.call_value(s2, vals[1], [pay], body, i, t, stack)
                        else:
                            out.append((C(False), s2))
                    elif short == "is_none_or":
                        if g:
                            out += self.call_value(s2, vals[1], [pay], body, i, t, stack)
                        else:
                            out.append((C(True), s2))
                    elif short == "map_or":
                        if g:
                            out += self.call_value(s2, vals[2], [pay], body, i, t, stack)
                        else:
                            out.append((vals[1], s2))
                    elif short == "map_or_else":
                        if g:
                            out += self.call_value(s2, vals[2], [pay], body, i, t, stack)
                        else:
                            out += self.call_value(s2, vals[1], [pay] if adt == RES else [], body, i, t, stack)
                return out
        if (n.startswith("anyhow::Context") or "anyhow::Context" in name) and short in ("context", "with_context"):
            adt = RES if "result::Result" in name else OPT
            out = []
            for var, s2 in self.split_variant(s, vals[0], adt):
                v = self.deref(s2, vals[0])
                pay = self.project(v, (("v", var), 0)) if v is not None and v[0] in ("e", "y") else None
                out.append((E(RES, "Ok", pay), s2) if var in ("Ok", "Some") else (E(RES, "Err", None), s2))
            return out
        if short in ("eq", "ne") and ("PartialEq" in n):
            a = self.deref(s, vals[0]) if vals[0] is not None else None
            b = self.deref(s, vals[1]) if vals[1] is not None else None
            if a is not None and b is not None and (a[0] in ("y", "e") or b[0] in ("y", "e")):
                if a[0] == "c" and b[0] == "c":
                    return [(C((a[1] == b[1]) == (short == "eq")), s)]
                return [(C(bv == (short == "eq")), s2) for bv, s2 in self.split_bool(s, ("eq", a, b))]
            if a is not None and b is not None and a[0] == "c" and b[0] == "c":
                return [(C((a[1] == b[1]) == (short == "eq")), s)]
            return None
        if short in ("clone", "to_owned", "deref", "deref_mut", "borrow", "as_ref") and vals:
            v = self.deref(s, vals[0]) if vals[0] is not None else None
            if v is not None and v[0] in ("y", "cor", "clo", "c"):
                return [(v, s)]
            if v is not None and v[0] == "e" and short == "clone":
                return [(v, s)]
            return None
        if re.search(r"bool(>)?::(then_some|then)$", name) and len(vals) == 2:
            out = []
            for bv, s2 in (self.split_bool(s, vals[0]) if vals[0] is not None else [(True, s.copy()), (False, s)]):
                if not bv:
                    out.append((E(OPT, "None"), s2))
                elif short == "then_some":
                    out.append((E(OPT, "Some", vals[1]), s2))
                else:
                    out += [(E(OPT, "Some", rv), s3) for rv, s3 in self.call_value(s2, vals[1], [], body, i, t, stack)]
            return out
        if n == "core::hint::must_use" or n.endswith("hint::black_box"):
            return [(vals[0], s)]
        if n.endswith("FnOnce::call_once") or n.endswith("FnMut::call_mut") or n.endswith("Fn::call"):
            v = self.deref(s, vals[0]) if vals[0] is not None else None
            if v is not None and v[0] in ("clo", "fn"):
                args = []
                if len(vals) > 1 and vals[1] is not None and vals[1][0] == "e":
                    args = list(vals[1][3])
                elif v[0] == "clo":
                    args = [None] * (self.P.bodies[v[1]].argc - 1) if v[1] in self.P.bodies else []
                return self.call_value(s, v, args, body, i, t, stack)
            return None
        return None

    def is_evclo(self, s, x):
        x = self.deref(s, x) if x is not None else None
        return x is not None and x[0] in ("clo", "fn") and x[1] in self.spec.interesting
