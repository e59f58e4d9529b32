"""Backward value-provenance: which sources can a value come from?

Flow-sensitive inside a body (reaching definitions by backward CFG search), field-sensitive on
aggregates, interprocedural through workspace calls, closure captures and async bodies.
"""
import re
from collections import defaultdict
from .ir import rv_ops, Place, strip_lt


class Policy:
    """Decides how the walk proceeds.  call(): 'leaf' (stop: the call is the origin), 'stop' (sanitised:
    nothing flows), 'args' (all arguments), a list of argument indexes, or 'into' (callee's return)."""
    through_params = True       # continue from a parameter to the callers' arguments
    through_fields = False      # continue from a field read to all writes of the field
    max_nodes = 40000

    def call(self, body, bb, term):
        return None

    def field(self, owner, name):
        return self.through_fields

    def cut(self, body, l, path):
        """do not follow this place"""
        return False


CONV = re.compile(r"::(box_assume_init_into_vec_unsafe|clone|to_owned|to_string|deref|deref_mut|as_str|as_ref|as_mut|as_path|as_bytes|borrow|into|from|into_iter|iter|iter_mut|next|must_use|trim|trim_start|trim_end|to_vec|as_slice|unwrap|expect|unwrap_or|unwrap_or_default|unwrap_or_else|ok|map_err|branch|from_residual|as_deref|cloned|copied|collect|into_owned|to_path_buf|as_os_str|to_string_lossy|into_string|display|into_future|new_unchecked|poll|get_context|context|with_context|ok_or_else|ok_or|filter|or_else|or|rev|enumerate|peekable|skip|take|chain|lines|split|as_mut_str|into_boxed_str|index|get|first|last|to_lowercase|to_uppercase|to_ascii_lowercase|join|concat|format|new_display|new_debug|new|pin)$")


NEWBOX = re.compile(r"Box<.*>::new_uninit$|boxed::.*new_uninit\w*$|exchange_malloc$")


class Flow:
    def __init__(self, P):
        self.P = P
        self._defs = {}
        self._closure_sites = None
        self._field_writes = None
        self._muts = {}

    # definitions of each local in a body: local -> [(bb, idx, kind, obj)]
    def defs(self, body):
        d = self._defs.get(body.id)
        if d is None:
            d = defaultdict(list)
            refs = {}     # temp local -> base local (for &mut base)
            for i in sorted(body.reachable):
                for j, s in enumerate(body.bbs[i].stmts):
                    if s.k == "=" and s.rv[0] in ("ref", "raw") and s.rv[2] and not s.place.p:
                        refs[s.place.l] = s.rv[1]
                    elif s.k == "=" and s.rv[0] == "cast" and s.rv[3] == "BoxDerefTransmute" and s.rv[1].is_place and not s.place.p:
                        # the pointer inside a box: writing through it fills the box
                        refs[s.place.l] = Place(s.rv[1].place.l)
            # derived &mut (reborrows): _b = &mut *_a ; deref_mut(_a)
            for i in sorted(body.reachable):
                t = body.bbs[i].term
                if t.k == "call" and t.op.fn and t.op.fn.name.rsplit("::", 1)[-1] in ("deref_mut", "as_mut", "as_mut_slice", "by_ref") and t.args and t.args[0].is_place and not t.dest.p:
                    refs.setdefault(t.dest.l, t.args[0].place)
            self._muts[body.id] = refs

            def base(pl, n=0):
                while pl.l in refs and n < 8:
                    b = refs[pl.l]
                    if b.l == pl.l:
                        break
                    pl = Place(b.l, b.p + tuple(e for e in pl.p if e != "*"))
                    n += 1
                return pl
            for i in sorted(body.reachable):
                bb = body.bbs[i]
                for j, s in enumerate(bb.stmts):
                    if s.k == "=":
                        if s.place.p and s.place.p[0] == "*" and s.place.l in refs:
                            b = base(s.place)
                            d[b.l].append((i, j, "set", (Place(b.l, tuple(e for e in b.p)), s.rv)))
                        else:
                            d[s.place.l].append((i, j, "set", (s.place, s.rv)))
                t = bb.term
                if t.k == "call":
                    d[t.dest.l].append((i, len(bb.stmts), "call", t))
                    for a in t.args:
                        if a.is_place and not a.place.p and a.place.l in refs:
                            b = base(a.place)
                            if b.l != t.dest.l:
                                d[b.l].append((i, len(bb.stmts), "mut", (b, t, a)))
                elif t.k == "yield":
                    d[t.place.l].append((i, len(bb.stmts), "yield", None))
            self._defs[body.id] = d
        return d

    def reaching(self, body, local, bb, idx):
        """definitions of local that may reach position (bb, idx) (before statement idx)"""
        ds = self.defs(body).get(local)
        if not ds:
            return [], True
        if len(ds) == 1 and not (ds[0][2] == "set" and ds[0][3][0].p):
            return ds, local <= body.argc and local > 0
        byb = defaultdict(list)
        for d in ds:
            byb[d[0]].append(d)
        out, seen = [], set()
        entry = False
        st = [(bb, idx, True)]
        while st:
            b, i, first = st.pop()
            cand = sorted([d for d in byb.get(b, ()) if d[1] < i], key=lambda d: -d[1])
            killed = False
            for d in cand:
                if d not in out:
                    out.append(d)
                full = (d[2] == "call" and not d[3].dest.p) or (d[2] == "set" and not d[3][0].p) or d[2] == "yield"
                if full:
                    killed = True
                    break
            if killed:
                continue
            if b == 0:
                entry = True
            for p in body.preds.get(b, ()):
                if p not in seen:
                    seen.add(p)
                    st.append((p, 1 << 30, False))
        return out, entry

    @property
    def closure_sites(self):
        """closure/coroutine id -> [(body, bb, idx, ops, dest local)]"""
        if self._closure_sites is None:
            c = defaultdict(list)
            for b in self.P.bodies.values():
                for i in b.reachable:
                    for j, s in enumerate(b.bbs[i].stmts):
                        if s.k == "=" and s.rv[0] == "agg" and s.rv[1][0] in ("clo", "cor"):
                            c[s.rv[1][1][1]].append((b, i, j, s.rv[2], s.place))
            self._closure_sites = c
        return self._closure_sites

    @property
    def field_writes(self):
        """(adt, field) -> [(body, bb, idx, op or place)]"""
        if self._field_writes is None:
            w = defaultdict(list)
            for b in self.P.bodies.values():
                for i in b.reachable:
                    for j, s in enumerate(b.bbs[i].stmts):
                        if s.k != "=":
                            continue
                        if s.rv[0] == "agg" and s.rv[1][0] == "adt":
                            for fn, o in zip(s.rv[1][4], s.rv[2]):
                                w[(s.rv[1][1], fn)].append((b, i, j, o))
                        if s.place.p:
                            last = None
                            for e in s.place.p:
                                if e != "*" and e[0] == "f":
                                    last = e
                            if last is not None:
                                for o in rv_ops(s.rv):
                                    w[(last[3], last[2])].append((b, i, j, o))
                                if s.rv[0] in ("ref",):
                                    w[(last[3], last[2])].append((b, i, j, s.rv[1]))
                    t = b.bbs[i].term
                    if t.k == "call" and t.dest.p:
                        last = None
                        for e in t.dest.p:
                            if e != "*" and e[0] == "f":
                                last = e
                        if last is not None:
                            w[(last[3], last[2])].append((b, i, 1 << 30, t))
            self._field_writes = w
        return self._field_writes

    # ---- the walk
    def origins(self, body, what, bb, idx, policy):
        """leaves: ('const', value, body, line) ('call', name, body, term) ('param', body, n) ('field', owner, name, body)
        ('static', name) ('unknown', text)"""
        leaves = []
        seen = set()
        work = []

        def leaf(x):
            leaves.append(x)

        def push_op(b, op, i, j):
            if op.is_place:
                work.append((b, op.place.l, op.place.p, i, j))
            elif op.k == "fn":
                leaf(("fn", op.fn.full, b))
            elif op.promoted:
                pb = self.P.promoted_body(op)
                if pb is not None:
                    last = max(pb.reachable)
                    work.append((pb, 0, (), last, 1 << 30))
                else:
                    leaf(("unknown", "promoted", b))
            elif op.s is not None or op.val is not None or op.b is not None or op.ch is not None:
                leaf(("const", op.s if op.s is not None else op.ch if op.ch is not None else op.b if op.b is not None else op.val, b, op.ty))
            elif op.named:
                cb = self.P.bodies.get(op.named[1])
                if cb is not None:
                    work.append((cb, 0, (), max(cb.reachable), 1 << 30))
                else:
                    leaf(("named", op.named[0], b))
            elif op.static:
                leaf(("static", op.static[0], b))
            else:
                leaf(("const", None, b, op.ty))
        if isinstance(what, Place):
            work.append((body, what.l, what.p, bb, idx))
        else:
            push_op(body, what, bb, idx)
        n = 0
        while work:
            b, l, path, i, j = work.pop()
            path = tuple(e for e in path if e != "*")
            k = (b.id, l, path, i, j)
            if k in seen:
                continue
            seen.add(k)
            n += 1
            if policy.cut(b, l, path):
                continue
            if n > policy.max_nodes:
                leaf(("unknown", "budget", b))
                break
            # a field of a workspace struct reached through a reference/param
            owners = [e for e in path if e[0] == "f" and e[3] and not e[3].startswith("^") and e[3] in self.P.adts and self.P.adts[e[3]]["ws"]]
            ds, entry = self.reaching(b, l, i, j)
            hit = False
            for (di, dj, kind, obj) in ds:
                if kind == "set":
                    dp, rv = obj
                    dpp = tuple(e for e in dp.p if e != "*")
                    m = min(len(dpp), len(path))
                    if self.samepath(dpp[:m], path[:m]):
                        hit = True
                        rest = path[len(dpp):]
                        self.step_rv(b, rv, rest, di, dj, work, leaf, push_op, policy)
                elif kind == "call":
                    t = obj
                    hit = True
                    self.step_call(b, di, t, path, work, leaf, push_op, policy)
                elif kind == "mut":
                    mb, t, a = obj
                    mpp = tuple(e for e in mb.p if e != "*")
                    m = min(len(mpp), len(path))
                    if self.samepath(mpp[:m], path[:m]):
                        r = policy.call(b, di, t)
                        if r == "stop":
                            continue
                        if r == "leaf":
                            leaf(("call", t.op.fn.full if t.op.fn else "?", b, t))
                            continue
                        tg = [x for x in self.P.targets(b, t) if x in self.P.bodies]
                        if r is None and tg:
                            # the callee may write its argument
                            ai = t.args.index(a)
                            leaf(("mutcall", t.op.fn.full if t.op.fn else "?", b, t))
                        for q in t.args:
                            if q is not a:
                                push_op(b, q, di, dj)
            if entry or (not hit and not ds):
                if b.kind == "coroutine" and l == 1 or (b.kind == "closure" and l == 1):
                    # captured variable
                    up = next((e for e in path if e[0] == "f"), None)
                    if up is None:
                        leaf(("unknown", "closure self", b))
                        continue
                    rest = path[path.index(up) + 1:]
                    sites = self.closure_sites.get(b.id, [])
                    for (pb, pi, pj, ops, dest) in sites:
                        if up[1] < len(ops):
                            o = ops[up[1]]
                            if o.is_place:
                                work.append((pb, o.place.l, o.place.p + rest, pi, pj))
                            else:
                                push_op(pb, o, pi, pj)
                    continue
                if owners and not policy.field(owners[-1][3], owners[-1][2]):
                    leaf(("field", owners[-1][3], owners[-1][2], b))
                    continue
                if owners and policy.field(owners[-1][3], owners[-1][2]):
                    e = owners[-1]
                    rest = path[path.index(e) + 1:]
                    for (wb, wi, wj, o) in self.field_writes.get((e[3], e[2]), []):
                        if hasattr(o, "op"):
                            self.step_call(wb, wi, o, rest, work, leaf, push_op, policy)
                        elif isinstance(o, Place):
                            work.append((wb, o.l, o.p + rest, wi, wj))
                        elif o.is_place:
                            work.append((wb, o.place.l, o.place.p + rest, wi, wj))
                        else:
                            push_op(wb, o, wi, wj)
                    continue
                if l == 0 or l > b.argc or l == 0:
                    if l > b.argc:
                        leaf(("unknown", "uninit", b))
                    continue
                self.step_param(b, l, path, work, leaf, push_op, policy)
        return leaves

    @staticmethod
    def samepath(a, b):
        for x, y in zip(a, b):
            if x[0] == "f" and y[0] == "f":
                if x[1] != y[1]:
                    return False
            elif x[0] == "v" and y[0] == "v":
                if x[2] != y[2]:
                    return False
        return True

    def step_rv(self, b, rv, rest, i, j, work, leaf, push_op, policy):
        k = rv[0]
        if k in ("use", "cast", "rep"):
            o = rv[1]
            if o.is_place:
                work.append((b, o.place.l, o.place.p + rest, i, j))
            else:
                push_op(b, o, i, j)
        elif k in ("ref", "raw"):
            work.append((b, rv[1].l, rv[1].p + rest, i, j))
        elif k == "bin":
            if policy_bin(policy):
                push_op(b, rv[2], i, j)
                push_op(b, rv[3], i, j)
        elif k == "un":
            push_op(b, rv[2], i, j)
        elif k == "agg":
            a = rv[1]
            r = [e for e in rest if e[0] != "v"] if rest and rest[0][0] == "v" else list(rest)
            if rest and rest[0][0] == "v" and a[0] == "adt" and rest[0][2] != a[2]:
                return
            if a[0] in ("adt", "tup", "clo", "cor") and r and r[0][0] == "f":
                x = r[0][1]
                if x < len(rv[2]):
                    o = rv[2][x]
                    if o.is_place:
                        work.append((b, o.place.l, o.place.p + tuple(r[1:]), i, j))
                    else:
                        push_op(b, o, i, j)
                return
            if a[0] == "cor":
                cb = self.P.bodies.get(a[1][1])
                if cb is not None:
                    self.push_return(cb, (), work)
                return
            if a[0] == "clo":
                leaf(("closure", a[1][1], b))
                return
            if a[0] == "adt" and not rv[2]:
                leaf(("variant", a[1], a[2], b))
            for o in rv[2]:
                push_op(b, o, i, j)
        elif k == "disc":
            pass
        elif k == "tls":
            leaf(("static", rv[1][0], b))

    def push_return(self, cb, rest, work):
        for r in cb.reachable:
            if cb.bbs[r].term.k == "ret":
                work.append((cb, 0, rest, r, 1 << 30))

    def step_call(self, b, i, t, path, work, leaf, push_op, policy):
        r = policy.call(b, i, t)
        name = t.op.fn.full if t.op.fn else "?"
        J = len(b.bbs[i].stmts)
        if not t.args and NEWBOX.search(name):
            return
        if r == "stop":
            return
        if r == "leaf":
            leaf(("call", name, b, t))
            return
        if isinstance(r, list):
            for x in r:
                if x < len(t.args):
                    push_op(b, t.args[x], i, J)
            return
        if r == "clo":
            self.closure_returns(b, i, J, t, work)
            return
        tg = [x for x in self.P.targets(b, t) if x in self.P.bodies]
        if r != "args" and tg:
            for x in tg:
                cb = self.P.bodies[x]
                if cb.derived and cb.name.endswith("::clone"):
                    if t.args and t.args[0].is_place:
                        work.append((b, t.args[0].place.l, t.args[0].place.p + path, i, J))
                    continue
                self.push_return(cb, path, work)
            return
        # std / external: keep the path for transparent conversions, else any argument
        if r != "args" and not CONV.search(name) and not (t.op.fn and CONV.search(t.op.fn.name)):
            leaf(("call", name, b, t))
        for a in t.args:
            if a.is_place:
                # keep variant/field path only for payload-preserving functions
                short = name.rsplit("::", 1)[-1]
                keep = path if short in ("clone", "deref", "deref_mut", "as_ref", "as_mut", "into_future", "new_unchecked", "must_use") else ()
                work.append((b, a.place.l, a.place.p + keep, i, J))
            else:
                push_op(b, a, i, J)
        self.closure_returns(b, i, J, t, work)

    def closure_returns(self, b, i, J, t, work):
        """closures passed to std combinators contribute their return value"""
        for a in t.args:
            if a.is_place:
                for (di, dj, kind, obj) in self.reaching(b, a.place.l, i, J)[0]:
                    if kind == "set" and obj[1][0] == "agg" and obj[1][1][0] == "clo":
                        cb = self.P.bodies.get(obj[1][1][1][1])
                        if cb is not None:
                            self.push_return(cb, (), work)
            elif a.k == "fn" and a.fn.target in self.P.bodies:
                self.push_return(self.P.bodies[a.fn.target], (), work)

    def step_param(self, b, l, path, work, leaf, push_op, policy):
        if b.kind == "closure":
            # parameter of a closure: comes from whatever the combinator feeds it
            found = False
            for (pb, pi, pj, ops, dest) in self.closure_sites.get(b.id, []):
                for ci, ct in pb.calls:
                    for a in ct.args:
                        if a.is_place and a.place.l == dest.l and not dest.p:
                            found = True
                            for q in ct.args:
                                if q is not a:
                                    push_op(pb, q, ci, len(pb.bbs[ci].stmts))
            if not found:
                leaf(("param", b, l))
            return
        if not policy.through_params:
            leaf(("param", b, l))
            return
        cs = [c for c in self.P.callers.get(b.id, []) if c[1] == "call"]
        # async fn wrapper: param captured in coroutine is already followed through closure_sites
        if not cs:
            leaf(("param", b, l))
            return
        for (cid, k, ci, ct) in cs:
            cb = self.P.bodies[cid]
            if l - 1 < len(ct.args):
                a = ct.args[l - 1]
                if a.is_place:
                    work.append((cb, a.place.l, a.place.p + path, ci, len(cb.bbs[ci].stmts)))
                else:
                    push_op(cb, a, ci, len(cb.bbs[ci].stmts))
        if any(c[1] == "fnref" or c[1] == "const" for c in self.P.callers.get(b.id, [])):
            leaf(("param", b, l))


def policy_bin(p):
    return getattr(p, "through_bin", True)


def decode_template(bs):
    """decode the byte template of fmt::Arguments::new: list of str pieces and None placeholders"""
    out, i = [], 0
    while i < len(bs):
        c = bs[i]
        if c == 0:
            break
        if c < 0x80:
            out.append(bs[i + 1:i + 1 + c].decode("utf-8", "replace"))
            i += 1 + c
        elif c == 0x80:
            n = bs[i + 1] | (bs[i + 2] << 8)
            out.append(bs[i + 3:i + 3 + n].decode("utf-8", "replace"))
            i += 3 + n
        else:
            i += 1
            idx = None
            if c & 1:
                i += 4
            if c & 2:
                i += 2
            if c & 4:
                i += 2
            if c & 8:
                idx = bs[i] | (bs[i + 1] << 8)
                i += 2
            out.append(("arg", idx))
    # implicit indexes
    n = 0
    res = []
    for x in out:
        if isinstance(x, tuple):
            if x[1] is None:
                res.append(("arg", n))
                n += 1
            else:
                res.append(("arg", x[1]))
                n = x[1] + 1
        else:
            res.append(x)
    return res
