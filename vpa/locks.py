"""Which locks are held where, and which a call may take: over MIR, by lock identity."""
import re
from collections import defaultdict
from .ir import strip_lt, rv_ops, body_ty, Place

GUARD = re.compile(r"^(?:lock_api::rwlock::(?:Mapped)?RwLock(Read|Write|UpgradableRead)Guard|lock_api::mutex::(?:Mapped)?(Mutex)Guard|lock_api::remutex::\w+|std::sync::poison::rwlock::(?:Mapped)?RwLock(Read|Write)Guard|std::sync::poison::mutex::(?:Mapped)?(Mutex)Guard|core::cell::(Ref|RefMut))<(.*)>$")
TAKE = re.compile(r"^(lock_api::rwlock::RwLock::<R, T>::(read|write|upgradable_read|read_recursive)|lock_api::mutex::Mutex::<R, T>::lock|std::sync::poison::rwlock::RwLock::<T>::(read|write)|std::sync::poison::mutex::Mutex::<T>::lock|core::cell::RefCell::<T>::(borrow|borrow_mut))$")
SPAWN = re.compile(r"(^|::|>::)(spawn|spawn_blocking|spawn_local|spawn_scoped|spawn_unchecked)$")
THROUGH = re.compile(r"(^|::|>::)(unwrap|expect|unwrap_or_else|ok|map_err|into_inner|branch|and_then|map)$")


def last_arg(s):
    """the last generic argument"""
    d, parts, cur = 0, [], ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]" and not cur.endswith("-"):
            d -= 1
        if ch == "," and d == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += ch
    parts.append(cur)
    return parts[-1].strip()


def guard(ty):
    """(mode, guarded type) of a guard type"""
    m = GUARD.match(strip_lt(ty).strip())
    if not m:
        return None
    kind = next(g for g in m.groups()[:5] if g)
    mode = {"Read": "r", "Write": "w", "UpgradableRead": "r", "Mutex": "w", "Ref": "r", "RefMut": "w"}[kind]
    return mode, last_arg(m.group(6)), "cell" if kind in ("Ref", "RefMut") else "lock"


class Locks:
    def __init__(self, P):
        self.P = P
        self.acq = {}           # body id -> {(lock, mode, kind): (bb, term, via)}
        self._direct = {}
        self._build()

    # ---- identity
    def ident(self, b, t):
        """the lock a call takes: (type, field it lives in), mode, kind"""
        dty = body_ty(b, t.dest) or ""
        g = None
        for part in [dty]:
            g = guard(part)
        if g is None:
            m = re.search(r"(lock_api|std::sync::poison|core::cell)::[\w:]*(?:Guard|Ref|RefMut)<.*", strip_lt(dty))
            if m:
                s = m.group(0)
                # cut at the closing bracket
                d = 0
                for i, ch in enumerate(s):
                    if ch == "<":
                        d += 1
                    elif ch == ">" and s[i - 1] != "-":
                        d -= 1
                        if d == 0:
                            g = guard(s[:i + 1])
                            break
        if g is None:
            return None
        mode, ty, kind = g
        return (ty, self.field(b, t.args[0]) if not self.own(ty) else None), mode, kind

    def known(self, lock):
        """a lock that can be told from others: of a type of the workspace, or in a field or static known by name"""
        return self.own(lock[0]) or lock[1] is not None

    def own(self, ty):
        return ty in self.P.adts and self.P.adts[ty]["ws"]

    def field(self, b, op, depth=0):
        """the field of a workspace structure (or static) a lock is reached through"""
        if not op.is_place:
            if op.static:
                return op.static[0]
            if op.named:
                return op.named[0]
            return None
        p = op.place
        for e in reversed(p.p):
            if e != "*" and e[0] == "f" and e[3] in self.P.adts and self.P.adts[e[3]]["ws"]:
                return "%s.%s" % (e[3], e[2])
        if depth > 8:
            return None
        r = set()
        for i in b.reachable:
            bb = b.bbs[i]
            for s in bb.stmts:
                if s.k == "=" and s.place.l == p.l and not s.place.p:
                    if s.rv[0] in ("ref", "raw"):
                        for e in reversed(s.rv[1].p):
                            if e != "*" and e[0] == "f" and e[3] in self.P.adts and self.P.adts[e[3]]["ws"]:
                                r.add("%s.%s" % (e[3], e[2]))
                                break
                        else:
                            o = type(op)()
                            o.k, o.place = "p", Place(s.rv[1].l)
                            r.add(self.field(b, o, depth + 1))
                    elif s.rv[0] in ("use", "cast"):
                        r.add(self.field(b, s.rv[1], depth + 1))
            t = bb.term
            if t.k == "call" and t.dest.l == p.l and not t.dest.p and t.args:
                r.add(self.field(b, t.args[0], depth + 1))
        r.discard(None)
        return r.pop() if len(r) == 1 else None

    # ---- held
    def held(self, b):
        """for each block, the guards that may be held when its terminator runs: {local: (ident, mode, kind)}"""
        gl = {}
        for l, ty in enumerate(b.locals):
            g = guard(ty)
            if g:
                gl[l] = g
        if not gl:
            return {}
        idents = {}
        for i in b.reachable:
            t = b.bbs[i].term
            if t.k == "call" and not t.dest.p and t.op.fn is not None and TAKE.match(t.op.fn.full):
                x = self.ident(b, t)
                if x:
                    idents[t.dest.l] = x
        ins = {0: {l: ((g[1], None), g[0], g[2]) for l, g in gl.items() if 1 <= l <= b.argc}}
        work = [0]
        out_at = {}
        while work:
            i = work.pop()
            cur = dict(ins[i])
            bb = b.bbs[i]

            def moved(op, cur=cur):
                if op.k == "m" and op.place is not None and not op.place.p:
                    return cur.pop(op.place.l, None)
                return None
            for s in bb.stmts:
                if s.k == "=":
                    v = None
                    for o in rv_ops(s.rv):
                        x = moved(o)
                        v = v or x
                    if not s.place.p and s.place.l in gl:
                        mode, ty, kind = gl[s.place.l]
                        cur[s.place.l] = v or ((ty, None), mode, kind)
                elif s.k == "sd" or s.k == "dead":
                    pass
            t = bb.term
            at = dict(cur)
            if t.k == "call":
                v = None
                for a in t.args:
                    x = moved(a, cur)
                    v = v or x
                out_at[i] = {k: w for k, w in at.items() if k in cur}
                if not t.dest.p and t.dest.l in gl:
                    mode, ty, kind = gl[t.dest.l]
                    cur[t.dest.l] = idents.get(t.dest.l) or v or ((ty, None), mode, kind)
            elif t.k == "drop":
                if not t.place.p:
                    cur.pop(t.place.l, None)
                out_at[i] = {k: w for k, w in at.items() if k in cur}
            else:
                out_at[i] = at
            for j in t.succ():
                if j not in ins:
                    ins[j] = dict(cur)
                    work.append(j)
                else:
                    n = {k: w for k, w in cur.items() if k not in ins[j]}
                    if n:
                        ins[j].update(n)
                        work.append(j)
        return out_at

    # ---- what a body may take
    def spawned(self, b):
        """locals handed to another thread or task in this body"""
        r = set()
        for i, t in b.calls:
            if t.op.fn is not None and SPAWN.search(t.op.fn.full):
                for a in t.args:
                    if a.is_place:
                        r.add(a.place.l)
        ch = bool(r)
        while ch:
            ch = False
            for i in b.reachable:
                for s in b.bbs[i].stmts:
                    if s.k == "=" and s.place.l in r and not s.place.p and s.rv[0] in ("use", "cast", "agg"):
                        for o in rv_ops(s.rv):
                            if o.is_place and o.place.l not in r:
                                r.add(o.place.l)
                                ch = True
        return r

    def steps(self, bid):
        """what runs synchronously in a body: (callee id, bb, term)"""
        b = self.P.bodies[bid]
        out = []
        sp = self.spawned(b)
        clos = {}
        for i in b.reachable:
            for s in b.bbs[i].stmts:
                if s.k == "=" and s.rv[0] == "agg" and s.rv[1][0] in ("clo", "cor") and not s.place.p:
                    clos.setdefault(s.place.l, (s.rv[1][1][1], i, s.rv[1][0]))
        moved = {}
        for l, (cid, i, k) in clos.items():
            if l in sp or cid not in self.P.bodies:
                continue
            if k == "cor":
                out.append((cid, i, None))
                continue
            # a closure counts where it is called or handed to a call
            seen, st, used = {l}, [l], False
            while st:
                x = st.pop()
                for j in b.reachable:
                    for s in b.bbs[j].stmts:
                        if s.k == "=" and not s.place.p and s.rv[0] in ("use", "ref", "cast"):
                            src = s.rv[1] if s.rv[0] == "ref" else (s.rv[1].place if s.rv[1].is_place else None)
                            if src is not None and src.l == x and not src.p and s.place.l not in seen:
                                seen.add(s.place.l)
                                st.append(s.place.l)
                    t = b.bbs[j].term
                    if t.k == "call" and any(a.is_place and a.place.l == x and not a.place.p for a in t.args):
                        used = True
                        out.append((cid, j, t))
        for i, t in b.calls:
            if not t.dest.p and t.dest.l in sp:
                continue
            if t.op.fn is not None and SPAWN.search(t.op.fn.full):
                continue
            for x in self.P.targets(b, t):
                if x in self.P.bodies:
                    out.append((x, i, t))
            for a in t.args:
                if a.k == "fn" and a.fn.target in self.P.bodies:
                    out.append((a.fn.target, i, t))
        return out

    def _build(self):
        P = self.P
        callers = defaultdict(list)
        self._steps = {}
        for bid, b in P.bodies.items():
            if b.promoted is not None:
                continue
            d = {}
            for i, t in b.calls:
                if t.op.fn is not None and TAKE.match(t.op.fn.full):
                    x = self.ident(b, t)
                    if x:
                        d.setdefault(x, (i, t, None))
            self._direct[bid] = d
            self.acq[bid] = dict(d)
            st = self.steps(bid)
            self._steps[bid] = st
            for x, i, t in st:
                callers[x].append((bid, i, t))
        work = [x for x in self.acq if self.acq[x]]
        while work:
            x = work.pop()
            for c, i, t in callers.get(x, ()):
                ch = False
                for k in list(self.acq[x]):
                    if k not in self.acq[c]:
                        self.acq[c][k] = (i, t, x)
                        ch = True
                if ch:
                    work.append(c)

    def chain(self, bid, k, limit=12):
        out = []
        while bid is not None and len(out) < limit:
            b = self.P.bodies[bid]
            i, t, nxt = self.acq[bid][k]
            out.append("%s:%s" % (b.name.replace("doge_shell::", ""), t.line if t is not None else b.line))
            bid = nxt
        return out
