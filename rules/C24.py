"""No lock is waited for by the one that holds it."""
import re
from collections import defaultdict
from rules.common import *
from vpa import locks
from vpa.ir import rv_places, body_ty, strip_lt

# there is one of each in a shell
SINGLE = re.compile(r"^doge_shell::(environment::Environment|lisp::LispEngine|shell::Shell|prompt::Prompt)$")


def root(b, op, n=12):
    """what a receiver is a reference to: a parameter, captured variable or local, with the fields taken on the way"""
    if not op.is_place:
        return None
    l, path = op.place.l, tuple(e[2] for e in op.place.p if e != "*" and e[0] == "f")
    while n:
        n -= 1
        nxt = None
        cnt = 0
        for i in b.reachable:
            for s in b.bbs[i].stmts:
                if s.k == "=" and s.place.l == l and not s.place.p:
                    cnt += 1
                    if s.rv[0] in ("ref", "raw"):
                        nxt = s.rv[1]
                    elif s.rv[0] in ("use", "cast") and s.rv[1].is_place:
                        nxt = s.rv[1].place
            t = b.bbs[i].term
            if t.k == "call" and t.dest.l == l and not t.dest.p:
                cnt += 1
                f = t.op.fn
                if f is not None and re.search(r"(::deref|::deref_mut|::as_ref|::borrow)$", f.full) and t.args and t.args[0].is_place:
                    nxt = t.args[0].place
                elif f is not None and re.search(r"::clone$", f.full) and t.args and t.args[0].is_place and re.search(r"alloc::(rc|rcs|sync)[\w:]*::(Rc|Arc)<", strip_lt(body_ty(b, t.dest) or "")):
                    nxt = t.args[0].place
        if cnt != 1 or nxt is None:
            break
        path = tuple(e[2] for e in nxt.p if e != "*" and e[0] == "f") + path
        l = nxt.l
    return l, path


def recursive(P, ty):
    """a structure that leads to others of its kind: its type does not tell which of them is locked"""
    a = P.adts.get(ty)
    if a is None or SINGLE.match(ty):
        return False
    seen, work = set(), [ty]
    while work:
        x = work.pop()
        for _, _, fs in P.adts[x]["variants"]:
            for f in fs:
                fty = strip_lt(str(f[1]))
                if ty in re.findall(r"[\w:]+", fty):
                    return True
                for y in re.findall(r"[\w:]+", fty):
                    if y in P.adts and P.adts[y]["ws"] and y not in seen and not SINGLE.match(y):
                        seen.add(y)
                        work.append(y)
    return False


def run(P, R, tier):
    R.explanation = ("For every function, the guards (RwLock, Mutex, RefCell) that may be held at each call are computed over MIR, by the structure they guard or the field the lock lives in. Under each held guard, no lock may be taken, by the call itself or by anything it runs synchronously (closures, trait implementations, function pointers, Lisp functions), that is the same lock in an excluding mode; no guard is held where a task is suspended; "
                     "and the order in which different locks are taken has no cycle in which each could wait for the other.")
    R.assumptions = ["one Environment, LispEngine, Shell and Prompt per shell", "what runs in spawned tasks and threads does not run under the guards of the spawner"]
    L = locks.Locks(P)
    rec = {}
    order = {}
    for b in sorted(P.bodies.values(), key=lambda b: str(b.id)):
        if b.promoted is not None:
            continue
        R.count("functions")
        h = L.held(b)
        if not h:
            continue
        steps = defaultdict(list)
        for x, i, t in L._steps[b.id]:
            steps[i].append((x, t))
        recv = {}
        for i, t in b.calls:
            if t.op.fn is not None and locks.TAKE.match(t.op.fn.full) and not t.dest.p:
                recv[t.dest.l] = root(b, t.args[0])
        if any(locks.guard(ty) for ty in b.locals):
            R.count("functions_with_locks")
        for i in sorted(h):
            if not h[i]:
                continue
            t = b.bbs[i].term
            if t.k == "yield":
                for l, (lock, m, k) in sorted(h[i].items()):
                    R.violation("await:%s:%s" % (short(b.name), label(lock)), where(b, t.line), "%s is held while the task waits" % label(lock))
                continue
            if t.k != "call":
                continue
            takes = []
            own = t.op.fn is not None and locks.TAKE.match(t.op.fn.full)
            if own:
                x = L.ident(b, t)
                if x:
                    takes.append((x, None))
            for x, tt in steps[i]:
                if tt is t:
                    takes += [(k, x) for k in sorted(L.acq[x], key=str)]
            R.count("calls_under_a_lock")
            for l, (lock, m, k) in sorted(h[i].items()):
                for (lock2, m2, k2), x in takes:
                    if k != k2:
                        continue
                    if lock != lock2:
                        if k == "lock" and L.known(lock) and L.known(lock2):
                            order.setdefault((lock, lock2), []).append((m, m2, b, t.line, x))
                        continue
                    if m != "w" and m2 != "w":
                        continue
                    if lock not in rec:
                        rec[lock] = recursive(P, lock[0]) or lock[1] is not None and recursive(P, lock[1].rsplit(".", 1)[0])
                    if rec[lock] or not L.known(lock):
                        # which of its kind is locked: only the same receiver in the same function is the same lock
                        if x is not None or recv.get(l) is None or root(b, t.args[0]) != recv[l]:
                            continue
                    R.violation("self:%s:%s" % (short(b.name), label(lock)), where(b, t.line),
                                "%s is taken for %s while it is held for %s%s" % (label(lock), MODE[m2], MODE[m], ": " + " > ".join(L.chain(x, (lock2, m2, k2))) if x is not None else ""))
    R.count("lock_pairs", len(order))
    R.count("locks", len({x for p in order for x in p}))
    for cyc in cycles(order):
        ws_ = [order[(cyc[i], cyc[(i + 1) % len(cyc)])] for i in range(len(cyc))]
        # what one holds must keep out what the one before it asks for
        ok = all(any(m == "w" or pm2 == "w" for (m, _, _, _, _) in ws_[i] for (_, pm2, _, _, _) in ws_[i - 1]) for i in range(len(cyc)))
        if not ok:
            continue
        names = sorted(label(x) for x in cyc)
        w = ["%s at %s" % (short(x[0][2].name), where(x[0][2], x[0][3])) for x in ws_]
        R.violation("order:" + ",".join(names), w[0], "taken in opposite orders: " + "; ".join("%s then %s in %s" % (label(cyc[i]), label(cyc[(i + 1) % len(cyc)]), w[i]) for i in range(len(cyc))))
    R.floor("functions_with_locks", 150, "functions that take locks")
    R.floor("calls_under_a_lock", 1500, "calls made under a lock")
    R.floor("lock_pairs", 15, "pairs of locks")


MODE = {"r": "reading", "w": "writing"}


def label(lock):
    ty, f = lock
    s = f or ty
    return re.sub(r"(\w+::)+", "", s)


def cycles(order):
    g = defaultdict(set)
    for a, b in order:
        g[a].add(b)
    out = []
    nodes = sorted(g, key=str)
    for s in nodes:
        stack = [(s, (s,))]
        while stack:
            x, path = stack.pop()
            for y in sorted(g.get(x, ()), key=str):
                if y == s and len(path) > 1:
                    out.append(path)
                elif y not in path and str(y) > str(s) and len(path) < 5:
                    stack.append((y, path + (y,)))
    return out
