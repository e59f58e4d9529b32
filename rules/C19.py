"""A configuration file that fails to load leaves the shell as it was."""
from rules.common import *
from vpa.locks import Locks
from vpa.ir import body_ty, strip_lt, rv_ops, Place

ENV = "doge_shell::environment::Environment"
EVAL = re.compile(r"(^|::)lisp::interpreter::eval$")
CALLABLE = re.compile(r"RefCell<doge_shell::lisp::model::env::Env>")
VALUES = re.compile(r"Vec<doge_shell::lisp::model::value::Value>")
# running shell commands and driving the prompt: what those do is not the configuration's own state
COMMANDS = re.compile(r"doge_shell::shell::Shell|ShellProxy|doge_shell::repl::Repl\b")
PASS = re.compile(r"(^|::|>::)(deref|deref_mut|as_mut|as_ref|borrow|borrow_mut|unwrap|expect|index|index_mut|iter|iter_mut|as_slice|as_mut_slice|get_mut|get|as_deref|as_deref_mut|by_ref|next|into_iter)$")

ADD = re.compile(r"(^|::|>::)(extend\w*|append|push|push_back|insert)$")


def held(P):
    """workspace structures the environment holds: {adt: field of the environment}, and which of them carry their own
    locks or are behind one (their fields are state of their own; a plain structure is one value of the environment's field)"""
    plain, own = {}, set()
    for v in P.adts[ENV]["variants"]:
        for name, ty in v[2]:
            ty = strip_lt(ty)
            m = re.match(r"^(?:[\w:]*(?:Arc|Rc)<)?(?:[\w:]*(?:RwLock|Mutex|RefCell)<(?:parking_lot::[\w:]+, )?)?(?:[\w:]*Option<)?([\w:]+)>*$", ty)
            if not m or m.group(1) not in P.adts or not P.adts[m.group(1)]["ws"] or P.adts[m.group(1)]["enum"]:
                continue
            a = m.group(1)
            locked = any(re.search(r"(RwLock|Mutex|RefCell)<", f[1]) for w in P.adts[a]["variants"] for f in w[2])
            if locked or a != ty:
                own.add(a)
            else:
                plain[a] = name
    return plain, own


class Items:
    def __init__(self, P, L):
        self.P, self.L = P, L
        self.plain, own = held(P)
        self.owners = {ENV, "doge_shell::lisp::model::env::Env"} | own

    def short(self, owner, field):
        return "%s.%s" % (owner.rsplit("::", 1)[-1], field)

    def of(self, place):
        fs = [e for e in place.p if e != "*" and e[0] == "f" and e[3] in self.P.adts and self.P.adts[e[3]]["ws"]]
        for e in reversed(fs):
            if e[3] in self.owners:
                return self.short(e[3], e[2])
        if fs and fs[-1][3] in self.plain:
            return self.short(ENV, self.plain[fs[-1][3]])
        return None

    def lock(self, b, t):
        """(item, mode) of a call that takes a lock kept in an item"""
        k = self.L.ident(b, t)
        fld = self.L.field(b, t.args[0]) if k and t.args else None
        if not fld or "." not in fld:
            return None
        o, f = fld.rsplit(".", 1)
        if o not in self.owners:
            return None
        if self.L.own(k[0][0]) and k[0][0] in self.owners:
            return None         # the fields of what is behind the lock are the items
        return self.short(o, f), k[1]


def off(P, I, b, flags):
    """blocks of b that only run while one of the flags is clear, and the flags"""
    sw = {}
    for i in b.reachable:
        t = b.bbs[i].term
        if t.k == "sw" and t.ty == "bool" and t.op.is_place:
            x, pos = flag_of(P, I, b, t.op.place, True)
            if x in flags:
                tm = dict(t.targets)
                sw[i] = (tm.get(1 if pos else 0, t.otherwise), x)
    if not sw:
        return set(), set()
    seen, st = {0}, [0]
    while st:
        i = st.pop()
        for n in ([sw[i][0]] if i in sw else b.bbs[i].term.succ()):
            if n not in seen:
                seen.add(n)
                st.append(n)
    d = set(b.reachable) - seen
    return d, {x for _, x in sw.values()} if d else set()


def flag_of(P, I, b, pl, pos, depth=0):
    if pl.p:
        return I.of(pl), pos
    ds = []
    for i in b.reachable:
        for s in b.bbs[i].stmts:
            if s.k == "=" and s.place.l == pl.l and not s.place.p:
                ds.append(s.rv)
        t = b.bbs[i].term
        if t.k == "call" and t.dest.l == pl.l and not t.dest.p:
            ds.append(("call", t))
    if len(ds) != 1 or depth > 6:
        return None, pos
    rv = ds[0]
    if rv[0] == "use" and rv[1].is_place:
        return flag_of(P, I, b, rv[1].place, pos, depth + 1)
    if rv[0] == "un" and rv[1] == "Not" and rv[2].is_place:
        return flag_of(P, I, b, rv[2].place, not pos, depth + 1)
    if rv[0] == "call":
        tg = [x for x in P.targets(b, rv[1]) if x in P.bodies]
        if len(tg) == 1 and len(P.bodies[tg[0]].bbs) <= 2:
            return flag_of(P, I, P.bodies[tg[0]], Place(0), pos, depth + 1)
    return None, pos


def reach_live(P, roots, skip, dead):
    seen, st = set(roots), list(roots)
    while st:
        x = st.pop()
        for e in P.edges(x):
            if e[0] in seen or e[0] in skip or (x in dead and e[2] in dead[x]):
                continue
            seen.add(e[0])
            st.append(e[0])
    return seen


def can_reach_bodies(P, goal, stop=()):
    seen, st = set(goal), list(goal)
    while st:
        x = st.pop()
        for (c, k, i, t) in P.callers.get(x, ()):
            if c not in seen and c not in stop:
                seen.add(c)
                st.append(c)
    return seen


READ = re.compile(r"fs::(read_to_string|read|File::open)$|fs::File>?::open|Read>?::read_to_string$")


class Text(Policy):
    through_params = False

    def call(self, body, bb, t):
        n = t.op.fn.full if t.op.fn else ""
        return "leaf" if READ.search(n) else "args"


def reads(P, I, bid):
    b = P.bodies[bid]
    for i in b.reachable:
        for s in b.bbs[i].stmts:
            if s.k == "=":
                if s.rv[0] in ("ref", "raw") and I.of(s.rv[1]):
                    return True
                if any(o.is_place and I.of(o.place) for o in rv_ops(s.rv)):
                    return True
        t = b.bbs[i].term
        if t.k == "call" and (I.lock(b, t) or any(a.is_place and I.of(a.place) for a in t.args)):
            return True
    return False


def names_config(P, b):
    def ops():
        for i in b.reachable:
            for s in b.bbs[i].stmts:
                if s.k == "=":
                    yield from rv_ops(s.rv)
            if b.bbs[i].term.k == "call":
                yield from b.bbs[i].term.args
    return any(o.k == "c" and o.s == "config.lisp" for o in ops())


def writes(P, I, bid, dead=()):
    """items this body changes: {item: line}"""
    b = P.bodies[bid]
    out = {}
    for i in b.reachable:
        if i in dead:
            continue
        for s in b.bbs[i].stmts:
            if s.k != "=":
                continue
            x = I.of(s.place) if s.place.p else None
            if x:
                out.setdefault(x, s.line)
            if s.rv[0] in ("ref", "raw") and s.rv[2]:
                x = I.of(s.rv[1])
                if x:
                    out.setdefault(x, s.line)
        t = b.bbs[i].term
        if t.k == "call":
            if t.dest.p and I.of(t.dest):
                out.setdefault(I.of(t.dest), t.line)
            k = I.lock(b, t)
            if k and k[1] == "w":
                out.setdefault(k[0], t.line)
        elif t.k == "drop" and t.place.p and I.of(t.place):
            pass
    return out


def it(items, phase):
    return ("c", ("it", frozenset(items), phase))


def mut(x):
    return ("c", ("mut", x))


class Cfg(Spec):
    cap = 4000

    def __init__(self, P, I, W, evs, reach_eval):
        super().__init__(P)
        self.I, self.W, self.evs, self.reach_eval = I, W, evs, reach_eval
        self.gates, self.restores, self.reads = set(), set(), set()
        self.lines = {}
        self.set_true = set()

    def phase(self, st, x):
        return "late" if "evaluated" in st.facts or ("w", x) in st.facts else "old"

    def wrote(self, st, x, v, line):
        if "evaluated" not in st.facts:
            st.facts = st.facts | {("w", x)}
            self.lines.setdefault(x, line)
            if v is not None and v[0] == "c" and v[1] in (True, 1):
                self.set_true.add(x)
            return
        a = v[1] if v is not None and v[0] == "c" else None
        if isinstance(a, tuple) and a[0] == "it" and x in a[1] and a[2] == "old":
            st.facts = (st.facts - {("late", x), ("other", x)}) | {("ok", x)}
            self.restores.add(x)
        else:
            late = isinstance(a, tuple) and a[0] == "it" and x in a[1]
            st.facts = (st.facts - {("ok", x), ("clr", x)}) | {("late" if late else "other", x)}

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        tg = [x for x in self.P.targets(body, t) if x in self.P.bodies]
        if any(x in self.evs or (x in self.reach_eval and x not in self.interesting) for x in tg):
            self.gates.add((body.id, bb))
            st.facts = st.facts | {"evaluated"}
            if (body_ty(body, t.dest) or "").startswith(RES):
                s2 = st.copy()
                s2.facts = s2.facts | {"failed"}
                return [(E(RES, "Ok", None), st), (E(RES, "Err", None), s2)]
            return [(None, st)]
        if f is None:
            return None
        k = self.I.lock(body, t)
        if k:
            if k[1] == "r":
                self.reads.add(k[0])
                return [(it([k[0]], self.phase(st, k[0])), st)]
            return [(mut(k[0]), st)]
        if any(x in self.interesting for x in tg):
            return None
        ms, its, phase = [], set(), "old"
        for v in vals:
            v = eng.deref(st, v) if v is not None else None
            for a in self.tags(v):
                if a[0] == "mut":
                    ms.append(a[1])
                elif a[0] == "it":
                    its |= a[1]
                    if a[2] != "old":
                        phase = "late"
        n = f.name
        if ms and (PASS.search(n) or PASS.search(f.full)):
            return [(mut(ms[0]), st)]
        sh = n.rsplit("::", 1)[-1]
        for x in its if phase == "old" and "evaluated" in st.facts and sh in ("next", "into_iter", "drain", "for_each") else ():
            if ("clr", x) in st.facts:
                # emptied, and filled again from the copy: also when there is nothing to fill it with
                st.facts = (st.facts - {("late", x), ("other", x)}) | {("ok", x)}
                self.restores.add(x)
        for x in ms if not re.search(r"(mem::drop|unlock\w*|len|is_empty|contains\w*|capacity|reserve|fmt)$", f.full) else ():
            if ADD.search(n) and "evaluated" in st.facts and ("clr", x) not in st.facts and ("ok", x) not in st.facts:
                self.wrote(st, x, None, t.line)     # what the file added stays
                continue
            if not (ADD.search(n) and ("ok", x) in st.facts and (not its or x in its and phase == "old")):
                self.wrote(st, x, it(its, phase) if its else None, t.line)
            if sh == "clear" and "evaluated" in st.facts:
                st.facts = st.facts | {("clr", x)}
        if t.dest.p and self.I.of(t.dest):
            self.wrote(st, self.I.of(t.dest), it(its, phase) if its else None, t.line)
        if its and not re.search(r"(is_empty|len|eq|ne|contains\w*|is_some|is_none|is_ok|is_err)$", n):
            return [(it(its, phase), st)]
        return None

    def tags(self, v):
        if v is None:
            return []
        if v[0] == "c" and isinstance(v[1], tuple):
            return [v[1]]
        if v[0] == "e":
            return [a for x in v[3] for a in self.tags(x)]
        if v[0] in ("clo", "cor"):
            return [a for x in v[2] for a in self.tags(x)]
        return []


class Eng(Engine):
    def tested_locals(self, body):
        return frozenset()

    def operand(self, st, op, body):
        if op.is_place:
            x = self.spec.I.of(op.place)
            if x:
                self.spec.reads.add(x)
                return it([x], self.spec.phase(st, x))
        return super().operand(st, op, body)

    def rvalue(self, st, rv, body):
        if rv[0] in ("ref", "raw"):
            x = self.spec.I.of(rv[1])
            if x:
                if rv[2]:
                    return mut(x)
                self.spec.reads.add(x)
                return it([x], self.spec.phase(st, x))
            b = st.env.get((rv[1].l, ()))
            if rv[1].p and all(e == "*" for e in rv[1].p) and b is not None and b[0] == "c" and isinstance(b[1], tuple):
                return b
        return super().rvalue(st, rv, body)

    def spec_stmt(self, s, body, i, q, v, stack):
        pl = q.place
        if not pl.p:
            return
        x = self.spec.I.of(pl)
        if x is None and "*" in pl.p:
            b = s.env.get((pl.l, ()))
            b = self.deref(s, b) if b is not None else None
            if b is not None and b[0] == "c" and isinstance(b[1], tuple) and b[1][0] == "mut":
                x = b[1][1]
        if x:
            self.spec.wrote(s, x, self.deref(s, v) if v is not None else None, q.line)


def run(P, R, tier):
    R.explanation = ("What Lisp code can change is enumerated from MIR (every field of the environment, of what it shares, of the global scope and of the action registry that code reachable from the "
                     "interpreter assigns, borrows mutably or locks for writing). Path simulation of the function that loads the configuration file: on every path on which the evaluation fails, each of "
                     "these is assigned again, with a value read from the same place before the evaluation began and before the loader itself changed it.")
    R.assumptions = ["A value copied out of a field by clone/to_vec/snapshot-like functions is a copy of all of it.",
                     "Commands the configuration runs (sh ...) are not undone: shell commands, prompt and completion caches are outside the enumeration."]
    L = Locks(P)
    I = Items(P, L)
    evs = {b.id for b in P.bodies.values() if b.promoted is None and EVAL.search(b.name)}
    if not evs:
        R.floor("evaluators", 1, "Lisp evaluators")
        return
    natives = [b.id for b in P.bodies.values() if b.promoted is None and any(CALLABLE.search(x) for x in b.locals[1:b.argc + 1]) and any(VALUES.search(x) for x in b.locals[1:b.argc + 1])]
    skip = {b.id for b in P.bodies.values() if any(COMMANDS.search(x) for x in b.locals[1:b.argc + 1])}
    skip |= {b.id for b in P.bodies.values() if b.kind in ("closure", "coroutine") and COMMANDS.search(str(b.locals[1] if b.argc else ""))}
    lisp = P.reach_from(sorted(evs, key=str) + natives, skip=lambda e: e[0] in skip)
    # what is behind a static lock the Lisp functions themselves take for writing
    for x in natives:
        b = P.bodies[x]
        for i, t in b.calls:
            if t.op.fn is None or t.dest.p:
                continue
            k = L.ident(b, t)
            if k and k[1] == "w" and L.own(k[0][0]) and not P.adts[k[0][0]]["enum"]:
                fld = L.field(b, t.args[0])
                if fld and fld.rsplit(".", 1)[0] not in P.adts:
                    I.owners.add(k[0][0])
    W0 = {}
    for x in lisp:
        for k in writes(P, I, x):
            W0[k] = 1
    # a flag of the environment that Lisp code cannot change: with it set, the code behind its being clear does not run
    flags = {I.short(ENV, n) for v in P.adts[ENV]["variants"] for n, ty in v[2] if ty == "bool"} - set(W0)
    dead, used = {}, set()
    for x in lisp:
        d, u = off(P, I, P.bodies[x], flags)
        if d:
            dead[x] = d
            used |= u
    lisp = P.reach_from(sorted(evs, key=str) + natives, skip=lambda e: e[0] in skip) if not dead else reach_live(P, sorted(evs, key=str) + natives, skip, dead)
    W = {}
    for x in lisp:
        for k, ln in writes(P, I, x, dead.get(x, ())).items():
            W.setdefault(k, []).append("%s:%s" % (short(P.bodies[x].name), ln))
    R.count("lisp_functions", len(natives))
    R.count("functions_reached", len(lisp))
    R.count("state_items", len(W))
    for k in sorted(W):
        R.sample("%s changed in %s" % (k, ", ".join(sorted(W[k])[:3])))
    R.floor("lisp_functions", 40, "functions callable from Lisp")
    R.floor("state_items", 12, "pieces of state Lisp code can change")
    # ---- the loader
    cfg = {b.id for b in P.bodies.values() if b.promoted is None and names_config(P, b)}
    reach_eval = can_reach_bodies(P, evs)
    reach_cfg = can_reach_bodies(P, cfg, stop=evs)
    both = (reach_eval & reach_cfg) - evs
    # between loader and file name no evaluation happens
    roots = [b for b in both if not any(e[0] in both and e[0] != b for e in P.edges(b) if e[0] not in evs)]
    fl = Flow(P)
    loaders = []
    for x in roots:
        b = P.bodies[x]
        gates = [(i, t) for i, t in b.calls if any(y in evs or y in reach_eval for y in P.targets(b, t))]
        if any(l[0] == "call" and READ.search(l[1]) for i, t in gates for a in t.args if a.is_place for l in fl.origins(b, a, i, 1 << 30, Text())):
            loaders.append(b)
    for b in loaders:
        R.count("loaders")
        sp = Cfg(P, I, W, evs, reach_eval)
        touch = {x for x in P.bodies if writes(P, I, x) or reads(P, I, x)}
        inner = P.reach_from([b.id], skip=lambda e: e[0] in evs)
        sp.interesting = {x for x in can_reach_bodies(P, touch & inner, stop=evs) if x in inner} - evs
        # the evaluation itself is an event, not a body to walk through
        sp.interesting -= {x for x in sp.interesting if x in reach_eval and x != b.id and not (P.reach_from([x], skip=lambda e: e[0] in evs) & touch)}
        en = Eng(P, sp)
        temp = None
        for rv, facts, know in en.run(b.id, [None] * b.argc, State(), []):
            R.count("loader_paths")
            wrote = {f[1] for f in facts if isinstance(f, tuple) and f[0] == "w"}
            ok = {f[1] for f in facts if isinstance(f, tuple) and f[0] == "ok"}
            late = {f[1] for f in facts if isinstance(f, tuple) and f[0] == "late"}
            other = {f[1] for f in facts if isinstance(f, tuple) and f[0] == "other"}
            if "evaluated" not in facts:
                for x in sorted(wrote):
                    R.violation("early:%s:%s" % (short(b.name), x), where(b, sp.lines.get(x)), "%s is changed and the loader returns without evaluating the file or putting it back" % x)
                continue
            need = set(W) | wrote if "failed" in facts else wrote - set(W)
            for x in sorted(need - ok):
                why = ("put back from a copy taken after it was changed" if x in late else "assigned something else than its earlier value" if x in other else "not put back")
                R.violation("rollback:%s:%s" % (short(b.name), x), where(b), "when the file %s, %s is %s" % ("fails" if "failed" in facts else "loads", x, why))
            if "failed" in facts:
                R.count("failed_paths")
                R.counts["restored_items"] = max(R.counts.get("restored_items", 0), len(ok))
        R.floor("failed_paths", 1, "paths on which the evaluation fails")
        for x in sorted(used):
            if x not in sp.set_true:
                R.violation("flag:%s" % x, where(b), "the file is evaluated without %s being set first" % x)
    R.floor("loaders", 1, "functions that evaluate the configuration file")
