"""The terminal is given back as it was found."""
from rules.common import *
from vpa.paths import POLL

ON = re.compile(r"^crossterm::terminal::enable_raw_mode$|^crossterm::terminal::sys::unix::enable_raw_mode$")
OFF = re.compile(r"^crossterm::terminal::disable_raw_mode$|^crossterm::terminal::sys::unix::disable_raw_mode$")
ISRAW = re.compile(r"^crossterm::terminal::is_raw_mode_enabled$")
TCSET = re.compile(r"^nix::unistd::tcsetpgrp$|^libc::.*::tcsetpgrp$")


class Raw(Spec):
    cap = 60
    max_states = 300000

    def __init__(self, P, sw, setters, drops, ignore, inl=()):
        super().__init__(P)
        self.interesting = set(inl)
        self.sw = sw
        self.setters, self.drops, self.ignore = setters, drops, ignore
        self.events = set()

    def event(self, st, what, body, bb, guard=False):
        self.events.add((body.id, bb))
        fs = {x for x in st.facts if isinstance(x, tuple) and x[0] == "first"}
        if not fs:
            st.facts = st.facts | {("first", "drop" if guard else what)}
        st.facts = frozenset(x for x in st.facts if not (isinstance(x, tuple) and x[0] == "last")) | {("last", what)}

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is None:
            return None
        what = self.sw.get((body.id, bb))
        if what:
            self.event(st, what, body, bb)
            s2 = st.copy()
            if what == "on" and not self.before:
                s2.facts = frozenset(x for x in s2.facts if not (isinstance(x, tuple) and x[0] in ("first", "last")))       # refused: nothing was switched
            return [(E(RES, "Ok", None), st), (E(RES, "Err", None), s2)]
        if ISRAW.match(f.full):
            y = eng.sym(st, "was")
            return [(E(RES, "Ok", y), st)]
        tg = set(self.P.targets(body, t))
        for x in tg:
            if x in self.setters and x not in self.ignore and self.P.bodies[x].kind != "coroutine":
                self.event(st, self.setters[x], body, bb)
                return None
        if re.search(r"Future(>)?::poll$", f.full) and vals:
            v = eng.deref(st, vals[0]) if vals[0] is not None else None
            if v is not None and v[0] == "cor" and v[1] in self.setters and v[1] not in self.ignore:
                self.event(st, self.setters[v[1]], body, bb)
            return None
        return None

    def on_drop(self, eng, st, body, bb, t, stack):
        ty = base_ty(body.locals[t.place.l]) if not t.place.p else None
        if ty in self.drops:
            self.event(st, self.drops[ty], body, bb, True)
        return None


class Eng(Engine):
    own = False

    def tested_locals(self, body):
        return frozenset()

    def call(self, s, body, i, t, stack):
        self.spec.before = {x for x in s.facts if isinstance(x, tuple) and x[0] in ("first", "last")}
        return Engine.call(self, s, body, i, t, stack)

    def read(self, st, place):
        v = Engine.read(self, st, place)
        if v is None and place.fields() and place.fields()[-1] == "interactive":
            return ("y", ("interactive",))
        if v is None and place.l == 1 and len(place.fields()) == 1 and self.own:
            return ("y", ("self", place.fields()[0]))
        return v


def switches(P, on, off, on_adt, off_adt):
    """(body, block) -> "on" or "off": calls of the switching functions, and calls handed a closure (as execute! and queue! do) that queues the switching command"""
    def adts(b):
        r = set()
        for bb in b.reachable:
            for st in b.bbs[bb].stmts:
                if st.k == "=" and st.rv[0] == "agg" and st.rv[1][0] == "adt":
                    r.add(st.rv[1][1])
        return r
    def word(names):
        return "on" if any(on_adt and on_adt.search(x) for x in names) else "off" if any(off_adt and off_adt.search(x) for x in names) else None
    sw, inner = {}, {}
    if on_adt:
        for b in P.bodies.values():
            if b.kind == "closure" and any(t.op.fn is not None and re.search(r"::(QueueableCommand|ExecutableCommand)>?::(queue|execute)$", t.op.fn.name) for i, t in b.calls):
                w = word(adts(b))
                if w:
                    inner[b.id] = w
    for b in P.bodies.values():
        if b.promoted is not None or b.id in inner:
            continue
        clo = {}
        for bb in b.reachable:
            for st in b.bbs[bb].stmts:
                if st.k == "=" and st.rv[0] == "agg" and st.rv[1][0] == "clo" and st.rv[1][1][1] in inner and not st.place.p:
                    clo[st.place.l] = inner[st.rv[1][1][1]]
        for i, t in b.calls:
            f = t.op.fn
            if f is None:
                continue
            if on and on.match(f.full):
                sw[(b.id, i)] = "on"
            elif off and off.match(f.full):
                sw[(b.id, i)] = "off"
            else:
                w = [clo[a.place.l] for a in t.args if a.is_place and not a.place.p and a.place.l in clo]
                if w:
                    # queue().map().and_then(flush): it is done when the last of these is
                    d, last = t.dest, i
                    nxt = True
                    while nxt:
                        nxt = [(j, u) for j, u in b.calls if u.op.fn is not None and re.search(r"Result::<T, E>::(map|and_then)$", u.op.fn.name) and u.args and u.args[0].is_place and not u.args[0].place.p and u.args[0].place.l == d.l and not d.p]
                        if nxt:
                            last, d = nxt[0][0], nxt[0][1].dest
                    sw[(b.id, last)] = w[0]
    return sw


def result(P, b, sw, setters, drops, ignore, inl=()):
    sp = Raw(P, sw, setters, drops, ignore, inl)
    en = Eng(P, sp)
    args = [None] * (b.argc if b.kind != "coroutine" else 0)
    outs = set()
    for rv, facts, know in en.run(b.id, args, State(), []):
        kn = dict(know)
        f = next((x[1] for x in facts if isinstance(x, tuple) and x[0] == "first"), None)
        l = next((x[1] for x in facts if isinstance(x, tuple) and x[0] == "last"), None)
        inter = kn.get(("interactive",))
        was = kn.get(("was",))
        err = rv is not None and rv[0] == "e" and rv[2] in ("Err", "None")
        outs.add((f, l, None if inter is None or len(inter) > 1 else list(inter)[0], None if was is None or len(was) > 1 else list(was)[0], err))
    return outs, sp, en


def balanced(o, told, mode):
    f, l, inter, was, err = o
    if f == "drop":
        if mode == "screen":
            return l == "off"       # a guard was gone before what it guards
        f = "off"
    if f is None or mode == "screen" and l == "off":
        return True
    if was is not None:
        return (l == "on") == was
    if f == "off" and l == "on":
        return inter is True or not told
    if f == "off":
        return inter is False
    return l == "off"


def panic_hooks(P):
    hooks = set()
    for b in P.bodies.values():
        for i, t in b.calls:
            if t.op.fn is not None and t.op.fn.full.endswith("panic::set_hook"):
                hooks |= {e[0] for e in P.edges(b.id) if e[1] == "closure"}
    return hooks


def judge(P, R, mode, name, sw):
    direct = {x[0] for x in sw}
    reach = P.can_reach(lambda x, i, t: (x.id, i) in sw)
    dropf = {}          # type -> body of its Drop with raw events
    for b in P.bodies.values():
        m = re.match(r"^<(.*) as (core|std)::ops::(drop::)?Drop>::drop$", b.name)
        if m and b.id in reach:
            dropf[base_ty(m.group(1))] = b
    # guards whose constructor switches too are balanced by construction
    ctor = {ty: [x for x in direct if base_ty(P.bodies[x].locals[0]) == ty] for ty in dropf}
    life = {ty: [x for x in direct if P.bodies[x].argc and base_ty(P.bodies[x].locals[1]) == ty and P.bodies[x] is not dropf[ty]] for ty in dropf}
    ignore = {x for ty in dropf for x in ctor[ty] + life[ty]} | {b.id for b in dropf.values()}
    drops = {}
    for ty, b in dropf.items():
        R.sample("guard of %s %s: %s" % (name, short(ty), "switched in its constructor" if ctor[ty] else "switched in %s" % ", ".join(short(P.bodies[x].name) for x in life[ty]) if life[ty] else "its end switches it off"))
        if not ctor[ty] and not life[ty]:
            drops[ty] = "off"
    hooks = panic_hooks(P)
    R.count("guards", len(dropf))
    setters, inl, kept_by = {}, set(), {}
    for ty, b in sorted(dropf.items()):
        sp = Raw(P, sw, {}, {}, set())
        en = Eng(P, sp)
        en.own = True
        for rv, facts, know in en.run(b.id, [None], State(), []):
            kept = any(k[0] == "self" and v is not None and set(v) <= {False} for k, v in know if isinstance(k, tuple))
            kept_by.setdefault(ty, set()).update(k[1] for k, v in know if isinstance(k, tuple) and k[0] == "self" and v is not None and set(v) <= {False})
            if ("last", "off") not in facts and not kept:
                R.violation("%s:%s:guard" % (mode, short(ty)), where(b), "the guard can end without switching %s off" % name)
                break
    for ty, fields in sorted(kept_by.items()):
        names = [f[0] for f in P.adts[ty]["variants"][0][2]] if ty in P.adts else []
        for x in ctor.get(ty, []) if len(fields) == 1 else []:
            sp = Raw(P, sw, {}, {}, set())
            en = Eng(P, sp)
            for rv, facts, know in en.run(x, [None] * P.bodies[x].argc, State(), []):
                if ("last", "on") not in facts or rv is None or rv[0] != "e" or rv[1] != ty:
                    continue
                i = names.index(list(fields)[0]) if list(fields)[0] in names else None
                R.count("guards_made")
                if i is not None and i < len(rv[3]) and rv[3][i] != C(True):
                    R.violation("%s:%s:made" % (mode, short(ty)), where(P.bodies[x]), "switches %s on and makes a guard that may not switch it off" % name)
                    break
    work = {x: 0 for x in direct - ignore - hooks}
    bad, events, samples = {}, {}, {}
    rounds = 0
    while work and rounds < 200:
        rounds += 1
        x = min(work, key=lambda y: (work[y], str(y)))
        level = work.pop(x)
        b = P.bodies[x]
        outs, sp, en = result(P, b, sw, setters, drops, ignore, inl - {x})
        R.count("abstract_states", en.stats["states"])
        ev = [o for o in outs if o[0] is not None]
        bad.pop(x, None)
        if not ev:
            continue
        events[x] = len(sp.events)
        told = any(re.search(r"^dsh_types::(.*::)?Context$", base_ty(y.lstrip("&").replace("mut ", ""))) for y in b.locals)
        samples[x] = "%s: %s: %s" % (mode, short(b.name), sorted({"%s..%s" % (o[0], o[1]) for o in ev}))
        single = {"off" if y == "drop" else y for o in outs for y in o[:2]}
        cs = {c[0] for c in P.callers.get(x, []) if c[1] in ("call", "closure")}
        if b.kind == "coroutine":
            cs = {c2[0] for c in cs for c2 in P.callers.get(c, []) if c2[1] == "call"} | {c for c in cs if P.bodies[c].kind == "coroutine"}
        cs -= ignore | hooks | {x}
        if level < 2 and len(single) == 1 and cs and not any(o[3] is not None for o in outs):
            # it only switches: judged where it is called (and whoever was judged before is judged again)
            if setters.get(x) != list(single)[0]:
                setters[x] = list(single)[0]
                for c in cs:
                    work[c] = max(level + 1, work.get(c, 0))
            continue
        if level < 2 and len(single - {None}) == 1 and b.kind == "fn" and b.argc and cs and not any(o[3] is not None for o in outs):
            # it switches under a condition it is given or asks its context for: part of its callers
            if x not in inl:
                inl.add(x)
                for c in cs:
                    work[c] = max(level + 1, work.get(c, 0))
            continue
        wrong = [o for o in ev if not balanced(o, told, mode)]
        if wrong:
            bad[x] = wrong
    for x, wrong in sorted(bad.items(), key=lambda y: P.bodies[y[0]].name):
        b = P.bodies[x]
        o = sorted(wrong, key=str)[0]
        R.violation("%s:%s:%s" % (mode, short(b.name), o[1]), where(b), "%s that switched %s %s returns with it %s" % ("a path returning an error" if all(o[4] for o in wrong) else "a path", name, "off by a guard dropped too early" if o[0] == "drop" else o[0], o[1]))
    judged = set(events)
    R.count("switches", sum(events.values()))
    for x in sorted(samples.values()):
        R.sample(x)
    R.count("functions_judged", len(judged))
    R.count("judged_" + mode, len(judged))


def run(P, R, tier):
    R.explanation = ("Typestate of the terminal. (1) Every function that switches the terminal's raw mode is walked on every path, errors included: a path that switched it off leaves it on again (unless the context is not interactive), one that switched it on leaves it off, and one that asked what it was leaves it so. "
                     "Functions that only switch are judged in their callers; guards by their destructor. (2) A path that gives the terminal to another process group takes it back before it returns.")
    judge(P, R, "raw", "raw mode", switches(P, ON, OFF, None, None))
    judge(P, R, "screen", "the alternate screen", switches(P, None, None, re.compile("::EnterAlternateScreen$"), re.compile("::LeaveAlternateScreen$")))
    R.floor("judged_raw", 8, "functions that switch the terminal's mode")
    R.floor("judged_screen", 2, "functions that switch the alternate screen")
    hooks = panic_hooks(P)
    # ---- (2)
    def leaves(b, i, op):
        return origins(P, b, op, i, LocalWhole(P))

    def shellish(ls):
        return any(l[0] == "field" and (l[2] == "shell_pgid" or (l[2] == "pgid" and l[1].endswith("Shell"))) for l in ls)
    argof, does = {}, {}        # helpers that set the group they are told to; helpers that only take back or only give

    def settings(b):
        """(block, call, operand naming the group) of every call that sets the terminal's group"""
        for i, t in b.calls:
            f = t.op.fn
            if f is None:
                continue
            if TCSET.match(f.full):
                yield i, t, t.args[1]
            else:
                for x in P.targets(b, t):
                    if x in argof and len(t.args) > argof[x]:
                        yield i, t, t.args[argof[x]]

    class Fg(Spec):
        cap = 60

        def on_call(self, eng, st, body, bb, t, vals, stack):
            if t.op.fn is None:
                return None
            here = [x for x in settings(body) if x[1] is t]
            done = {does[x] for x in P.targets(body, t) if x in does}
            if not here and not done:
                return None
            st.facts = st.facts | {"set"}
            if "take" in done or here and shellish(leaves(body, bb, here[0][2])):
                st.facts = (st.facts - {"given"}) | {"took"}
            else:
                st.facts = st.facts | {"given"}
            if done or not TCSET.match(t.op.fn.full):
                return [(None, st)]
            return [(E(RES, "Ok", None), st), (E(RES, "Err", None), st.copy())]
    bad, seen, n = {}, {}, 0
    waits = P.can_reach(lambda x, i, t: t.op.fn is not None and bool(re.search(r"::waitpid$", t.op.fn.full)))
    for level in range(4):
        changed = False
        for b in P.bodies.values():
            if b.promoted is not None or b.id in hooks or b.id in argof:
                continue
            told = list(settings(b))
            using = tuple(sorted((str(x), does[x]) for i, t in b.calls for x in P.targets(b, t) if x in does))
            if not told and not using or seen.get(b.id) == (len(told), using):
                continue
            if any(t.op.fn is not None and re.match(r"^nix::unistd::(execve?|execvpe?)$", t.op.fn.full) for i, t in b.calls):
                continue            # the child itself
            seen[b.id] = (len(told), using)
            changed = True
            ls = [leaves(b, i, op) for i, t, op in told]
            if len(told) == 1 and ls[0] and all(l[0] == "param" and l[1] is b for l in ls[0]) and b.kind != "coroutine":
                argof[b.id] = ls[0][0][2] - 1
                R.count("helpers")
                continue
            sp = Fg(P)
            en = Eng(P, sp)
            res = en.run(b.id, [None] * (b.argc if b.kind != "coroutine" else 0), State(), [])
            R.count("abstract_states", en.stats["states"])
            n += 1
            wrong = [rv for rv, facts, know in res if "given" in facts]
            bad.pop(b.id, None)
            if wrong:
                plain = b.kind != "coroutine" and b.id not in waits and not any("took" in facts for rv, facts, know in res) and P.callers.get(b.id)
                if plain:
                    does[b.id] = "give"      # judged where it is called
                else:
                    bad[b.id] = all(rv is not None and rv[0] == "e" and rv[2] == "Err" for rv in wrong)
            elif b.kind != "coroutine" and told and all(shellish(x) for x in ls) and all("set" in facts for rv, facts, know in res):
                does[b.id] = "take"
        if not changed:
            break
    for x, err in sorted(bad.items(), key=str):
        R.violation("foreground:%s" % short(P.bodies[x].name), where(P.bodies[x]), "%s gives the terminal to a job and returns without taking it back" % ("a path that fails" if err else "a path"))
    R.counts["terminal_handovers"] = n
    R.floor("terminal_handovers", 2, "functions that hand the terminal over")
