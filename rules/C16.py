"""What a forked child may do before it becomes another program."""
from rules.common import *

EXEC = re.compile(r"^(nix::unistd::(execve?|execvpe?|fexecve)|libc::.*::(execve|execvp|execv))$")
EXIT = re.compile(r"^(std::process::(exit|abort)|libc::.*::(_exit|exit|abort))$")
LOCK = re.compile(r"^lock_api::(rwlock::RwLock|mutex::Mutex|remutex::ReentrantMutex)(::)?(<.*>)?::(lock|read|write|upgradable_read|try_.*)$|^std::sync::.*(Mutex|RwLock)(::)?(<.*>)?::(lock|read|write)$|^tokio::sync::.*::(lock|read|write|blocking_.*)$")
SIGACTION = re.compile(r"^nix::sys::signal::(sigaction|signal)$")


class Fork(Spec):
    cap = 400
    max_states = 200000

    def __init__(self, P, exits):
        super().__init__(P)
        self.bad, self.execs, self.exits, self.forks, self.resets = {}, set(), set(), set(), []
        self.lockers = P.can_reach(lambda b, i, t: t.op.fn is not None and bool(LOCK.match(t.op.fn.full)))
        hit = P.can_reach(lambda b, i, t: t.op.fn is not None and bool(EXEC.match(t.op.fn.full) or re.match(r"^nix::unistd::fork$", t.op.fn.full) or SIGACTION.match(t.op.fn.full) or EXIT.match(t.op.fn.full)))
        # the functions between fork and exec: those that work on a process or fork themselves
        self.interesting = {x for x in hit if P.bodies[x].kind in ("fn", "coroutine", "closure") and self.near(P, x)}

    def near(self, P, x):
        b = P.bodies[x]
        fk = any(t.op.fn is not None and (t.op.fn.full == "nix::unistd::fork" or EXEC.match(t.op.fn.full) or SIGACTION.match(t.op.fn.full) or EXIT.match(t.op.fn.full)) for i, t in b.calls)
        return fk and len(b.bbs) < 900

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is None:
            if "child" in st.facts and dest_ty(body, t).endswith("ExitStatus"):
                st.facts = st.facts | {"builtin"}
            return None
        n = f.full
        if n == "nix::unistd::fork":
            self.forks.add((body.id, bb))
            s2, s3 = st.copy(), st.copy()
            s2.facts = frozenset({"child"})
            return [(E(RES, "Ok", E("nix::unistd::ForkResult", "Parent", None)), st), (E(RES, "Ok", E("nix::unistd::ForkResult", "Child")), s2), (E(RES, "Err", None), s3)]
        if "child" not in st.facts:
            return None
        if EXIT.match(n):
            self.exits.add((body.id, bb))
            v = eng.deref(st, vals[0]) if vals and vals[0] is not None else None
            if v == C(0) and "execfailed" in st.facts:
                self.bad.setdefault(("zero", body.id), (body, t.line, "a child whose program could not be executed exits with 0"))
            return []
        if SIGACTION.match(n):
            sig = eng.deref(st, vals[0]) if vals[0] is not None else None
            name = sig[2] if sig is not None and sig[0] == "e" else None
            act = st_action(eng, st, vals)
            if name:
                st.facts = frozenset(x for x in st.facts if not (isinstance(x, tuple) and x[0] == "sig" and x[1] == name)) | {("sig", name, act)}
            return [(E(RES, "Ok", None), st)]           # a failure is reported or ignored; what is asked for is judged
        if re.match(r"^nix::sys::signal::SigAction::new$", n):
            return [(vals[0], st)]
        if EXEC.match(n):
            self.execs.add((body.id, bb))
            dfl = frozenset(x[1] for x in st.facts if isinstance(x, tuple) and x[0] == "sig" and x[2] == "SigDfl")
            inter = next((x[1] for x in st.facts if isinstance(x, tuple) and x[0] == "interactive"), None)
            self.resets.append((dfl, inter, body, t.line))
            for x in st.facts:
                if isinstance(x, tuple) and x[0] == "lock":
                    self.bad.setdefault(("lock", x[1]), (body, t.line, "between fork and exec the child takes a lock another thread may have held: " + x[1]))
            st.facts = st.facts | {"execfailed"}
            return [(E(RES, "Err", None), st)]
        if LOCK.match(n):
            st.facts = st.facts | {("lock", "%s in %s" % (n.rsplit("::", 1)[-1], short(body.name)))}
            return None
        for x in self.P.targets(body, t):
            if x in self.lockers and x not in self.interesting:
                st.facts = st.facts | {("lock", short(self.P.bodies[x].name))}
        return None

    def on_drop(self, eng, st, body, bb, t, stack):
        return None


def st_action(eng, st, vals):
    v = eng.deref(st, vals[1]) if len(vals) > 1 and vals[1] is not None else None
    return v[2] if v is not None and v[0] == "e" else None


class Eng(Engine):
    def tested_locals(self, body):
        return frozenset()

    def split_bool(self, st, v):
        out = Engine.split_bool(self, st, v)
        if v is not None and v[0] == "y" and v[1] == ("interactive",):
            for b, s in out:
                s.facts = s.facts | {("interactive", b)}
        return out

    def read(self, st, place):
        v = Engine.read(self, st, place)
        if v is None and place.fields() and place.fields()[-1] == "interactive":
            return ("y", ("interactive",))
        return v


def run(P, R, tier):
    R.explanation = ("Path simulation of every function that forks, from fork to the end of the child: no path of the child returns to the caller, every path ends in exec or exit; on the paths that reach exec no lock is taken and the signals the shell ignores or handles for itself are set back to their default; "
                     "a program that cannot be executed ends with a failure.")
    roots = [b for b in P.bodies.values() if b.promoted is None and any(t.op.fn is not None and t.op.fn.full == "nix::unistd::fork" for i, t in b.calls)]
    # signals the shell changes for itself: (outside any child)
    shell = {}

    class Own(Spec):
        def on_call(self, eng, st, body, bb, t, vals, stack):
            f = t.op.fn
            if f is not None and re.match(r"^nix::sys::signal::SigAction::new$", f.full):
                return [(vals[0], st)]
            if f is not None and SIGACTION.match(f.full):
                sig = eng.deref(st, vals[0]) if vals[0] is not None else None
                act = st_action(eng, st, vals)
                if sig is not None and sig[0] == "e" and act in ("SigIgn", "Handler"):
                    shell.setdefault(sig[2], (body, t.line, act))
            return None
    for b in P.bodies.values():
        if b.promoted is None and any(t.op.fn is not None and SIGACTION.match(t.op.fn.full) for i, t in b.calls):
            Eng(P, Own(P)).run(b.id, [None] * (b.argc if b.kind != "coroutine" else 0), State(), [])
    for s, (b, line, act) in sorted(shell.items()):
        R.sample("the shell's own %s: %s at %s" % (s, act, where(b, line)))
    R.counts["shell_signals"] = len(shell)
    R.floor("shell_signals", 4, "signals the shell ignores or handles")
    need = {s for s in shell}
    for b in roots:
        sp = Fork(P, None)
        en = Eng(P, sp)
        args = [None] * (b.argc if b.kind != "coroutine" else 0)
        for rv, facts, know in en.run(b.id, args, State(), []):
            if "child" in facts:
                R.violation("returns:%s" % short(b.name), where(b), "the forked child can return into the shell")
        R.count("forks", len(sp.forks))
        R.count("child_ends", len(sp.execs) + len(sp.exits))
        R.count("abstract_states", en.stats["states"])
        for dfl, inter, body, line in sp.resets:
            R.count("exec_paths")
            if inter is not False and not need <= dfl:
                R.violation("signals:%s" % short(body.name), where(body, line), "an interactive shell starts a program with %s still as the shell has it" % ", ".join(sorted(need - dfl)))
            if "SIGPIPE" not in dfl:
                R.violation("sigpipe:%s" % short(body.name), where(body, line), "a program is started with SIGPIPE ignored, as the Rust runtime leaves it")
        for k, (bb_, line, why) in sp.bad.items():
            R.violation(":".join(map(str, (k[0], short(bb_.name), k[1] if k[0] == "lock" else ""))), where(bb_, line), why)
    R.floor("forks", 3, "forks")
    R.floor("child_ends", 5, "ends of a child")
    R.floor("exec_paths", 2, "paths to exec")
