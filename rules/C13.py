"""The status of a command decides what runs next."""
from rules.common import *
from vpa.paths import CF, POLL, OPT, base_ty

PS = "doge_shell::process::state::ProcessState"
LO = "doge_shell::process::state::ListOp"
WAITPID = re.compile(r"^nix::sys::wait::wait(pid|id)?$")
INTCONV = re.compile(r"(^|[^a-z_])(u8|i32|u32|i64|u16|usize|i16|u64)\b.*::(from|into|try_from|try_into|clamp|min|max)$|Try(From|Into)<.*>>::try_(from|into)$|(From|Into)<.*>>::(from|into)$|Ord::(clamp|min|max)$|num::.*::(clamp|min|max)$")


def ps_adt(P, tail):
    return next(a for a in P.adts if a.endswith("::" + tail) and P.adts[a]["ws"])


class Base(Engine):
    """records which variants and values the path has tested"""
    kinds = ()

    def split_variant(self, st, v, adt):
        out = Engine.split_variant(self, st, v, adt)
        if adt in self.spec.record:
            for var, s in out:
                s.facts = frozenset(f for f in s.facts if f[:2] != ("is", adt)) | {("is", adt, var)}
        return out

    def rvalue(self, st, rv, body):
        v = Engine.rvalue(self, st, rv, body)
        if rv[0] == "cast" and rv[2] in ("u8", "i8") and v is not None and v[0] == "y" and rv[1].is_place and self.cur_local_ty(rv[1].place) not in ("u8", "i8", "bool"):
            root = v[1][0] if isinstance(v[1], tuple) else v[1]
            if root in ("exit", "status") and ("bounded", v[1]) not in st.facts and not ranged(body):
                return ("y", ("cut",) + tuple(v[1]))
        if v is None and rv[0] == "disc" and base_ty(rv[2]) in self.spec.record:
            return ("d", None, base_ty(rv[2]))
        if v is None and rv[0] == "bin" and rv[1].startswith("Add"):
            if any(o.val is not None and o.val > 0 for o in (rv[2], rv[3])):      # 128 + signal
                return E("()", "()", C("nz"), None) if rv[1].endswith("WithOverflow") else C("nz")
        return v

    def spec_stmt(self, s, body, i, q, v, stack):
        self.spec.on_stmt(self, s, body, i, q, v, stack)

    def switch(self, s, t, body):
        v = self.operand(s, t.op, body)
        if v == C("nz") and t.ty != "bool":
            out = [(tgt, s.copy()) for n, tgt in t.targets if int(n) != 0]
            return out + [(t.otherwise, s.copy())] if body.bbs[t.otherwise].term.k != "unr" else out
        if v is not None and v[0] == "y" and re.match(r"^[iu](8|16|32|64|size)$", t.ty or ""):
            out = []
            for n, tgt in t.targets:
                s2 = s.copy()
                s2.facts = s2.facts | {("val", v[1], int(n))}
                out.append((tgt, s2))
            if body.bbs[t.otherwise].term.k != "unr":
                s2 = s.copy()
                s2.facts = s2.facts | {("notval", v[1]) + tuple(int(n) for n, _ in t.targets)}
                out.append((t.otherwise, s2))
            return out
        return Engine.switch(self, s, t, body)

    def split_bool(self, st, v):
        if v is not None and v[0] == "eq":
            a, b = self.deref(st, v[1]), self.deref(st, v[2])
            for x, y in ((a, b), (b, a)):
                if x is not None and y is not None and x[0] == "y" and y[0] == "c" and isinstance(y[1], int):
                    s2 = st.copy()
                    st.facts = st.facts | {("val", x[1], y[1])}
                    s2.facts = s2.facts | {("notval", x[1], y[1])}
                    return [(True, st), (False, s2)]
        return Engine.split_bool(self, st, v)


def ranged(body):
    """the function tests a number against the largest exit code"""
    for i in body.reachable:
        for s in body.bbs[i].stmts:
            if s.k == "=" and s.rv[0] == "bin" and s.rv[1] in ("Le", "Lt", "Ge", "Gt") and any(str(o.val) in ("255", "256") for o in s.rv[2:4]):
                return True
        t = body.bbs[i].term
        if t.k == "call" and t.op.fn and re.search(r"Range(Inclusive)?(::)?<.*>::contains$|range::.*contains$", t.op.fn.full):
            return True
    return False


class Num(Spec):
    record = ()

    def on_stmt(self, eng, s, body, i, q, v, stack):
        pass

    def numeric(self, eng, st, f, vals, body, t):
        """conversions between integer types keep the value; None otherwise"""
        if f is None or not vals:
            return None
        if not re.search(r"::(from|into|try_from|try_into|clamp|min|max)>?$", f.full):
            return None
        v = eng.deref(st, vals[0]) if vals[0] is not None else None
        if v is None or v[0] not in ("y", "c"):
            return None
        ty = dest_ty(body, t)
        if v[0] == "y" and re.search(r"::clamp>?$", f.full):
            st.facts = st.facts | {("bounded", v[1])}
        if re.match(r"^[iu](8|16|32|64|size)$", ty) or ty.endswith("process::ExitCode"):
            return [(v, st)]
        if ty.startswith(RES + "<") or ty.startswith("core::result::Result<"):
            s2 = st.copy()
            return [(E(RES, "Ok", v), st), (E(RES, "Err", None), s2)]
        return None

    def async_value(self, eng, st, f, vals):
        """polling a value that stands for the finished future"""
        if f is not None and re.search(r"Future(>)?::poll$", f.full) and vals:
            v = eng.deref(st, vals[0]) if vals[0] is not None else None
            if v is not None and v[0] == "e":
                return [(E(POLL, "Ready", v), st)]
        return None


class Waits(Num):
    """states built from what the system says about a child"""
    cap = 500
    max_states = 400000

    def __init__(self, P, R, ps):
        super().__init__(P)
        self.R, self.ps = R, ps
        self.seen, self.bad = set(), {}
        self.record = ("nix::sys::wait::WaitStatus",)
        self.interesting = P.can_reach(lambda b, i, t: t.op.fn is not None and bool(WAITPID.search(t.op.fn.full)))

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is None:
            if dest_ty(body, t).endswith("ExitStatus"):
                return [(eng.sym(st, "exit"), st)]
            return None
        if WAITPID.search(f.full):
            y = eng.sym(st, "ws")
            st.facts = frozenset(x for x in st.facts if x[0] not in ("err", "val", "notval", "is"))
            s2 = st.copy()
            s2.facts = s2.facts | {("err",)}
            return [(E(RES, "Ok", y), st), (E(RES, "Err", None), s2)]
        if f.name.endswith("spawn_blocking"):
            out = []
            for rv, s in eng.call_value(st, vals[0], [], body, bb, t, stack):
                out.append((E(RES, "Ok", rv), s))
            return out + [(E(RES, "Err", None), st.copy())]
        return self.async_value(eng, st, f, vals) or self.numeric(eng, st, f, vals, body, t)

    def on_stmt(self, eng, s, body, i, q, v, stack):
        if q.k != "=" or q.rv[0] != "agg" or q.rv[1][0] != "adt" or q.rv[1][1] != self.ps or q.rv[1][2] != "Completed":
            return
        site = (body.id, i, q.line)
        code = v[3][0]
        ws = s.know.get(("ws",))
        ex = s.know.get(("exit",))
        err = ("err",) in s.facts
        if ws is None and ex is None and not err:
            return
        self.seen.add(site)
        why = None
        if err or (ws is not None and "Exited" not in ws):
            if code is None or code[0] != "c" or code[1] in (0, False):
                why = "a child that did not exit normally (%s) can get status 0" % ("wait failed" if err else "/".join(sorted(ws)))
        elif ws is not None:
            ok = code is not None and code[0] == "y" and code[1] == ("ws", ("v", "Exited"), 1)
            for x in s.facts:
                if x[0] == "val" and x[1] == ("ws", ("v", "Exited"), 1):
                    ok = ok or code == C(x[2])
            if not ok:
                why = "a child that exited gets a status other than its own"
        elif ex is not None and "ExitedWith" in ex:
            if code is not None and code[0] == "c" and code[1] == 0 and ("val", ("exit", ("v", "ExitedWith"), 0), 0) not in s.facts:
                why = "a builtin's exit status is replaced by 0"
            elif code is not None and code[0] == "y" and code[1][0] == "cut":
                why = "of a builtin's exit status only the low byte is kept, and 256 becomes a success"
            elif code is not None and code[0] == "y":
                self.R.count("builtin_status_kept")
        if why:
            self.bad.setdefault(site, (body, q.line, why))


class List(Num):
    """the && / || / ; loop"""
    max_states = 400000
    cap = 500

    def __init__(self, P, ps, job):
        super().__init__(P)
        self.ps, self.job = ps, job
        self.fields = [f for f, ty in P.adts[job]["variants"][0][2]]
        self.op = next(i for i, (f, ty) in enumerate(P.adts[job]["variants"][0][2]) if ty.endswith("ListOp"))
        self.lo = P.adts[job]["variants"][0][2][self.op][1]
        self.launch = {b.id for b in P.bodies.values() if b.kind == "fn" and b.name.endswith("process::job::Job::launch")}
        self.interesting = P.can_reach(lambda b, i, t: bool(set(P.targets(b, t)) & self.launch)) - self.launch
        # helpers of the loop: the functions that are handed one job
        hand = re.compile(r"^(&('\w+ )?(mut )?)?(alloc::boxed::Box<)?%s>?$" % re.escape(job))
        fns = {b.id for b in P.bodies.values() if b.kind == "fn" and any(hand.match(b.locals[1 + a]) for a in range(b.argc))}
        self.interesting = {x for x in self.interesting if x in fns or (P.bodies[x].kind != "fn" and P.bodies[x].parent and P.bodies[x].parent[1] in fns)}
        self.launches, self.bad, self.paths = set(), {}, 0

    def get(self, st, k):
        return next((x[1] for x in st.facts if x[0] == k), None)

    def put(self, st, k, v):
        st.facts = frozenset(x for x in st.facts if x[0] != k) | {(k, v)}

    def wanted(self, st):
        prev, last = self.get(st, "prev"), self.get(st, "last")
        if prev in (None, "None"):
            return True
        if last == "any":
            return None
        return (last in (None, "0")) == (prev == "And")

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is None:
            return None
        dt = dest_ty(body, t)
        if f.name.endswith("Iterator::next") and re.match(r"^core::option::Option<(&(mut )?)?%s>$" % re.escape(self.job), dt):
            out = []
            if self.get(st, "cur") is not None and self.get(st, "ran") is None and self.wanted(st):
                self.bad.setdefault(("skipped",), (body, t.line, "a command is skipped although its operator (%s) and the last status let it run" % self.get(st, "prev")))
            if self.get(st, "stopped"):
                pass
            s0 = st.copy()
            out.append((E(OPT, "None"), s0))
            for op in ("None", "And", "Or"):
                s = st.copy()
                self.put(s, "prev", self.get(st, "cur"))
                self.put(s, "cur", op)
                s.facts = frozenset(x for x in s.facts if x[0] not in ("ran",))
                fs = [None] * len(self.fields)
                fs[self.op] = E(self.lo, op)
                out.append((E(OPT, "Some", E(self.job, self.job.rsplit("::", 1)[-1], *fs)), s))
            return out
        if set(self.P.targets(body, t)) & self.launch:
            key = (body.id, bb)
            if self.get(st, "cur") is not None:
                self.launches.add(key)
                w = self.wanted(st)
                if w is False:
                    self.bad.setdefault(("ran",) + key, (body, t.line, "a command after %s is started although the last status was %s" % ("&&" if self.get(st, "prev") == "And" else "||", "zero" if self.get(st, "last") in (None, "0") else "not zero")))
                if self.get(st, "stopped"):
                    self.bad.setdefault(("stopped",) + key, (body, t.line, "the list goes on after a command was stopped"))
            self.put(st, "ran", 1)
            # a stop of a captured command is a status like another: nothing is left to continue
            captured = any(captures(self.P, b) for b in [body] + [x[0] for x in stack])
            out = []
            for var, val, last in (("Completed", C(0), "0"), ("Completed", C("nz"), "nz"), ("Running", None, "0"), ("Stopped", None, "any"), ("Err", None, "any")):
                s = st.copy()
                if var == "Stopped" and captured:
                    last = "nz"
                self.put(s, "last", last)
                if var == "Stopped" and not captured:
                    self.put(s, "stopped", 1)
                out.append((E(RES, "Err", None) if var == "Err" else E(RES, "Ok", E(self.ps, var, *([val, None] if var == "Completed" else [None, None] if var == "Stopped" else []))), s))
            return out
        if f.name.endswith("LispEngine::run"):
            s2 = st.copy()
            if self.get(st, "ran"):
                self.put(s2, "last", "nz")
            return [(E(RES, "Ok", None), st), (E(RES, "Err", None), s2)]
        if f.name.endswith("Job::has_process"):
            return [(C(True), st)]
        return self.async_value(eng, st, f, vals) or self.numeric(eng, st, f, vals, body, t)


def captures(P, b):
    """the body gives a command a place to capture its output"""
    for i in b.reachable:
        for s in b.bbs[i].stmts:
            if s.k == "=" and s.place.p and "captured_out" in (e[2] for e in s.place.p if e != "*" and e[0] == "f"):
                return True
    return False


class ListEngine(Base):
    def tested_locals(self, body):
        return frozenset()

    def is_mut_arg(self, t, a, vals):
        # the operator of a job is not changed by running it
        i = vals.index(a)
        op = t.args[i]
        ty = self.cur_local_ty(op.place) if op.is_place else None
        if ty and ty.endswith(self.spec.job):
            return False
        return Base.is_mut_arg(self, t, a, vals)


class Children(Num):
    """what a forked child exits with"""

    def __init__(self, P, ps):
        super().__init__(P)
        self.record = (ps,)
        self.ps = ps
        self.exits, self.bad = set(), {}
        self.interesting = P.can_reach(lambda b, i, t: t.op.fn is not None and re.search(r"unistd::fork$|process::exit$", t.op.fn.full)) & {b.id for b in P.bodies.values() if len(b.bbs) < 400 and re.search(r"process::|shell::", b.name)}

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is None:
            return None
        if re.search(r"unistd::fork$", f.full):
            s2, s3 = st.copy(), st.copy()
            s2.facts = s2.facts | {("child",)}
            return [(E(RES, "Ok", E("nix::unistd::ForkResult", "Parent", None)), st), (E(RES, "Ok", E("nix::unistd::ForkResult", "Child")), s2), (E(RES, "Err", None), s3)]
        if f.full == "std::process::exit" and ("child",) in st.facts:
            self.exits.add((body.id, bb))
            v = eng.deref(st, vals[0]) if vals[0] is not None else None
            is_ = next((x[2] for x in st.facts if x[:2] == ("is", self.ps)), None)
            how = None if v is not None else computed(self.P, body, t.args[0])
            if how:
                self.bad.setdefault((body.id, bb), (body, t.line, "a forked child exits with a number computed from its command's status (%s), which may turn a failure into a success" % how))
            if v == C(0) and is_ in (None, "Completed"):
                self.bad.setdefault((body.id, bb), (body, t.line, "a forked child exits with 0 whatever the status of its command"))
            return []
        return self.async_value(eng, st, f, vals) or self.numeric(eng, st, f, vals, body, t)


LOSSY = ("BitAnd", "Shr", "Shl", "Rem", "Div", "Sub", "Mul", "BitXor")


def computed(P, b, op, n=0):
    """the arithmetic a number went through that may map a non-zero number to zero"""
    if n > 12 or not op.is_place:
        return None
    l = op.place.l
    for j in b.reachable:
        for s in b.bbs[j].stmts:
            if s.k != "=" or s.place.l != l or s.place.p:
                continue
            rv = s.rv
            if rv[0] in ("use", "cast"):
                if rv[0] == "cast" and rv[2] in ("u8", "i8") and not ranged(b):
                    pass
                r = computed(P, b, rv[1], n + 1)
                if r:
                    return r
            elif rv[0] == "bin":
                c = [o.val for o in rv[2:4] if not o.is_place]
                if rv[1].replace("WithOverflow", "") in LOSSY:
                    return rv[1]
                if rv[1] in ("Gt", "Ge", "Lt", "Le", "Eq") and not (rv[1] == "Gt" and str(c and c[0]) == "0") and not (rv[1] == "Ge" and str(c and c[0]) == "1") and not (rv[1] == "Lt" and not rv[2].is_place and str(rv[2].val) == "0"):
                    return "compared with %s" % (c[0] if c else "another")
            elif rv[0] == "un" and rv[1] == "Not":
                return "inverted"
    for j, t in b.calls:
        if t.dest is not None and t.dest.l == l and not t.dest.p and t.op.fn is not None and t.args and re.search(r"::(from|into|min|clamp|unwrap_or|unwrap_or_default)>?$", t.op.fn.full):
            r = computed(P, b, t.args[0], n + 1)
            if r:
                return r
    return None


def grammar_ops(P, R, lo):
    """the operators of the grammar become the operators of the list"""
    rule = next((a for a in P.adts if a.endswith("::Rule") and P.adts[a]["ws"]), None)
    want = {"and_op": "And", "or_op": "Or"}
    for b in list(P.bodies.values()):
        if b.promoted is not None or rule is None or b.derived:
            continue
        if not any(s.k == "=" and s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][1] == lo for i in b.reachable for s in b.bbs[i].stmts):
            continue
        for i in b.reachable:
            t = b.bbs[i].term
            if t.k != "sw" or not t.op.is_place:
                continue
            d = next((s for s in b.bbs[i].stmts if s.k == "=" and s.place.l == t.op.place.l and s.rv[0] == "disc"), None)
            if d is None or base_ty(d.rv[2]) != rule:
                continue
            for v, tgt in t.targets:
                name = P.adts[rule]["variants"][int(v)][0]
                if name not in want:
                    continue
                # what each way from here does first: build the operator, or go on without it
                got, seen, work = set(), set(), [tgt]
                while work:
                    j = work.pop()
                    if j in seen:
                        continue
                    seen.add(j)
                    made = [s.rv[1][2] for s in b.bbs[j].stmts if s.k == "=" and s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][1] == lo]
                    if made:
                        got.add(made[-1])
                        continue
                    u = b.bbs[j].term
                    if u.k == "call" and u.op.fn is not None and (u.op.fn.name.endswith("Iterator::next")):
                        got.add(None)
                        continue
                    if u.k == "ret":
                        got.add(None)
                        continue
                    dd = next((s for s in b.bbs[j].stmts if u.k == "sw" and u.op.is_place and s.k == "=" and s.place.l == u.op.place.l and s.rv[0] == "disc"), None)
                    if dd is not None and base_ty(dd.rv[2]) == OPT:
                        # no command before the operator: nothing to note it on
                        work += [x for vv, x in u.targets if int(vv) == 1] or [u.otherwise]
                        continue
                    work += u.succ()
                R.count("grammar_operators")
                R.sample("%s: %s becomes %s" % (short(b.name), name, sorted(map(str, got))))
                if got - {want[name]}:
                    R.violation("operator:%s:%s" % (short(b.name), name), where(b, t.line), "the grammar's %s does not always become ListOp::%s (%s)" % (name, want[name], ", ".join("lost" if x is None else x for x in sorted(got - {want[name]}, key=str))))
    R.floor("grammar_operators", 2, "operators of the grammar translated")


class Shell(Num):
    """the status the shell itself exits with"""

    def __init__(self, P):
        super().__init__(P)
        self.eval = {b.id for b in P.bodies.values() if b.kind == "fn" and b.name.endswith("Shell::eval_str")}
        self.evals = set()

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is None:
            return None
        if set(self.P.targets(body, t)) & self.eval:
            if any(const_strs(self.P, body, bb, a) for a in t.args):
                return [(None, st)]
            self.evals.add((body.id, bb))
            y = eng.sym(st, "status")
            st.facts = frozenset(x for x in st.facts if x[0] not in ("done", "val", "notval"))
            s2 = st.copy()
            st.facts = st.facts | {("done", "Ok")}
            s2.facts = s2.facts | {("done", "Err")}
            return [(E(RES, "Ok", y), st), (E(RES, "Err", None), s2)]
        if f.full.endswith("Repl::run_interactive"):
            return []
        if re.search(r"Lines<.*::next$", f.full) or (f.name.endswith("Iterator::next") and "Lines" in f.full):
            s2, s3 = st.copy(), st.copy()
            s3.facts = frozenset(x for x in s3.facts if x[0] != "done") | {("done", "read")}
            return [(E(OPT, "Some", E(RES, "Ok", None)), st), (E(OPT, "None"), s2), (E(OPT, "Some", E(RES, "Err", None)), s3)]
        return self.async_value(eng, st, f, vals) or self.numeric(eng, st, f, vals, body, t)


def run(P, R, tier):
    R.explanation = ("Path simulation over MIR. (1) Every completed state built from waitpid's answer carries the exited child's own status, and never 0 for a killed, lost or unwaited child; one built from a builtin's answer keeps its status. "
                     "(2) The loop over the commands of a line, with the list operator, the outcome of each start and the last status as abstract values: a command runs exactly when its operator and the last status say so, never after a stop, and the line's status is the last one. "
                     "(3) A forked child exits with its command's status. (4) The shell's own exit status is that of the last line.")
    ps, lo, job = ps_adt(P, "state::ProcessState"), ps_adt(P, "state::ListOp"), ps_adt(P, "job::Job")
    # ---- (1)
    sites = {}
    for b in P.bodies.values():
        if b.promoted is not None:
            continue
        for i in b.reachable:
            for s in b.bbs[i].stmts:
                if s.k == "=" and s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][1] == ps and s.rv[1][2] == "Completed":
                    sites[(b.id, i, s.line)] = (b, s)
    sp = Waits(P, R, ps)
    roots = {b.id for b in P.bodies.values() if b.promoted is None and any((t.op.fn is not None and WAITPID.search(t.op.fn.full)) or (t.op.fn is None and dest_ty(b, t).endswith("ExitStatus")) for i, t in b.calls)}
    roots |= {P.bodies[r].parent[1] for r in list(roots) if P.bodies[r].kind == "closure" and P.bodies[r].parent}
    for r in sorted(roots, key=str):
        b = P.bodies[r]
        en = Base(P, sp)
        en.run(r, [None] * (b.argc if b.kind != "coroutine" else 0), State(), [])
        R.count("abstract_states", en.stats["states"])
    R.counts["status_sites"] = len(sites)
    R.counts["status_sites_decided"] = len(sp.seen)
    for k, (b, line, why) in sp.bad.items():
        R.violation("status:%s:%s" % (short(b.name), why), where(b, line), why)
    for k, (b, s) in sites.items():
        if k in sp.seen:
            continue
        o = s.rv[2][0]
        R.sample("%s:%s completed with %s, no child involved" % (short(b.name), s.line, o))
        if o.val == 0 and not no_process(P, b):
            R.violation("made-up:%s" % short(b.name), where(b, s.line), "a completed state with status 0 is built without a child or builtin having reported it")
    R.floor("status_sites_decided", 8, "states built from a child's or a builtin's status")
    R.floor("builtin_status_kept", 1, "builtin statuses kept")
    # ---- (2)
    n = 0
    for b in list(P.bodies.values()):
        if b.promoted is not None or b.kind not in ("fn", "coroutine"):
            continue
        if not any(t.op.fn and t.op.fn.name.endswith("Iterator::next") and re.match(r"^core::option::Option<(&(mut )?)?%s>$" % re.escape(job), dest_ty(b, t)) for i, t in b.calls):
            continue
        ls = List(P, ps, job)
        if not any(set(P.targets(b, t)) & (ls.launch | ls.interesting) for i, t in b.calls) or not any(lo in (x or "") for x in b.locals):
            continue
        n += 1
        en = ListEngine(P, ls)
        res = en.run(b.id, [None] * (b.argc if b.kind != "coroutine" else 0), State(), [])
        R.count("abstract_states", en.stats["states"])
        R.counts["list_starts"] = R.counts.get("list_starts", 0) + len(ls.launches)
        for rv, facts, know in res:
            last = next((x[1] for x in facts if x[0] == "last"), None)
            if rv is None or rv[0] != "e" or rv[2] != "Ok":
                continue
            R.count("line_results")
            v = rv[3][0]
            if last in ("0", "nz") and v is not None and v[0] == "c" and (v[1] == 0) != (last == "0"):
                ls.bad.setdefault(("result",), (b, b.line, "the status of a line is %s although its last command's status is %s" % ("zero" if v[1] == 0 else "not zero", "zero" if last == "0" else "not zero")))
            if last in ("0", "nz") and (v is None or v[0] != "c"):
                R.count("line_results_unknown")
        for k, (bb_, line, why) in ls.bad.items():
            R.violation("list:%s:%s" % (short(bb_.name), why), where(bb_, line), why)
    R.counts["list_loops"] = n
    R.floor("list_loops", 1, "loops over the commands of a line")
    R.floor("list_starts", 2, "places where the loop starts a command")
    R.floor("line_results", 2, "results of a line")
    grammar_ops(P, R, lo)
    # ---- (3)
    for b in list(P.bodies.values()):
        if b.promoted is None and any(t.op.fn and re.search(r"unistd::fork$", t.op.fn.full) for i, t in b.calls):
            cs = Children(P, ps)
            en = Base(P, cs)
            en.run(b.id, [None] * (b.argc if b.kind != "coroutine" else 0), State(), [])
            R.count("abstract_states", en.stats["states"])
            R.count("forks")
            R.counts["child_exits"] = R.counts.get("child_exits", 0) + len(cs.exits)
            for k, (bb_, line, why) in cs.bad.items():
                R.violation("child:%s" % short(bb_.name), where(bb_, line), why)
    R.floor("forks", 3, "fork sites")
    # ---- (4)
    for b in list(P.bodies.values()):
        if b.promoted is not None or b.kind != "coroutine" or not b.locals[0].endswith("process::ExitCode"):
            continue
        sh = Shell(P)
        if not any(set(P.targets(b, t)) & sh.eval for i, t in b.calls):
            continue
        en = Base(P, sh)
        for rv, facts, know in en.run(b.id, [], State(), []):
            done = next((x[1] for x in facts if x[0] == "done"), None)
            R.count("exit_paths")
            R.sample("%s: %s -> %s" % (short(b.name), done, rv))
            zero = rv is not None and (rv == C(0) or (rv[0] == "e" and rv[3] == (C(0),)))
            if rv is not None and rv[0] == "y" and rv[1][0] == "cut":
                R.violation("exit:%s:cut" % short(b.name), where(b), "the shell exits with the low byte of the last command's status, and 256 becomes a success")
            elif done == "Ok" and not (rv is not None and rv[0] == "y" and rv[1] == ("status",)):
                R.violation("exit:%s:Ok" % short(b.name), where(b), "the shell's exit status is not that of the last command")
            if done in ("Err", "read") and zero:
                R.violation("exit:%s:Err" % short(b.name), where(b), "the shell exits with 0 although its last command failed to run")
        R.count("exit_evaluations", len(sh.evals))
    R.floor("exit_evaluations", 2, "command evaluations whose status becomes the shell's")


def no_process(P, b):
    """built only where the job has no process"""
    class S(Num):
        record = (OPT,)
        bad = False

        def on_stmt(self, eng, s, body, i, q, v, stack):
            if q.k == "=" and q.rv[0] == "agg" and q.rv[1][0] == "adt" and q.rv[1][1].endswith("ProcessState") and q.rv[1][2] == "Completed":
                if ("is", OPT, "None") not in s.facts:
                    self.bad = True

        def on_call(self, eng, st, body, bb, t, vals, stack):
            return None
    sp = S(P)
    en = Base(P, sp)
    en.run(b.id, [None] * (b.argc if b.kind != "coroutine" else 0), State(), [])
    return not sp.bad
