"""Redirections go to the files they name, as they are written, before the command runs."""
from rules.common import *
from vpa.paths import POLL, OPT

MAP = {"stdout_redirect_direction_out": "StdoutOutput", "stdout_redirect_direction_append": "StdoutAppend",
       "stderr_redirect_direction_out": "StderrOutput", "stderr_redirect_direction_append": "StderrAppend",
       "stdouterr_redirect_direction_out": "StdouterrOutput", "stdouterr_redirect_direction_append": "StdouterrAppend",
       "stdin_redirect_direction_in": "Input"}
FD = {"Input": {"infile"}, "StdoutOutput": {"outfile"}, "StdoutAppend": {"outfile"}, "StderrOutput": {"errfile"}, "StderrAppend": {"errfile"},
      "StdouterrOutput": {"outfile", "errfile"}, "StdouterrAppend": {"outfile", "errfile"}}
MODE = {}
for v in FD:
    MODE[v] = ({"read"}, {"write", "append", "truncate", "create", "create_new"}) if v == "Input" else \
              ({"create", "append"}, {"truncate", "create_new"}) if v.endswith("Append") else ({"write", "create", "truncate"}, {"append", "create_new"})
OO = re.compile(r"^(std::fs|tokio::fs::open_options)::(OpenOptions|Options)::(new|read|write|append|truncate|create|create_new|open)$")
OPENF = re.compile(r"^(std::fs::File::(create|open|create_new|options)|tokio::fs::file::File::(create|open|options))$")
EXEC = re.compile(r"^(nix::unistd::(execve?|execvpe?|fexecve)|libc::.*::(execve|execvp|execv))$")
DUP = re.compile(r"^(libc::.*::dup2|nix::unistd::dup2(_stdin|_stdout|_stderr|_raw)?)$")
NAMES = ("infile", "outfile", "errfile")


def is_open(b, i, t):
    return t.op.fn is not None and (bool(OPENF.match(t.op.fn.full)) or (bool(OO.match(t.op.fn.full)) and t.op.fn.full.endswith("::open")))


class Eng(Engine):
    """records which variants the path has tested"""
    def tested_locals(self, body):
        return frozenset()

    def rvalue(self, st, rv, body):
        v = Engine.rvalue(self, st, rv, body)
        if v is None and rv[0] == "disc" and base_ty(rv[2]) in self.spec.record:
            return ("d", None, base_ty(rv[2]))
        if rv[0] == "bin" and rv[1] in ("Lt", "Le", "Gt", "Ge"):
            a, b = self.operand(st, rv[2], body), self.operand(st, rv[3], body)
            a, b = (self.deref(st, x) if x is not None else None for x in (a, b))
            if a is not None and b is not None and a[0] == b[0] == "c" and all(type(x[1]) is int for x in (a, b)):
                sg = lambda x: x - (1 << 32) if x >= 1 << 31 else x
                x, y = sg(a[1]), sg(b[1])
                return C({"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[rv[1]])
        return v

    def split_variant(self, st, v, adt):
        out = Engine.split_variant(self, st, v, adt)
        if adt in self.spec.record:
            old = next((f[2] for f in st.facts if f[:2] == ("is", adt)), None)
            if old is not None and "fresh" not in self.spec.__dict__:
                keep = [(x, s) for x, s in out if x == old]
                if keep:
                    return keep           # the same redirection is looked at again
            for var, s in out:
                s.facts = frozenset(f for f in s.facts if f[:2] != ("is", adt)) | {("is", adt, var)}
        return out

    def spec_stmt(self, s, body, i, q, v, stack):
        self.spec.on_stmt(self, s, body, i, q, v, stack)

    def split_bool(self, st, v):
        if v is not None and v[0] == "eq":
            a, b = self.deref(st, v[1]), self.deref(st, v[2])
            if a is not None and b is not None and "y" in (a[0], b[0]) and {a[0], b[0]} <= {"y", "c"}:
                k = frozenset((a[1], b[1]))
                if ("eq", k) in st.facts:
                    return [(True, st)]
                if ("neq", k) in st.facts:
                    return [(False, st)]
                s2 = st.copy()
                st.facts = st.facts | {("eq", k)}
                s2.facts = s2.facts | {("neq", k)}
                return [(True, st), (False, s2)]
        return Engine.split_bool(self, st, v)


class Files(Spec):
    """how each kind of redirection is opened, and which descriptor it becomes"""
    cap = 400

    piped = False

    def __init__(self, P, rd):
        super().__init__(P)
        self.rd, self.record = rd, (rd,)
        self.opened, self.given, self.bad = {}, {}, {}
        self.interesting = P.can_reach(is_open)

    def variant(self, st):
        return next((f[2] for f in st.facts if f[:2] == ("is", self.rd)), None)

    def flag(self, st, name, val):
        st.facts = frozenset(f for f in st.facts if f[:2] != ("flag", name)) | ({("flag", name)} if val else set())

    def on_stmt(self, eng, s, body, i, q, v, stack):
        if q.k != "=" or not q.place.p:
            return
        n = q.place.fields()
        if n and n[-1] in NAMES and v is not None and v[0] == "y" and v[1][0] == "file":
            s.facts = frozenset(f for f in s.facts if f[:2] != ("gave", n[-1])) | {("gave", n[-1], v[1][1])}
            if n[-1] == "outfile" and self.piped and ("piped", False) not in s.facts:
                s.facts = s.facts | {("over",)}
            self.given.setdefault(v[1][1], {}).setdefault(n[-1], (body, q.line))
            if n[-1] not in FD.get(v[1][1], ()):
                self.bad.setdefault(("fd", v[1][1], n[-1]), (body, q.line, "the file of a %s redirection becomes the command's %s" % (v[1][1], n[-1])))

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is None:
            return None
        if f.full.endswith("Iterator::next") or f.name.endswith("Iterator::next"):
            if self.rd in dest_ty(body, t):
                st.facts = frozenset(x for x in st.facts if x[0] not in ("is", "flag"))
                return [(E(OPT, "None"), st.copy()), (E(OPT, "Some", None), st)]
            return None
        m = OO.match(f.full)
        if (m and m.group(3) == "new") or f.full.endswith("::options"):
            st.facts = frozenset(x for x in st.facts if x[0] != "flag")
            return [(None, st)]
        if m and m.group(3) != "open":
            a = t.args[1] if len(t.args) > 1 else None
            v = vals[1] if len(vals) > 1 else None
            out = []
            for val, s in eng.split_bool(st, v):
                self.flag(s, m.group(3), val)
                out.append((vals[0], s))
            return out
        if is_open(body, bb, t):
            var = self.variant(st)
            if var is None:
                return None
            sh = f.full.rsplit("::", 1)[-1]
            fl = {x[1] for x in st.facts if x[0] == "flag"}
            if not m:
                fl = {"create": {"write", "create", "truncate"}, "open": {"read"}, "create_new": {"write", "create_new"}}.get(sh, fl)
            if "append" in fl:
                fl = fl | {"write"}
            need, never = MODE[var]
            self.opened.setdefault(var, set()).add((body.id, t.line))
            if not need <= fl or fl & never:
                self.bad.setdefault(("mode", var), (body, t.line, "a %s redirection is opened for %s" % (var, "+".join(sorted(fl)) or "nothing")))
            st.facts = frozenset(x for x in st.facts if x[0] != "flag")
            s2 = st.copy()
            s2.facts = s2.facts | {("failed",)}
            st.facts = frozenset(f for f in st.facts if f[0] != "want" or f[1] not in FD[var]) | {("want", n, var) for n in FD[var]}
            y = ("y", ("file", var))
            if t.op.fn.full.startswith("tokio"):
                return [(None, st)]
            return [(E(RES, "Ok", y), st), (E(RES, "Err", None), s2)]
        sh = f.full.rsplit("::", 1)[-1]
        v = eng.deref(st, vals[0]) if vals and vals[0] is not None else None
        if f.full == "core::mem::replace" and len(vals) == 2:
            pl, at = None, t.args[0].place.l if t.args[0].is_place else None
            for _ in range(4):
                pl = next((s.rv[1] for j in body.reachable for s in body.bbs[j].stmts if s.k == "=" and s.place.l == at and not s.place.p and s.rv[0] == "ref"), None)
                if pl is None or pl.fields():
                    break
                at = pl.l
            if pl is not None and pl.fields() and pl.fields()[-1] in NAMES:
                old = eng.read(st, pl)

                class Q:
                    k, place, line = "=", pl, t.line
                self.on_stmt(eng, st, body, bb, Q, eng.deref(st, vals[1]) if vals[1] is not None else None, stack)
                return [(old, st)]
            return None
        if f.full == "nix::unistd::close" or f.full.endswith("::close"):
            if v is not None and v[0] == "y" and v[1][0] == "ctx":
                st.facts = st.facts | {("closed", v[1][1])}
            return [(E(RES, "Ok", None), st)]
        if v is not None and v[0] == "y" and v[1][0] == "file":
            if sh in ("into_raw_fd", "as_raw_fd", "into", "from", "as_fd") or "Fd>::from" in f.full:
                return [(v, st)]
            if sh in ("try_clone", "dup", "try_clone_to_owned"):
                return [(E(RES, "Ok", v), st), (E(RES, "Err", None), st.copy())]
        return None


class FilesEng(Eng):
    def split_bool(self, st, v):
        out = Eng.split_bool(self, st, v)
        if v is not None and v[0] == "y" and v[1] == ("piped",):
            for b, s in out:
                s.facts = s.facts | {("piped", b)}
        return out

    def read(self, st, place):
        v = Eng.read(self, st, place)
        n = place.fields()
        if v is None and n and n[-1] in NAMES and not any(f[:2] == ("gave", n[-1]) for f in st.facts):
            return ("y", ("ctx", n[-1]))
        return v


class Order(Spec):
    """the redirections are applied, without an error, before the command is started"""
    record = ()

    def __init__(self, P, appliers, start):
        super().__init__(P)
        self.appliers, self.start = appliers, start
        self.interesting = P.can_reach(lambda b, i, t: start(b, i, t) or bool(set(P.targets(b, t)) & appliers), stop=appliers)
        self.seen, self.bad = set(), {}

    def on_stmt(self, *a):
        pass

    def on_call(self, eng, st, body, bb, t, vals, stack):
        if set(self.P.targets(body, t)) & self.appliers:
            s2 = st.copy()
            st.facts = st.facts | {"applied"}
            s2.facts = s2.facts - {"applied"}
            return [(E(RES, "Ok", None), st), (E(RES, "Err", None), s2)]
        if self.start(body, bb, t):
            self.seen.add((body.id, bb))
            if "applied" not in st.facts:
                self.bad.setdefault((body.id, bb), (body, t.line, "a command is started before its redirections were opened, or although one could not be opened: " + stack_str(stack, body, t.line)))
            return [(None, st)]
        return None


class Slots(Order):
    """the files of the redirections, and no other descriptor, are handed to the command, and its error output is not left to the next one"""
    cap = 4000
    max_states = 400000

    def __init__(self, P, appliers, start, handers):
        Order.__init__(self, P, appliers, start)
        self.handers = handers
        self.interesting = self.interesting | P.can_reach(lambda b, i, t: bool(set(P.targets(b, t)) & handers), stop=appliers)
        self.handed = set()

    def on_stmt(self, eng, s, body, i, q, v, stack):
        if q.k == "=" and q.place.p:
            n = q.place.fields()
            if n and n[-1] in NAMES and "Context" in (body.locals[q.place.l] or ""):
                tag = v[1] if v is not None and v[0] == "y" and v[1][0] in ("redir", "ctx") else ("other", n[-1])
                s.facts = frozenset(f for f in s.facts if f[:2] != ("slot", n[-1])) | {("slot", n[-1], tag)}

    def on_call(self, eng, st, body, bb, t, vals, stack):
        tg = set(self.P.targets(body, t))
        if tg & self.appliers:
            s2 = st.copy()
            s2.facts = frozenset(f for f in s2.facts if f != "applied")
            out = [(E(RES, "Err", None), s2)]
            for m in range(8):
                s = st.copy()
                red = [n for k, n in enumerate(NAMES) if m >> k & 1]
                s.facts = frozenset(f for f in s.facts if f[0] != "slot") | {"applied"} | {("redir", n) for n in red} | {("slot", n, ("redir", n) if n in red else ("plain", n)) for n in NAMES}
                for k in list(s.env):
                    if any(e != "*" and e[0] == "f" and e[2] in NAMES for e in k[1] if isinstance(e, tuple) and len(e) > 2):
                        del s.env[k]
                out.append((E(RES, "Ok", None), s))
            return out
        if tg & self.handers:
            self.handed.add((body.id, bb))
            for n, v in zip(NAMES, vals[1:4]):
                v = eng.deref(st, v) if v is not None else None
                if ("redir", n) in st.facts and v != ("y", ("redir", n)):
                    self.bad.setdefault(("hand", n), (body, t.line, "a command whose %s was redirected is given another descriptor" % {"infile": "input", "outfile": "output", "errfile": "error output"}[n]))
            return [(None, st)]
        return None


class SlotEng(Eng):
    def read(self, st, place):
        n = place.fields()
        if n and n[-1] in NAMES:
            tag = next((f[2] for f in st.facts if isinstance(f, tuple) and f[:2] == ("slot", n[-1])), ("ctx", n[-1]))
            if tag[0] in ("redir", "ctx"):
                return ("y", tag)
            return None
        return Eng.read(self, st, place)

    def split_bool(self, st, v):
        if v is not None and v[0] == "eq":
            a, b = self.deref(st, v[1]), self.deref(st, v[2])
            for x, y in ((a, b), (b, a)):
                if x is not None and y is not None and x[0] == "y" and x[1][0] == "redir" and y[0] == "c":
                    return [(False, st)]          # a file just opened is none of the standard descriptors
        return Eng.split_bool(self, st, v)


class Child(Spec):
    """the child's descriptors 0, 1 and 2 are the ones the process was given"""
    record = ()
    cap = 4000
    max_states = 300000

    def __init__(self, P):
        super().__init__(P)
        self.interesting = P.can_reach(lambda b, i, t: t.op.fn is not None and (EXEC.match(t.op.fn.full) or DUP.match(t.op.fn.full) or t.op.fn.full == "nix::unistd::close"))
        self.bad, self.execs, self.dups = {}, set(), set()

    def on_stmt(self, *a):
        pass

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is None:
            return None
        if DUP.match(f.full):
            v = eng.deref(st, vals[0]) if vals[0] is not None else None
            src = v[1][1] if v is not None and v[0] == "y" and v[1][0] == "io" else None
            d = {"dup2_stdin": 0, "dup2_stdout": 1, "dup2_stderr": 2}.get(f.full.rsplit("::", 1)[-1])
            if d is None and len(vals) > 1:
                d = vals[1][1] if vals[1] is not None and vals[1][0] == "c" else t.args[1].val
            self.dups.add((body.id, bb))
            if src is None or ("stdin", "stdout", "stderr")[d if d in (0, 1, 2) else 0] != src:
                self.bad.setdefault(("dup", body.id, bb), (body, t.line, "descriptor %s of the child becomes the process's %s" % (d, src)))
            for x in st.facts:
                if x[0] == "closed" and x[1] != src and src and ("neq", frozenset((("io", x[1]), ("io", src)))) not in st.facts:
                    self.bad.setdefault(("closed", body.id, bb), (body, t.line, "the descriptor of %s may have been closed as that of %s before" % (src, x[1])))
            s2 = st.copy()
            s2.facts = s2.facts | {("dupfail", d)}
            st.facts = frozenset(x for x in st.facts if x != ("dupfail", d)) | {("dup", d)}
            if dest_ty(body, t).startswith("core::result::Result"):
                return [(E(RES, "Ok", None), st), (E(RES, "Err", None), s2)]
            return [(C(d), st), (C(-1), s2)]
        if f.full == "nix::unistd::close" or f.full.endswith("::close"):
            v = eng.deref(st, vals[0]) if vals[0] is not None else None
            if v is not None and v[0] == "y" and v[1][0] == "io":
                st.facts = st.facts | {("closed", v[1][1])}
            return [(E(RES, "Ok", None), st), (E(RES, "Err", None), st.copy())]
        if EXEC.match(f.full):
            self.execs.add((body.id, bb))
            for x in sorted(y for y in st.facts if isinstance(y, tuple) and y[0] == "dupfail"):
                self.bad.setdefault(("dupfail", x[1]), (body, t.line, "a command is executed although its descriptor %s could not be installed" % x[1]))
            for d, n in enumerate(("stdin", "stdout", "stderr")):
                if ("dup", d) not in st.facts and ("eq", frozenset((("io", n), d))) not in st.facts:
                    self.bad.setdefault(("exec", d), (body, t.line, "a command is executed without its %s" % n))
            return []
        return None


class Restore(Spec):
    """the context's descriptors after a job are those before it"""
    record = ()
    cap = 400

    def __init__(self, P, core):
        super().__init__(P)
        self.core = core
        self.calls, self.bad = 0, {}
        # constructors of the futures
        self.interesting = {b.id for b in P.bodies.values() if b.kind == "fn" and b.id in core["fn"]}

    def on_stmt(self, eng, s, body, i, q, v, stack):
        if q.k == "=" and q.place.p:
            n = q.place.fields()
            if n and n[-1] in NAMES:
                s.facts = s.facts - {("dirty", n[-1])}
                if v is None or v[0] != "y" or v[1] != ("ctx", n[-1]):
                    s.facts = s.facts | {("dirty", n[-1])}

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is None:
            return None
        v = eng.deref(st, vals[0]) if vals and vals[0] is not None else None
        hit = bool(set(self.P.targets(body, t)) & self.core["sync"]) or (re.search(r"Future(>)?::poll$", f.full) and v is not None and v[0] == "cor" and v[1] in self.core["cor"])
        if hit:
            self.calls += 1
            st.facts = st.facts | {("dirty", n) for n in NAMES} | {"launched"}
            s2 = st.copy()
            val = lambda x: E(POLL, "Ready", x) if re.search(r"poll$", f.full) else x
            return [(val(E(RES, "Ok", None)), st), (val(E(RES, "Err", None)), s2)]
        return None


class RestoreEng(Eng):
    def read(self, st, place):
        v = Engine.read(self, st, place)
        n = place.fields()
        if v is None and n and n[-1] in NAMES and ("dirty", n[-1]) not in st.facts:
            return ("y", ("ctx", n[-1]))
        return v


def labels(b, adt):
    """for every block, the values of the last switch over adt on the ways to it"""
    lab = {0: {"?"}}
    work = [0]
    sw = {}
    for i in b.reachable:
        bb = b.bbs[i]
        if bb.term.k == "sw" and bb.term.op.is_place and not bb.term.op.place.p:
            for s in bb.stmts:
                if s.k == "=" and s.rv[0] == "disc" and s.place.l == bb.term.op.place.l and base_ty(s.rv[2]) == adt:
                    sw[i] = bb.term
    while work:
        i = work.pop()
        outs = [(x, lab[i]) for x in b.bbs[i].term.succ()]
        if i in sw:
            outs = [(tgt, {int(v)}) for v, tgt in sw[i].targets] + [(sw[i].otherwise, {"other"})]
        for x, ls in outs:
            if x not in lab or not ls <= lab[x]:
                lab[x] = lab.get(x, set()) | ls
                work.append(x)
    return lab, sw


def holds_io(P, ty):
    """a process: something with the three descriptors"""
    d = P.adts.get(base_ty(ty))
    return bool(d and not d["enum"] and {"stdin", "stdout", "stderr"} <= {f for f, _ in d["variants"][0][2]})


def run(P, R, tier):
    R.explanation = ("(1) Every construction of a redirection while parsing is matched with the grammar rule tested on the way to it. (2) Path simulation of every function that opens a redirection: the flags each kind is opened with, and the field of the context its descriptor is stored in. "
                     "(3) On every path to the start of a command (exec, a builtin's function, fork) the redirections have been applied and none failed. (4) On every path to exec the child's descriptors 0, 1 and 2 are those of the process, and none was closed before it was installed. "
                     "(5) After a job the context's descriptors are those before it.")
    rd = next(a for a in P.adts if a.endswith("redirect::Redirect") and P.adts[a]["ws"])
    rule = next(a for a in P.adts if a.endswith("parser::Rule") and P.adts[a]["ws"])
    rn = {int(d): n for n, d, _ in P.adts[rule]["variants"]}
    # ---- (1)
    found = set()
    for b in P.bodies.values():
        if b.promoted is not None or rd in (b.name or "") and False:
            continue
        lab = sw = None
        for i in b.reachable:
            sites = []
            for s in b.bbs[i].stmts:
                if s.k != "=":
                    continue
                if s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][1] == rd:
                    sites.append((s.rv[1][2], s.line))
                for o in rv_ops(s.rv):
                    if o.k == "fn" and o.fn is not None and o.fn.full.startswith(rd + "::"):
                        sites.append((o.fn.full.rsplit("::", 1)[-1], s.line))
            t = b.bbs[i].term
            if t.k == "call":
                for o in t.args:
                    if o.k == "fn" and o.fn is not None and o.fn.full.startswith(rd + "::"):
                        sites.append((o.fn.full.rsplit("::", 1)[-1], t.line))
            for var, line in sites:
                if var not in FD:
                    continue
                if lab is None:
                    lab, sw = labels(b, rule)
                if not sw:
                    continue
                got = {rn.get(x, x) for x in lab.get(i, ())}
                R.count("parsed_redirections")
                want = {k for k, v in MAP.items() if v == var}
                R.sample("%s:%s %s from %s" % (short(b.name), line, var, "/".join(map(str, sorted(got, key=str)))))
                found |= {(g, var) for g in got}
                if not got <= want:
                    R.violation("parse:%s:%s" % (var, ",".join(sorted(map(str, got - want)))), where(b, line), "%s is read as %s" % ("/".join(sorted(map(str, got - want))), var))
    for k, v in MAP.items():
        if (k, v) not in found and R.counts.get("parsed_redirections"):
            R.violation("unparsed:%s" % k, rule, "nothing makes a %s redirection of %s" % (v, k))
    R.floor("parsed_redirections", 7, "redirections made by the parser")
    # ---- (2)
    fs = Files(P, rd)
    takes = lambda b: any(rd in b.locals[1 + a] for a in range(b.argc)) if b.kind != "coroutine" else False
    openers = {b.id for b in P.bodies.values() if b.promoted is None and b.kind == "fn" and b.id in fs.interesting and takes(b)}
    for r in sorted(openers, key=str):
        b = P.bodies[r]
        args = [None] * b.argc
        applies = any("Context" in l for l in b.locals[1:1 + b.argc])
        bools = [a for a in range(b.argc) if b.locals[1 + a] == "bool"]
        fs.piped = applies and len(bools) == 1
        if fs.piped:
            args[bools[0]] = ("y", ("piped",))
        en = FilesEng(P, fs)
        for rv, facts, know in en.run(r, args, State(), []):
            if not applies or rv is None or rv[0] != "e" or rv[2] != "Ok":
                continue
            R.count("applied_paths")
            if ("failed",) in facts:
                R.violation("ignored:%s" % short(b.name), where(b), "a redirection that cannot be opened is passed over and the command goes on without it")
            if ("over",) in facts and not facts & {("closed", "outfile"), ("piped", False)}:
                R.violation("pipe:%s" % short(b.name), where(b), "the pipe a redirection replaces stays open in the shell, and the next command never sees its end")
            gave = {f[1]: f[2] for f in facts if f[0] == "gave"}
            for f in sorted(x for x in facts if x[0] == "want"):
                if gave.get(f[1]) != f[2]:
                    R.violation("last:%s:%s" % (short(b.name), f[1]), where(b), "a command's %s is not the file of the last redirection of it (%s, but %s is used)" % (f[1], f[2], gave.get(f[1], "none")))
        R.count("abstract_states", en.stats["states"])
    R.counts["opening_functions"] = len(openers)
    R.counts["kinds_opened"] = len(fs.opened)
    R.floor("opening_functions", 1, "functions that open redirections")
    for k, (b, line, why) in fs.bad.items():
        R.violation("open:" + ":".join(map(str, k)), where(b, line), why)
    if openers:
        for v in FD:
            if v not in fs.opened:
                R.violation("unopened:" + v, "-", "no path opens the file of a %s redirection" % v)
            miss = FD[v] - set(fs.given.get(v, {}))
            if miss:
                R.violation("unused:%s" % v, "-", "the file of a %s redirection never becomes the command's %s" % (v, "/".join(sorted(miss))))
            R.sample("%s -> %s" % (v, ", ".join("%s (%s:%s)" % (n, short(w[0].name), w[1]) for n, w in sorted(fs.given.get(v, {}).items()))))
    # ---- (3)
    appliers = {r for r in openers if any("Context" in l for l in P.bodies[r].locals[1:1 + P.bodies[r].argc])}
    R.counts["appliers"] = len(appliers)
    start = lambda b, i, t: (t.op.fn is not None and (bool(EXEC.match(t.op.fn.full)) or t.op.fn.full == "nix::unistd::fork")) or (t.op.fn is None and dest_ty(b, t).endswith("ExitStatus"))
    low, done = [], set()
    todo = {c[0] for f in appliers for c in P.callers.get(f, []) if c[1] == "call"}
    for _ in range(4):
        nxt = set()
        for r in todo - done:
            done.add(r)
            if r in P.can_reach(start, stop=appliers):
                low.append(r)
            else:
                nxt |= {c[0] for c in P.callers.get(r, []) if c[1] == "call"}
        todo = nxt
    seen = set()
    for r in sorted(low, key=str):
        b = P.bodies[r]
        o = Order(P, appliers, start)
        en = Eng(P, o)
        en.run(r, [None] * (b.argc if b.kind != "coroutine" else 0), State(), [])
        seen |= o.seen
        R.count("abstract_states", en.stats["states"])
        for k, (bb_, line, why) in o.bad.items():
            R.violation("order:%s" % short(bb_.name), where(bb_, line), why)
    R.counts["command_starts"] = len(seen)
    handers = {b.id for b in P.bodies.values() if b.kind == "fn" and b.promoted is None and b.argc == 4 and b.locals[2:5] == ["i32"] * 3 and re.search(r"mut .*JobProcess$", b.locals[1])}
    R.counts["handers"] = len(handers)
    nh = 0
    for r in sorted(low, key=str):
        b = P.bodies[r]
        sl = Slots(P, appliers, start, handers)
        en = SlotEng(P, sl)
        res = en.run(r, [None] * (b.argc if b.kind != "coroutine" else 0), State(), [])
        R.count("abstract_states", en.stats["states"])
        nh += len(sl.handed)
        for k, (bb_, line, why) in sl.bad.items():
            R.violation("%s:%s:%s" % (k[0], short(bb_.name), k[1]), where(bb_, line), why)
        for rv, facts, know in res:
            if rv is not None and rv[0] == "e" and rv[2] == "Ok" and "applied" in facts:
                R.count("started_paths")
                tag = next((f[2] for f in facts if isinstance(f, tuple) and f[:2] == ("slot", "errfile")), None)
                if tag is not None and tag[0] != "ctx":
                    if ("redir", "errfile") in facts or tag[0] == "other":
                        R.violation("next:%s" % short(b.name), where(b), "the error output of one command of a pipeline stays for the next one")
    R.counts["handed_over"] = nh
    R.floor("handed_over", 1, "places where a command gets its descriptors")
    for b in P.bodies.values():
        if b.promoted is None:
            for i, t in b.calls:
                if start(b, i, t) and not (t.op.fn is not None and t.op.fn.full == "nix::unistd::fork") and any(holds_io(P, x) for x in b.locals[1:1 + b.argc]):
                    R.count("execution_sites")
                    if (b.id, i) not in seen:
                        R.violation("bypass:%s" % short(b.name), where(b, t.line), "a command is started on a way that applies no redirections")
    R.counts["launchers"] = len(low)
    R.floor("launchers", 1, "functions that apply redirections and start a command")
    R.floor("command_starts", 3, "starts of a command after its redirections")
    # ---- (4)
    ch = Child(P)
    rx = P.can_reach(lambda b, i, t: t.op.fn is not None and bool(EXEC.match(t.op.fn.full)))
    rdup = P.can_reach(lambda b, i, t: t.op.fn is not None and bool(DUP.match(t.op.fn.full)))
    both = rx & rdup
    low = {r for r in both if not any(e[0] in both for e in P.edges(r)) and P.bodies[r].promoted is None}
    n = 0
    for r in sorted(low, key=str):
        b = P.bodies[r]
        args = [None] * b.argc
        for a in range(b.argc):
            adt = base_ty(b.locals[1 + a])
            d = P.adts.get(adt)
            if d and not d["enum"]:
                fn = [f for f, ty in d["variants"][0][2]]
                if {"stdin", "stdout", "stderr"} <= set(fn):
                    args[a] = E(adt, adt.rsplit("::", 1)[-1], *[("y", ("io", f)) if f in ("stdin", "stdout", "stderr") else None for f in fn])
                    n += 1
        en = Eng(P, ch)
        en.run(r, args, State(), [])
        R.count("abstract_states", en.stats["states"])
    R.counts["exec_sites"] = len(ch.execs)
    R.counts["dup_sites"] = len(ch.dups)
    R.floor("exec_sites", 1, "exec sites")
    R.floor("dup_sites", 3, "descriptors installed in the child")
    for k, (b, line, why) in ch.bad.items():
        R.violation("child:%s" % why, where(b, line), why)
    # the descriptors a process is given are the context's
    n = 0
    for b in P.bodies.values():
        if b.promoted is not None:
            continue
        for i, t in b.calls:
            for x in set(P.targets(b, t)):
                if x in P.bodies and P.bodies[x].name.endswith("JobProcess::set_io"):
                    n += 1
                    for a, name in zip(t.args[1:4], NAMES):
                        got = origins(P, b, a, i, LocalWhole(P))
                        fl = {l[2] for l in got if l[0] == "field" and l[2] in NAMES}
                        R.sample("%s:%s set_io %s from %s" % (short(b.name), t.line, name, sorted(leaf_str(l) for l in got)))
                        if fl and fl != {name}:
                            R.violation("given:%s" % name, where(b, t.line), "a process is given the context's %s as its %s" % ("/".join(sorted(fl)), name))
    R.counts["descriptor_handovers"] = n
    # ---- (5)
    job = next(a for a in P.adts if a.endswith("process::job::Job") and P.adts[a]["ws"])

    def core_fn(b):
        tys = b.locals[1:1 + b.argc]
        return b.kind == "fn" and b.promoted is None and tys and re.match(r"^&('\w+ )?mut %s$" % re.escape(job), tys[0]) and any(re.search(r"mut dsh_types::(context::)?Context$", x) for x in tys)
    fns = {b.id for b in P.bodies.values() if core_fn(b)}
    reach_all = P.can_reach(lambda b, i, t: bool(set(P.targets(b, t)) & appliers))
    fns &= reach_all
    cors = {b.id for b in P.bodies.values() if b.kind == "coroutine" and b.parent and b.parent[1] in fns}
    inside = fns | cors
    roots = set()
    for f in fns:
        cs = {c[0] for c in P.callers.get(f, []) if c[1] == "call"}
        if cs - inside:
            roots |= {x for x in inside if x == f or (P.bodies[x].kind == "coroutine" and P.bodies[x].parent[1] == f)}
    nroot = 0
    for r in sorted(roots, key=str):
        b = P.bodies[r]
        if b.kind == "fn" and any(P.bodies[x].kind == "coroutine" and P.bodies[x].parent[1] == r for x in cors):
            continue
        core = {"cor": cors - {r}, "sync": ({x for x in fns if not any(P.bodies[c].parent[1] == x for c in cors)} | appliers) - {r}, "fn": fns}
        sp = Restore(P, core)
        en = RestoreEng(P, sp)
        res = en.run(r, [None] * (b.argc if b.kind != "coroutine" else 0), State(), [])
        R.count("abstract_states", en.stats["states"])
        nroot += 1
        R.counts["job_runs"] = R.counts.get("job_runs", 0) + sp.calls
        for rv, facts, know in res:
            d = sorted(x[1] for x in facts if isinstance(x, tuple) and x[0] == "dirty")
            if d:
                R.violation("context:%s" % short(b.name), where(b), "after a job the context keeps %s of that job for the next one" % "/".join(d))
    R.counts["job_entries"] = nroot
    R.floor("job_entries", 1, "entries that run a job")
    R.floor("job_runs", 1, "runs of a job whose descriptors are put back")


from vpa.ir import rv_ops
