"""Lisp code sets the variables that decide what programs load only at the Loose level."""
from rules.common import *
from rules import C19
from rules.C19 import Items, it, mut, ENV, CALLABLE, VALUES, COMMANDS, EVAL
from vpa.locks import Locks
from vpa.ir import body_ty, rv_ops

STORES = {"Environment.variables", "Environment.system_env_vars"}
VERDICT = "doge_shell::safety::SafetyResult"
LEVEL = "doge_shell::safety::SafetyLevel"
NAMES = ["LD_PRELOAD", "LD_LIBRARY_PATH", "DYLD_INSERT_LIBRARIES", "PYTHONPATH", "PERL5LIB", "RUBYLIB", "NODE_OPTIONS"]
SAME = re.compile(r"(^|::|>::)(clone|to_owned|to_string|as_str|deref|as_ref|borrow|into|from|into_string|to_str|as_mut_str|must_use)$")
PUT = re.compile(r"(^|::|>::)(insert|entry|extend|extend_one|append|insert_unique_unchecked|try_insert)$")
BIG = 1 << 62


def is_gate(P, body, t):
    """asks for a verdict on setting a variable: name, value and level in, verdict out"""
    return t.op.fn is not None and (body_ty(body, t.dest) or "") == VERDICT and len(t.args) >= 3 and any(LEVEL in (body_ty(body, a.place) or "") for a in t.args if a.is_place)


def is_text(v):
    return v[0] == "c" and (isinstance(v[1], str) or isinstance(v[1], tuple) and v[1][0] == "id")


class Vars(Spec):
    cap = 400

    def __init__(self, P, I, names):
        super().__init__(P)
        self.I, self.names = I, names
        self.sinks, self.bad, self.gates = {}, {}, set()
        self.reads = set()

    def phase(self, st, x):
        return "old"

    def wrote(self, st, x, v, line):
        pass

    def strs(self, body, bb, op):
        return const_strs(self.P, body, bb, op)

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is None:
            return None
        if is_gate(self.P, body, t):
            self.gates.add((body.id, bb))
            # the name asked about: the first argument that is text
            k = next((i for i, a in enumerate(t.args) if re.match(r"^&.*\b(str|String)$", body_ty(body, a.place) if a.is_place else a.ty or "")), None)
            lv = next((v for a, v in zip(t.args, vals) if a.is_place and LEVEL in (body_ty(body, a.place) or "")), None)
            lv = eng.deref(st, lv) if lv is not None else None
            own = lv is not None and lv[0] == "c" and isinstance(lv[1], tuple) and lv[1][0] == "it" and "Environment.safety_level" in lv[1][1]
            v = vals[k] if k is not None else None
            w = eng.deref(st, v) if v is not None else None
            st.facts = frozenset(x for x in st.facts if not (isinstance(x, tuple) and x[0] == "asked"))
            if own and w is not None and is_text(w):
                st.facts = st.facts | {("asked", w)}
            elif own and v is not None and v[0] == "r":
                st.env[v[1]] = C(("id", body.id, v[1]))
                st.facts = st.facts | {("asked", st.env[v[1]])}
            if not own:
                self.bad.setdefault("level:%s" % short(body.name), (body, t.line, "the verdict is not asked for the level the shell is at"))
            y = eng.sym(st, "verdict")
            return [(y, st)]
        k = self.I.lock(body, t)
        if k:
            return [((it([k[0]], "old") if k[1] == "r" else mut(k[0])), st)]
        if re.search(r"(Vec::<T, A>|slice::<impl \[T\]>)::(len|is_empty)$", f.full) and vals and vals[0] is not None and vals[0][0] == "r":
            x = (body.id,) + vals[0][1]
            return [(C(("length", x)) if f.full.endswith("len") else C(("cmp", x, "Eq", 0)), st)]
        ms = []
        for v in vals:
            v = eng.deref(st, v) if v is not None else None
            if v is not None and v[0] == "c" and isinstance(v[1], tuple) and v[1][0] == "mut":
                ms.append(v[1][1])
        n = f.name
        if ms and ms[0] in STORES and (PUT.search(n) or PUT.search(f.full)):
            self.sink(eng, st, body, bb, t, vals, stack, ms[0])
            return None
        if ms and (C19.PASS.search(n) or C19.PASS.search(f.full)):
            return [(mut(ms[0]), st)]
        if vals and SAME.search(n) and not [x for x in eng.P.targets(body, t) if x in self.interesting]:
            v = vals[0]
            w = eng.deref(st, v) if v is not None else None
            if w is not None and w[0] == "c" and (isinstance(w[1], str) or isinstance(w[1], tuple) and w[1][0] in ("it", "id")):
                return [(w, st)]
            if v is not None and v[0] == "r" and re.search(r"(deref|as_str|as_ref|borrow)$", n):
                return [(v, st)]
        if re.match(r"^(&('[a-z_0-9]+ )?)?(alloc::string::String|str)$", body_ty(body, t.dest) or "") and not [x for x in eng.P.targets(body, t) if x in self.interesting]:
            # a text of its own: what is known of an earlier one from the same place no longer holds
            x = C(("id", body.id, bb))
            st.facts = st.facts - {("asked", x)}
            eng.mutargs([(x, st)], t, vals)
            return [(x, st)]
        return None

    def sink(self, eng, st, body, bb, t, vals, stack, item):
        top = stack[0][0] if stack else body
        key = (body.id, bb)
        self.sinks.setdefault(key, set())
        v = eng.deref(st, vals[1]) if len(vals) > 1 and vals[1] is not None else None
        if v is not None and v[0] == "c" and isinstance(v[1], str):
            if v[1] in self.names:
                self.bad.setdefault("const:%s" % short(top.name), (body, t.line, "sets %s without asking" % v[1]))
            self.sinks[key].add("fixed name " + v[1])
            return
        # a name put together with a fixed beginning that none of the names has
        if not stack and (v is None or ("asked", v) not in st.facts):
            pre = self.prefix(body, bb, t.args[1])
            if pre and not any(x.startswith(pre) for x in self.names):
                self.sinks[key].add("name beginning with " + pre)
                return
        okv = st.know.get(("verdict",)) == frozenset(["Allowed"])
        if okv and v is not None and ("asked", v) in st.facts:
            self.sinks[key].add("allowed by the safety policy")
            return
        self.sinks[key].add("unchecked")
        why = ("for another name than the one the policy was asked about" if okv else "without the policy having allowed it")
        self.bad.setdefault("set:%s:%s" % (short(top.name), item), (stack[0][0] if stack else body, stack[0][1] if stack else t.line, "%s is written %s" % (item, why)))

    def prefix(self, body, bb, op):
        """the fixed text a formatted name begins with"""
        out = set()
        for l in origins(self.P, body, op, bb, Fmt()):
            if l[0] == "const" and isinstance(l[1], bytes) and l[1] and 0 < l[1][0] < 0x80:
                out.add(l[1][1:1 + l[1][0]].decode("utf8", "replace"))
        return out.pop() if len(out) == 1 else None


class Fmt(Policy):
    through_params = False

    def call(self, body, bb, t):
        n = t.op.fn.full if t.op.fn else ""
        return "stop" if "fmt::rt::Argument::" in n and "Arguments" not in n else "args"


class Eng(C19.Eng):
    """also: constant arrays, and what comparisons of one length with constants say about each other"""
    OPS = {"Lt": (lambda n: (0, n - 1)), "Le": (lambda n: (0, n)), "Gt": (lambda n: (n + 1, BIG)), "Ge": (lambda n: (n, BIG)), "Eq": (lambda n: (n, n))}
    FLIP = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}

    def split_bool(self, st, v):
        if v is not None and v[0] == "c" and isinstance(v[1], tuple) and v[1][0] == "cmp":
            _, place, op, n = v[1]
            neg = op == "Ne"
            lo, hi = self.OPS["Eq" if neg else op](n)
            cur = next((f for f in st.facts if isinstance(f, tuple) and f[0] == "len" and f[1] == place), ("len", place, 0, BIG))
            out = []
            yes = (max(cur[2], lo), min(cur[3], hi))
            no = [(cur[2], min(cur[3], lo - 1)), (max(cur[2], hi + 1), cur[3])]
            for b, iv in [(not neg, yes)] + [(neg, x) for x in no]:
                if iv[0] <= iv[1]:
                    s = st.copy()
                    s.facts = frozenset(f for f in s.facts if f is not cur and f != cur) | {("len", place, iv[0], iv[1])}
                    out.append((b, s))
            return out
        return super().split_bool(st, v)

    def rvalue(self, st, rv, body):
        if rv[0] == "bin" and rv[1] in self.FLIP:
            a, b = self.operand(st, rv[2], body), self.operand(st, rv[3], body)
            for x, y, op in ((a, b, rv[1]), (b, a, self.FLIP[rv[1]])):
                if x is not None and y is not None and x[0] == "c" and y[0] == "c" and isinstance(x[1], tuple) and x[1][0] == "length" and isinstance(y[1], int) and not isinstance(y[1], bool):
                    return C(("cmp", x[1][1], op, y[1]))
        if rv[0] == "agg" and rv[1][0] == "arr":
            return E("arr", "arr", *[self.operand(st, o, body) for o in rv[2]])
        return super().rvalue(st, rv, body)


class Table(Spec):
    """the policy itself, for one name and one level"""
    cap = 400

    def __init__(self, P, I):
        super().__init__(P)
        self.I, self.reads = I, set()
        self.compared = set()

    def phase(self, st, x):
        return "old"

    def wrote(self, st, x, v, line):
        pass

    def whole(self, eng, st, v):
        n = 0
        while v is not None and v[0] == "r" and n < 8:
            v = eng.deref(st, v)
            n += 1
        return v

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is None:
            return None
        sh = f.name.rsplit("::", 1)[-1]
        vs = [self.whole(eng, st, v) for v in vals]
        if sh in ("contains", "binary_search", "any", "eq", "ne", "eq_ignore_ascii_case") and body_ty(body, t.dest) == "bool" and len(vs) >= 2:
            if sh == "contains" and vs[0] is not None and vs[0][0] == "e" and vs[0][1] == "arr" and vs[1] is not None and vs[1][0] == "c":
                el = [self.whole(eng, st, x) for x in vs[0][3]]
                if all(x is not None and x[0] == "c" for x in el):
                    self.compared |= {x[1] for x in el}
                    return [(C(vs[1][1] in [x[1] for x in el]), st)]
            if sh == "any" and vs[0] is not None and vs[0][0] == "e" and vs[0][1] == "arr" and vs[1] is not None and vs[1][0] == "clo":
                res = set()
                for x in vs[0][3]:
                    clo = ("clo", vs[1][1], tuple(eng.export(st, u) for u in vs[1][2]))
                    res |= {rv for rv, facts, know in eng.run(vs[1][1], [clo, self.whole(eng, st, x)], st.copy(), stack)}
                if res <= {C(True), C(False)}:
                    return [(C(C(True) in res), st)]
            if sh in ("eq", "ne", "eq_ignore_ascii_case") and all(v is not None and v[0] == "c" and isinstance(v[1], str) for v in vs[:2]):
                return [(C((vs[0][1] == vs[1][1]) == (sh != "ne")), st)]
            return None
        if sh == "next" and vs and vs[0] is not None and vs[0][0] == "e" and vs[0][1] == "arr" and vals[0][0] == "r":
            # one element after the other
            at = vals[0]
            while True:
                w = eng.deref(st, at)
                if w is None or w[0] != "r":
                    break
                at = w
            el = vs[0][3]
            if not el:
                return [(E(OPT, "None"), st)]
            st.env[at[1]] = E("arr", "arr", *el[1:])
            return [(E(OPT, "Some", self.whole(eng, st, el[0])), st)]
        if sh in ("iter", "into_iter", "as_slice", "copied", "cloned") and vs and vs[0] is not None and vs[0][0] == "e" and vs[0][1] == "arr":
            return [(vs[0], st)]
        if SAME.search(f.name) and vals and not [x for x in eng.P.targets(body, t) if x in eng.P.bodies] and vs[0] is not None and vs[0][0] == "c":
            return [(vs[0], st)]
        return None


def run(P, R, tier):
    R.explanation = ("Path simulation over MIR of every function Lisp code can call: a name other than a fixed harmless one is stored among the shell or environment variables only on paths where the "
                     "safety policy was asked about that very name, at the shell's level, and answered Allowed. The policy is evaluated on constants for each of the names and levels.")
    R.assumptions = ["Variables set by the user's own commands (export, set, NAME=value) are the user's decision and not judged here."]
    L = Locks(P)
    I = Items(P, L)
    # ---- the policy
    gates = [b for b in P.bodies.values() if b.promoted is None and b.kind == "fn" and b.locals[0] == VERDICT and b.argc >= 3 and any(LEVEL in x for x in b.locals[1:b.argc + 1]) and sum(1 for x in b.locals[1:b.argc + 1] if re.match(r"^&.*\b(str|String)$", x)) == 2 and b.argc == 4]
    levels = [v[0] for v in P.adts[LEVEL]["variants"]]
    asked = {x for b in P.bodies.values() for i, t in b.calls if is_gate(P, b, t) for x in P.targets(b, t)}
    gates = [b for b in gates if b.id in asked]
    for b in gates:
        ty = b.locals[1:b.argc + 1]
        k = next(i for i, x in enumerate(ty) if re.match(r"^&.*\b(str|String)$", x))
        lv = next(i for i, x in enumerate(ty) if LEVEL in x)
        for name in NAMES:
            for level in levels:
                sp = Table(P, I)
                sp.interesting = P.reach_from([b.id])
                args = [None] * b.argc
                args[k], args[lv] = C(name), E(LEVEL, level)
                R.count("policy_cases")
                got = {rv[2] if rv is not None and rv[0] == "e" else "?" for rv, facts, know in Eng(P, sp).run(b.id, args, State(), [])}
                if level != "Loose" and got & {"Allowed", "?"}:
                    R.violation("policy:%s:%s" % (name, level), where(b), "at the %s level setting %s may be answered %s" % (level, name, "/".join(sorted(got))))
        R.count("policies")
    R.floor("policies", 1, "policies on setting variables")
    # ---- the functions Lisp code can call
    evs = {b.id for b in P.bodies.values() if b.promoted is None and EVAL.search(b.name)}
    natives = [b.id for b in P.bodies.values() if b.promoted is None and any(CALLABLE.search(x) for x in b.locals[1:b.argc + 1]) and any(VALUES.search(x) for x in b.locals[1:b.argc + 1])]
    skip = {b.id for b in P.bodies.values() if any(COMMANDS.search(x) for x in b.locals[1:b.argc + 1])}
    lisp = P.reach_from(sorted(evs, key=str) + natives, skip=lambda e: e[0] in skip)
    put = {x for x in lisp if C19.writes(P, I, x).keys() & STORES}
    # climb from each writer to the function that knows the name: methods of the environment are walked through
    method = {x for x in put if ENV in (P.bodies[x].locals[1] if P.bodies[x].argc else "")}
    tops = {x for x in put if x not in method} | {c for m in closure_up(P, method, lisp) for c in [m]}
    R.count("writers", len(put))
    R.floor("writers", 2, "functions that store variables")
    sites = {}
    for x in sorted(tops, key=str):
        b = P.bodies[x]
        sp = Vars(P, I, NAMES)
        sp.interesting = set(method)
        # helpers between here and the write, and those that ask the policy
        sub = P.reach_from([x], skip=lambda e: e[0] in skip or e[0] in evs or e[0] not in lisp or e[0] in natives)
        sp.interesting |= {y for y in sub if y in put or any(is_gate(P, P.bodies[y], t) for i, t in P.bodies[y].calls)} - {x}
        en = Eng(P, sp)
        R.count("functions_judged")
        en.run(x, [None] * b.argc, State(), [])
        for key, how in sp.sinks.items():
            sites.setdefault((x, key), set()).update(how)
            R.sample("%s: %s" % (short(b.name), ", ".join(sorted(how))))
        for key, (bb, line, msg) in sp.bad.items():
            R.violation(key, where(bb, line), msg)
    R.count("stores_reached", len(sites))
    R.floor("stores_reached", 3, "stores of a variable")


def closure_up(P, method, lisp):
    """functions Lisp code reaches that call a storing method of the environment (through methods of it)"""
    out, st, seen = set(), list(method), set(method)
    while st:
        x = st.pop()
        for (c, k, i, t) in P.callers.get(x, ()):
            if c in seen or c not in lisp:
                continue
            seen.add(c)
            cb = P.bodies[c]
            if cb.argc and ENV in cb.locals[1] and "Env>" not in cb.locals[1]:
                method.add(c)
                st.append(c)
            else:
                out.add(c)
    return out
