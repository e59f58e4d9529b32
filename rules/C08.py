"""Redaction removes whatever the detector recognised."""
from rules.common import *
from vpa import rx

REGEX_TEST = re.compile(r"regex::(regex::string::)?Regex::(is_match|captures_iter|captures|find|find_iter|is_match_at|captures_at|find_at|shortest_match)$")
REGEX_REPL = re.compile(r"regex::(regex::string::)?Regex::(replace_all|replace|replacen)$")
GET = re.compile(r"regex::(regex::string::)?Captures.*::(get|name|index|get_match)$|<regex::.*Captures.* as core::ops::index::Index<usize>>::index$")
MGR = re.compile(r"doge_shell::secrets::")


def own(P, b):
    return MGR.search(b.name) is not None


def reach_own(P, bid):
    return [P.bodies[x] for x in P.reach_from([bid]) if own(P, P.bodies[x])]


def detectors(P):
    """workspace predicates on a command line that test it against the secret patterns"""
    S = P.can_reach(lambda b, i, t: own(P, b) and t.op.fn is not None and REGEX_TEST.search(t.op.fn.full))
    out = []
    for b in P.bodies.values():
        if b.id in S and own(P, b) and b.kind == "fn" and b.promoted is None and b.locals[0] == "bool":
            if len(statics(P, b.id)) >= 2:
                out.append(b)
    # outermost predicates only
    inner = set()
    for b in out:
        inner |= set(P.reach_from([b.id])) - {b.id}
    return [b for b in out if b.id not in inner]


def redactors(P):
    S = P.can_reach(lambda b, i, t: own(P, b) and t.op.fn is not None and REGEX_REPL.search(t.op.fn.full))
    out = [b for b in P.bodies.values() if b.id in S and own(P, b) and b.kind == "fn" and b.promoted is None and re.search(r"String|Cow", b.locals[0]) and not b.locals[0].startswith("core::option")]
    inner = set()
    for b in out:
        inner |= set(P.reach_from([b.id])) - {b.id}
    return [b for b in out if b.id not in inner]


class Pat(WholePolicy):
    """where a regex comes from: a static, or a field of the manager"""
    max_nodes = 4000

    def call(self, b, bb, t):
        return None


def pattern_sources(P, bid, rx):
    """{source: [(body, term)]} of the regexes used by calls matching rx under bid"""
    out = {}
    F = flow_of(P)
    for b in reach_own(P, bid):
        for i, t in b.calls:
            if t.op.fn is None or not rx.search(t.op.fn.full):
                continue
            for x in F.origins(b, t.args[0], i, len(b.bbs[i].stmts), Pat(P)):
                if x[0] == "static":
                    out.setdefault(x[1], []).append((b, t))
                elif x[0] == "field":
                    out.setdefault("field " + x[2], []).append((b, t))
                elif x[0] == "param" and b.kind == "closure":
                    for s in element_sources(P, b):
                        out.setdefault(s, []).append((b, t))
    return out


def element_sources(P, clo):
    """the patterns an iterator hands to this closure"""
    out = set()
    for c in P.callers.get(clo.id, []):
        pb = P.bodies[c[0]]
        for i, t in pb.calls:
            if t.op.fn is None or not re.search(r"::(fold|for_each|try_fold|try_for_each|map|filter_map|flat_map)$", t.op.fn.name):
                continue
            F = flow_of(P)
            if not any(x[0] == "closure" and clo.id in x or x[0] == "closure" and clo.name in map(str, x) for a in t.args[1:] for x in F.origins(pb, a, i, len(pb.bbs[i].stmts), Pat(P))):
                continue
            for x in F.origins(pb, t.args[0], i, len(pb.bbs[i].stmts), Pat(P)):
                if x[0] == "static":
                    out.add(x[1])
                elif x[0] == "field":
                    out.add("field " + x[2])
    return out


def statics(P, bid):
    return set(pattern_sources(P, bid, REGEX_TEST))


IDENT = re.compile(r"(to_string|to_owned|clone|into_owned|into|from|as_str|as_ref|deref|borrow|to_mut|into_boxed_str|into_string|as_mut_str|must_use)$")
PARTIAL = re.compile(r"adapters::(take|skip|step_by|take_while|skip_while|map_while)::|(Iterator|iterator)>?::(take|skip|step_by|take_while|skip_while|map_while|nth|last|find)$")


class Redact(Spec):
    """the redactor as a transformer of text: which pattern sources were applied to the text it returns"""
    max_states = 200000

    def __init__(self, P, r):
        super().__init__(P)
        self.r = r
        self.interesting = {x for x in P.can_reach(lambda b, i, t: t.op.fn is not None and REGEX_REPL.search(t.op.fn.full)) if own(P, P.bodies[x])}
        self.partial = {}

    def srcs(self, body, bb, op):
        F = flow_of(self.P)
        out = set()
        for x in F.origins(body, op, bb, len(body.bbs[bb].stmts), Pat(self.P)):
            if x[0] == "static":
                out.add(x[1])
            elif x[0] == "field":
                out.add("field " + x[2])
        return frozenset(out)

    def rxval(self, eng, st, body, bb, op, v):
        v = eng.deref(st, v) if v is not None else None
        if v is not None and v[0] == "c" and isinstance(v[1], tuple) and v[1][0] == "rx":
            return v[1][1]
        return self.srcs(body, bb, op)

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is None:
            return None
        ty = dest_ty(body, t)
        sh = f.name.rsplit("::", 1)[-1]
        v0 = eng.deref(st, vals[0]) if vals and vals[0] is not None else None
        istext = v0 is not None and v0[0] == "c" and isinstance(v0[1], tuple) and v0[1][0] == "txt"
        isrx = v0 is not None and v0[0] == "c" and isinstance(v0[1], tuple) and v0[1][0] == "rx"
        if "lazy::Lazy" in f.full + ty or "Lazy<" in f.full or "LazyLock" in f.full:
            if re.search(r"Option<.*Regex>", ty):
                g = self.rxval(eng, st, body, bb, t.args[0], vals[0])
                s2 = st.copy()
                s2.facts = frozenset(x for x in s2.facts if x != ("pend", g)) | {("absent", g)}
                return [(E(OPT, "Some", C(("rx", g))), st), (E(OPT, "None"), s2)]
            if "Regex" in ty:
                return [(C(("rx", self.rxval(eng, st, body, bb, t.args[0], vals[0]))), st)]
        if REGEX_REPL.search(f.full):
            g = self.rxval(eng, st, body, bb, t.args[0], vals[0])
            st.facts = frozenset(x for x in st.facts if x != ("pend", g)) | {("applied", g)}
            h = eng.deref(st, vals[1]) if vals[1] is not None else None
            if h is not None and h[0] == "c" and isinstance(h[1], tuple) and h[1][0] == "txt":
                return [(C(("txt", h[1][1] | {g})), st)]
            return [(None, st)]
        if REGEX_TEST.search(f.full) and ty == "bool":
            g = self.rxval(eng, st, body, bb, t.args[0], vals[0])
            s2 = st.copy()
            s2.facts = frozenset(x for x in s2.facts if x != ("pend", g)) | {("nomatch", g)}
            return [(C(True), st), (C(False), s2)]
        if sh == "next" and re.search(r"Option<&.*(Regex|Lazy)", ty):
            g = self.srcs(body, bb, t.args[0])
            if PARTIAL.search(f.full):
                self.partial[g] = (body, t)
            s2 = st.copy()
            sk = ("pend", g) in st.facts
            f2 = frozenset(x for x in st.facts if x != ("pend", g)) | ({("skipped", g)} if sk else set())
            st.facts = f2 | {("pend", g)}
            s2.facts = f2 | {("all", g)}
            return [(E(OPT, "Some", C(("rx", g))), st), (E(OPT, "None"), s2)]
        if PARTIAL.search(f.full) and vals:
            g = self.srcs(body, bb, t.args[0])
            if g:
                self.partial[g] = (body, t)
            return None
        if sh in ("fold", "for_each", "try_fold", "try_for_each") and vals:
            g = self.srcs(body, bb, t.args[0])
            clo = [v for v in vals if v is not None and (eng.deref(st, v) or ("",))[0] in ("clo", "fn")]
            if g and clo:
                if PARTIAL.search(f.full):
                    self.partial[g] = (body, t)
                acc = [eng.export(st, vals[1])] if "fold" in sh else []
                st.facts = st.facts | {("pend", g)}
                out = []
                for rv, s3 in eng.call_value(st, clo[0], acc + [C(("rx", g))], body, bb, t, stack):
                    sk = ("pend", g) in s3.facts
                    s3.facts = frozenset(x for x in s3.facts if x != ("pend", g)) | {("all", g)} | ({("skipped", g)} if sk else set())
                    out.append((rv if acc else None, s3))
                return out
        if istext and IDENT.search(f.name):
            return [(v0, st)]
        if isrx and (IDENT.search(f.name) or sh in ("force", "get", "unwrap")):
            return [(v0, st)]
        return None


class RxEngine(Engine):
    """carries a static pattern that is passed on by reference"""
    def operand(self, st, op, body):
        if not op.is_place and op.static and re.search(r"Regex", op.ty or ""):
            return C(("rx", frozenset([op.static[0]])))
        return Engine.operand(self, st, op, body)


def covered(P, r, s, v, facts):
    """is source s known to be applied to (or absent from) the text returned on this path?"""
    txt = v[1][1] if v is not None and v[0] == "c" and isinstance(v[1], tuple) and v[1][0] == "txt" else None
    for x in facts:
        if isinstance(x, tuple) and x[0] in ("absent", "nomatch") and s in x[1] and len(x[1]) == 1 and not s.startswith("field"):
            return True
    for x in facts:
        if isinstance(x, tuple) and x[0] == "all" and s in x[1]:
            if ("skipped", x[1]) in facts:
                continue
            if ("applied", x[1]) in facts and txt is not None and x[1] not in txt:
                continue
            return True
        if isinstance(x, tuple) and x[0] == "applied" and s in x[1] and len(x[1]) == 1 and not s.startswith("field"):
            if txt is None or x[1] in txt:
                return True
    return False


def whole_redaction(P, R, d, ds, r):
    """every way through the redactor applies every source of the detector to the text it returns"""
    sp = Redact(P, r)
    en = RxEngine(P, sp)
    args = [C(("txt", frozenset())) if re.match(r"&('[a-z_0-9]+ )?str$|alloc::string::String$|&.*String$", r.locals[k + 1]) else None for k in range(r.argc)]
    res = en.run(r.id, args, State(), [])
    for v, facts, know in res:
        R.count("redactor_paths")
        for s in sorted(ds):
            if not covered(P, r, s, v, facts):
                R.violation("notall:%s" % short(s), where(r), "there is a way through %s on which what %s matches is not replaced in the text it returns" % (short(r.name), short(s)))
    for g, (b, t) in sp.partial.items():
        R.violation("partial:%s" % short(b.name), where(b, t.line), "only some of the patterns (%s) are applied" % ", ".join(sorted(map(short, g))))


class Repl(Spec):
    """a replacement closure: which groups are copied into the result, and under what knowledge"""
    def __init__(self, P, bid, keysens):
        super().__init__(P)
        self.keysens = keysens
        self.groups = 0
        self.interesting = {x for x in P.can_reach(lambda b, i, t: t.op.fn is not None and GET.search(t.op.fn.full) and own(P, b))}

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is None:
            return None
        if GET.search(f.full):
            self.groups += 1
            n = t.args[1].val if not t.args[1].is_place else None
            nv = vals[1] if len(vals) > 1 else None
            if n is None and nv is not None and nv[0] == "c":
                n = nv[1]
            s2 = st.copy()
            s2.facts = s2.facts | {("group", n)}
            return [(E(OPT, "Some", ("u", None)) if False else None, s2)]
        if any(x in self.keysens for x in self.P.targets(body, t)):
            return [(eng.sym(st, "sens"), st)]
        return None


def key_tests(P, d):
    """the tests by which the detector judges a name: its own predicates that do not take the text apart, outermost"""
    S = P.can_reach(lambda b, i, t: t.op.fn is not None and (GET.search(t.op.fn.full) or "captures" in t.op.fn.full))
    K = {b.id for b in reach_own(P, d.id) if b.kind == "fn" and b.promoted is None and b.locals[0] == "bool" and b.id not in S}
    inner = set()
    for k in K:
        inner |= set(P.reach_from([k])) - {k}
    return (K - inner) | {d.id}


def literal_of(P, s):
    """the pattern a static regex is built from"""
    for b in P.bodies.values():
        if b.name == s or b.name.startswith(s + "::"):
            for i, t in b.calls:
                if t.op.fn is not None and re.search(r"Regex(Builder)?::new$", t.op.fn.full):
                    for x in const_strs(P, b, i, t.args[0]):
                        return x
    return None


def pattern_sources_of(P, b, i, t):
    out = set()
    for x in flow_of(P).origins(b, t.args[0], i, len(b.bbs[i].stmts), Pat(P)):
        if x[0] == "static":
            out.add(x[1])
        elif x[0] == "field":
            out.add("field " + x[2])
    return out


def run(P, R, tier):
    R.explanation = ("Every pattern source (static regex or pattern field) the sensitivity test uses must also drive a replacement in the redactor; every replacement closure is path-simulated: "
                     "it may copy the prefix group, and the whole match only where the key was tested (by the detector's own test) and found not sensitive, never the secret's own group. "
                     "The redactor itself is path-simulated as a transformer of text: on every path, every source is applied to the text that is returned (or known to be absent), a list of patterns to its end; "
                     "the value part of each pattern, as an automaton, accepts every value that may stand there.")
    det, red = detectors(P), redactors(P)
    R.count("detectors", len(det))
    R.count("redactors", len(red))
    R.floor("detectors", 1, "sensitivity tests")
    R.floor("redactors", 1, "redactors")
    for d in det:
        ds = pattern_sources(P, d.id, REGEX_TEST)
        R.count("detector_patterns", len(ds))
        for r in red:
            rs = pattern_sources(P, r.id, REGEX_REPL)
            R.count("redactor_patterns", len(rs))
            for s in sorted(set(ds) - set(rs)):
                b, t = ds[s][0]
                R.violation("unredacted:%s" % short(s), where(b, t.line), "%s recognises secrets with %s, but %s never replaces what it matches" % (short(d.name), short(s), short(r.name)))
            R.sample("%s / %s: %s" % (short(d.name), short(r.name), sorted(map(short, rs))))
            whole_redaction(P, R, d, ds, r)
            for s in sorted(rs):
                p = literal_of(P, s)
                if p is None:
                    continue
                try:
                    g = rx.value_gap(p)
                except Exception as e:
                    R.sample("%s: pattern not parsed (%s)" % (short(s), e))
                    continue
                if g is None:
                    continue
                R.count("value_languages")
                R.sample("%s: %s, cut value %r" % (short(s), g[0], g[1]))
                if g[1] is not None:
                    R.violation("cutvalue:%s:%s" % (short(s), g[1].replace(" ", "<space>")), "-", "the %s behind the name is matched only in part: of %r a rest is left in the redacted text" % g)
            # whole text: replace_all, not replace (first match only)
            for x in reach_own(P, r.id):
                for i, t in x.calls:
                    if t.op.fn is not None and re.search(r"Regex::(replace|replacen)$", t.op.fn.full):
                        R.violation("firstonly:%s" % short(x.name), where(x, t.line), "replaces only the first secret(s) of the command")
                    if t.op.fn is not None and REGEX_REPL.search(t.op.fn.full):
                        src = frozenset(pattern_sources_of(P, x, i, t))
                        noexp = re.search(r"NoExpand", t.args[-1].ty or (x.locals[t.args[-1].place.l] if t.args[-1].is_place and not t.args[-1].place.p else ""))
                        if noexp:
                            continue
                        for c in const_strs(P, x, i, t.args[-1]):
                            refs = re.findall(r"\$(?:\{([^}]*)\}|(\w+))", c)
                            refs = [a or z for a, z in refs]
                            if refs and (any(q.startswith("field") for q in src) or any(q != "1" for q in refs)):
                                R.violation("expands:%s" % short(x.name), where(x, t.line), "the replacement %r puts what the pattern matched back into the text" % c)
            # the replacement closures
            for x in reach_own(P, r.id):
                if x.kind != "closure" or not any("Captures" in l for l in x.locals[1:x.argc + 1]):
                    continue
                R.count("replacement_closures")
                sp = Repl(P, x.id, key_tests(P, d))
                en = Engine(P, sp)
                res = en.run(x.id, [None] * x.argc, State(), [])
                for v, facts, know in res:
                    g = {f[1] for f in facts if isinstance(f, tuple) and f[0] == "group"}
                    sens = dict(know).get(("sens",), frozenset([True, False]))
                    R.count("replacement_paths")
                    big = {n for n in g if n is None or (isinstance(n, int) and n >= 2)}
                    if big and (True in sens):
                        R.violation("copies-secret:%s" % short(x.name), where(x), "the replacement reads the secret's group %s" % sorted(map(str, big)))
                    if 0 in g and True in sens:
                        R.violation("copies-match:%s" % short(x.name), where(x), "the replacement may copy the whole match without knowing that its key is harmless")
    R.floor("detector_patterns", 4, "detector patterns")
    R.floor("redactor_paths", 1, "ways through the redactor")
    R.assumptions += ["group 1 of each pattern is the non-secret prefix, as the patterns are written"]
