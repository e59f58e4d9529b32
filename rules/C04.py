"""AI tools change files or start commands only with consent (or the execute allow list)."""
from rules.common import *
from rules.C02 import consts as _c

TOOL = "dsh_builtin::chatgpt::tool::"


def in_tool(b):
    return b.name.startswith(TOOL) or b.name.startswith("<" + TOOL) or b.name.startswith("dsh_builtin::chatgpt::tool")


class Everything(WholePolicy):
    """follow through every call; the allow list's source is the leaf"""
    LIST = re.compile(r"::list_execute_allowlist$")

    def call(self, b, bb, t):
        if t.op.fn is not None and self.LIST.search(t.op.fn.name):
            return "leaf"
        return None


def sconsts(P, bid):
    out = set()
    from vpa.ir import rv_ops
    for x in P.reach_from([bid]):
        b = P.bodies[x]
        if not in_tool(b):
            continue
        for bb in b.bbs:
            ops = [o for s in bb.stmts if s.k == "=" for o in rv_ops(s.rv)]
            if bb.term.k == "call":
                ops += bb.term.args
            for o in ops:
                if o.s is not None:
                    out.add(o.s)
                elif o.ch is not None:
                    out.add(o.ch)
                elif o.promoted:
                    pb = P.promoted_body(o)
                    if pb is not None:
                        for b2 in pb.bbs:
                            for s in b2.stmts:
                                if s.k == "=":
                                    out |= {q.s for q in rv_ops(s.rv) if q.s is not None}
    return out


class ToolSpec(ConsentSpec):
    consume = False

    def __init__(self, P, sink, R):
        super().__init__(P, sink)
        self.R = R
        self.listed = {}

    def from_list(self, body, bb, t):
        k = (body.id, bb)
        if k not in self.listed:
            ok = False
            for a in t.args:
                if a.is_place:
                    for x in origins(self.P, body, a, bb, Everything(self.P)):
                        if x[0] == "call" and Everything.LIST.search(x[3].op.fn.name):
                            ok = True
            self.listed[k] = ok
        return self.listed[k]

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is not None and in_tool(body) and dest_ty(body, t) == "bool":
            sh = f.name.rsplit("::", 1)[-1]
            ws = [x for x in self.P.targets(body, t)]
            if sh not in ("is_empty", "eq", "ne", "not") and self.from_list(body, bb, t):
                s2 = st.copy()
                st.facts = st.facts | {"listed"}
                s2.facts = s2.facts - {"listed"}
                return [(C(True), st), (C(False), s2)]
            if ws and all(in_tool(self.P.bodies[x]) for x in ws if x in self.P.bodies):
                c = set()
                for x in ws:
                    c |= sconsts(self.P, x)
                s2 = st.copy()
                if "-c" in c:
                    s2.facts = s2.facts | {"no-eval"}
                    return [(C(True), st), (C(False), s2)]
                if "$(" in c:
                    s2.facts = s2.facts | {"no-operators"}
                    return [(C(True), st), (C(False), s2)]
        if self.sink(body, bb, t):
            a = approved(st.know) or ("allow-listed" if "listed" in st.facts else None)
            key = (body.id, f.full, bb)
            self.sites.setdefault(key, set()).add(a)
            if a is None or (is_spawn(t) and a != "allow-listed" and a is None):
                self.bad.setdefault(key, (body, t, list(stack)))
            if is_spawn(t):
                for need in ("no-eval", "no-operators"):
                    if need not in st.facts:
                        self.R.violation("unscreened:%s:%s" % (need, short(body.name)), where(body, t.line),
                                         "a command can be started without the %s test" % ("string-eval flag" if need == "no-eval" else "shell-operator"))
            return [(None, st)]
        return super().on_call(eng, st, body, bb, t, vals, stack)


def run(P, R, tier):
    R.explanation = ("Path simulation over MIR of the AI tools: every file-system mutation needs the user's consent known to be true on that path; every process start needs an allow-list "
                     "match or that consent, after the shell-operator and string-eval tests said no. The confirmation's implementations are enumerated.")

    def sink(b, i, t):
        return in_tool(b) and (is_spawn(t) or is_fs_mutate(t))
    cont = {b.id for b in P.bodies.values() for i, t in b.calls if sink(b, i, t)}
    viol, stats, sites = climb(P, lambda: ToolSpec(P, sink, R), cont, within=in_tool)
    R.counts.update({"mutation_and_spawn_sites": len(sites), "functions_walked": len(stats["functions"]), "abstract_states": stats["states"]})
    for k, v in sites.items():
        R.sample("%s in %s: %s" % (short(k[1]), short(P.bodies[k[0]].name), sorted(map(str, v))))
    for b, t, st in viol:
        R.violation("unapproved:%s:%s" % (short(b.name), short(t.op.fn.full)), where(b, t.line),
                    "an AI tool reaches this without the user's consent (or the allow list): " + stack_str(st, b, t.line))
    # how an allow-list entry is compared: equality of whole program and argument list
    for b in P.bodies.values():
        if not in_tool(b) or b.promoted is not None or b.kind != "fn" or b.locals[0] != "bool":
            continue
        if not ({"&str"} <= {strip_r(b.locals[i]) for i in range(1, b.argc + 1)}):
            continue
        n = sum(1 for i in range(1, b.argc + 1) if strip_r(b.locals[i]) == "&str")
        if n < 2:
            continue
        R.count("entry_matchers")
        for x in sorted(P.reach_from([b.id]), key=str):
            xb = P.bodies[x]
            if not in_tool(xb):
                continue
            for i, t in xb.calls:
                f = t.op.fn
                if f and re.search(r"str::<impl str>::(starts_with|ends_with|contains|find|strip_prefix|strip_suffix|split_once)$|<impl \[T\]>::(starts_with|ends_with|contains)$", f.full) and len(t.args) > 1:
                    if any(o[0] in ("param", "call", "field", "unknown") for o in origins(P, xb, t.args[1], i, WholePolicy(P))):
                        R.violation("partial-entry-match:" + short(xb.name), where(xb, t.line), "an allow-list entry is matched by part of the program or of its arguments")
    matchers(P, R)
    operators(P, R)
    same_words(P, R)
    # confirmation implementations
    impls = [im for im in P.impls if im["trait"][0] == "dsh_builtin::ShellProxy"]
    for im in impls:
        R.count("confirm_implementors")
        if not any((mn or "").endswith("::confirm_action") for (mn, _), _ in im["items"]):
            R.violation("no-confirm:" + short(im["self"]), "%s:%s" % (im["file"], im["line"]), "this ShellProxy does not ask: it inherits a confirmation that always says yes")
    R.floor("mutation_and_spawn_sites", 3, "mutation and spawn sites in AI tools")
    R.floor("confirm_implementors", 1, "ShellProxy implementations")


def strip_r(t):
    return re.sub(r"'[a-z_0-9]+ ", "", t)


# ---- how a command is compared with an entry: some whole comparison said yes, and a comparison of base names
# only for programs that are no paths
def strs_of(b):
    return [i for i in range(1, b.argc + 1) if strip_r(b.locals[i]) in ("&str", "&alloc::string::String")]


class Match(Spec):
    def __init__(self, P):
        super().__init__(P)
        self.interesting = {x for x in P.bodies if in_tool(P.bodies[x]) and P.bodies[x].locals[0] == "bool" and len(strs_of(P.bodies[x])) >= 2}

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is None or dest_ty(body, t) != "bool":
            return None
        sh = f.name.rsplit("::", 1)[-1]
        s2 = st.copy()
        if sh in ("eq", "ne", "eq_ignore_ascii_case") or (sh in ("all", "any") and "Zip" in body.locals[t.args[0].place.l]):
            names = 0
            for a in t.args[:2]:
                if a.is_place and any(o[0] == "call" and base_name(self.P, o[2], o[3]) for o in origins(self.P, body, a, bb, ToName(self.P))):
                    names += 1
            fact = "byname" if names else "whole"
            if sh == "ne":
                s2.facts = s2.facts | {fact}
            else:
                st.facts = st.facts | {fact}
            return [(C(True), st), (C(False), s2)]
        if any(x in self.interesting for x in self.P.targets(body, t)):
            return None
        # is the word a path?
        cs = set()
        ws = [x for x in self.P.targets(body, t) if x in self.P.bodies]
        for x in ws:
            cs |= sconsts(self.P, x)
        for a in t.args[1:]:
            cs |= {str(o[1]) for o in origins(self.P, body, a, bb, LocalWhole(self.P)) if o[0] == "const"}
        if "/" in cs or sh == "is_absolute":
            p = self.word(body, t.args[0], bb)
            if "/" in cs:
                s2.facts = s2.facts | {"plain:%s" % (p,)}
            return [(C(True), st), (C(False), s2)]
        return None

    def word(self, body, a, bb):
        return tuple(sorted({(short(o[1].name), o[2]) if o[0] == "param" else (o[0], leaf_str(o)) for o in origins(self.P, body, a, bb, LocalWhole(self.P))}, key=str))


def base_name(P, body, t):
    if t.op.fn is None:
        return False
    if re.search(r"::(file_name|rsplit|rsplit_once|rfind|file_stem)$", t.op.fn.name):
        return True
    return any(in_tool(P.bodies[x]) and P.bodies[x].locals[0] != "bool" and any(c.op.fn and re.search(r"::(file_name|rsplit|rsplit_once|rfind|file_stem)$", c.op.fn.name) for i, c in P.bodies[x].calls)
               for x in P.targets(body, t) if x in P.bodies)


class ToName(Policy):
    through_params = False

    def __init__(self, P):
        self.P = P

    def call(self, b, bb, t):
        return "leaf" if base_name(self.P, b, t) else "args"


def matchers(P, R):
    for b in sorted(P.bodies.values(), key=lambda b: str(b.id)):
        if not in_tool(b) or b.promoted is not None or b.kind != "fn" or b.locals[0] != "bool" or len(strs_of(b)) < 2:
            continue
        en = Engine(P, Match(P))
        for rv, facts, know in en.run(b.id, [None] * b.argc, State(), []):
            if rv is not None and rv[0] == "c" and rv[1] is False:
                continue
            R.count("matching_paths")
            if not {"whole", "byname"} & facts:
                R.violation("unmatched:" + short(b.name), where(b), "a command can be taken for an allow-list entry it was not compared with")
            elif "byname" in facts and len([x for x in facts if x.startswith("plain:")]) < 2:
                R.violation("path-by-name:" + short(b.name), where(b), "a program given as a path can be taken for an allow-list entry of the same base name")


def chars_of(P, bid):
    """the characters and texts a function and its closures compare with"""
    from vpa.ir import rv_ops
    out = set()
    for x in P.reach_from([bid]):
        b = P.bodies[x]
        if not in_tool(b) and b.promoted is None:
            continue
        for bb in b.bbs:
            if bb.term.k == "sw" and bb.term.ty == "char":
                out |= {chr(v) for v, _ in bb.term.targets}
    for s in sconsts(P, bid):
        out.add(s)
        if len(s) > 2:
            out |= set(s)
    return out


OPS = ["|", "&", ";", "<", ">", "`", "$(", "\n"]


def operators(P, R):
    """the tests that precede a command look at every word, for every operator"""
    for b in sorted(P.bodies.values(), key=lambda b: str(b.id)):
        if not in_tool(b) or b.promoted is not None or b.kind != "fn" or b.locals[0] != "bool":
            continue
        if not any("String" in b.locals[i] or "&str" in strip_r(b.locals[i]) for i in range(1, b.argc + 1)):
            continue
        cs = sconsts(P, b.id)
        if not ({"$(", "-c"} & cs):
            continue
        R.count("screening_tests")
        from rules.C02 import narrows, skipped
        for x in P.reach_from([b.id]):
            xb = P.bodies[x]
            if not in_tool(xb):
                continue
            for i, t in xb.calls:
                w = narrows(xb, t) or ("skip" if skipped(P, xb, i, t) else None)
                if w and not base_name(P, xb, t):
                    R.violation("partial-screen:" + short(b.name), where(xb, t.line), "the test before a command is started looks at only a part of its words (%s)" % w)
        if "$(" in cs:
            have = chars_of(P, b.id)
            for o in OPS:
                R.count("operators_tested")
                if o not in have and not (o == "$(" and "$" in have):
                    R.violation("operator:%r" % o, where(b), "the test for shell operators does not know %r" % o)


class Words(Policy):
    def __init__(self, P):
        self.P = P

    def call(self, b, bb, t):
        if t.op.fn is None:
            return "args"
        n = t.op.fn.name.rsplit("::", 1)[-1]
        tg = [x for x in self.P.targets(b, t) if x in self.P.bodies]
        if re.match(r"split|rsplit|lines|chars", n) and n not in ("split_first", "split_at", "split_last"):
            return "leaf"
        if re.search(r"serde_json", t.op.fn.full):
            return "leaf"
        return None if tg else "args"


def same_words(P, R):
    """the words that are run are the words that were tested"""
    def leaves(b, i, a):
        return {(short(o[2].name), short(o[1])) for o in origins(P, b, a, i, Words(P)) if o[0] == "call"}
    for b in sorted(P.bodies.values(), key=lambda b: str(b.id)):
        if not in_tool(b) or b.promoted is not None:
            continue
        if not any(is_spawn(t) for i, t in b.calls):
            continue
        tested = set()
        for x in {b.id} | {c[0] for c in P.callers.get(b.id, [])} | set(P.reach_from([b.id])):
            xb = P.bodies[x]
            if not in_tool(xb):
                continue
            for i, t in xb.calls:
                ws = [y for y in P.targets(xb, t) if y in P.bodies and in_tool(P.bodies[y])]
                if dest_ty(xb, t) == "bool" and any("$(" in sconsts(P, y) for y in ws):
                    for a in t.args:
                        tested |= leaves(xb, i, a)
        if not tested:
            continue
        for i, t in b.calls:
            if t.op.fn is None or not re.search(r"process::Command::(new|arg|args)$", t.op.fn.full):
                continue
            R.count("run_words")
            a = t.args[0] if t.op.fn.name.endswith("new") else t.args[1]
            for l in sorted(leaves(b, i, a) - tested):
                R.violation("untested-words:" + short(b.name), where(b, t.line), "the command is started with words that were not tested for operators (from %s)" % l[1])
