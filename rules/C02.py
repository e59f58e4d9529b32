"""The safety verdict covers every job and stage: Allowed only when each was discharged."""
from rules.common import *
from vpa.ir import rv_ops

SR = "doge_shell::safety::SafetyResult"
LEVEL = "doge_shell::safety::SafetyLevel"
CHK = re.compile(r"dyn (for<.*?> )?core::ops::function::Fn\(&?.*\) ?-> core::option::Option<alloc::string::String>|dyn.*Fn<\(&'?.*\[alloc::string::String\],\)>|core::ops::function::Fn<.*Output = core::option::Option<alloc::string::String>")
STAGE = re.compile(r"Option<(&'?\w* ?)?(\(|alloc::boxed::Box<doge_shell::process::job_process::JobProcess|doge_shell::process::job_process::JobProcess)")


def strip(t):
    return re.sub(r"^(&('[a-z_0-9]+ )?(mut )?)+", "", t)


class Verdict(Spec):
    """facts: open (a stage was taken), allow (its job is on the allow list), warn (not an always-warn command),
    chk (no checker, or the checker had nothing to say), all (every job on the list), empty"""

    def __init__(self, P, entry):
        super().__init__(P)
        self.entry = entry
        self.ev = {"contains": 0, "get": 0, "checker": 0, "stage": 0, "job": 0, "all": 0}
        self.sites = set()
        self.bad = {}
        self.interesting = set(P.can_reach(lambda b, i, t: "safety::" in b.name and self.kind(b, t) is not None))
        self.interesting = {x for x in self.interesting if "safety::" in P.bodies[x].name}
        self.tests = P.can_reach(lambda b, i, t: "safety::" in b.name and self.kind(b, t) in ("warnset", "lookup"))

    def kind(self, b, t):
        f = t.op.fn
        if f is None:
            return None
        sh = f.name.rsplit("::", 1)[-1]
        a0 = t.args[0] if t.args else None
        ty = strip(b.locals[a0.place.l]) if a0 is not None and a0.is_place and not a0.place.p else ""
        if sh == "contains" and ("HashSet" in f.name or "HashSet" in ty):
            return "warnset"
        if sh == "contains" and re.search(r"\[alloc::string::String\]|Vec<alloc::string::String", ty):
            return "allow"
        if sh in ("get", "get_key_value") and "HashMap" in f.name and "HashMap" in ty:
            return "lookup"
        if sh == "contains_key" and "HashMap" in f.name:
            return "haskey"
        if sh in ("call", "call_once", "call_mut") and dest_ty(b, t) == "core::option::Option<alloc::string::String>":
            return "checker"
        if sh == "next" and re.search(r"Option<\(.*doge_shell::process::job::Job\)>", dest_ty(b, t)):
            return "job"
        if sh == "next" and STAGE.search(dest_ty(b, t)):
            return "stage"
        if sh == "next" and re.search(r"Option<(&'?\w* ?)?doge_shell::process::job::Job>", dest_ty(b, t)):
            return "job"
        if sh == "next" and dest_ty(b, t) == "core::option::Option<usize>" and any("process::job::Job]" in b.locals[i] for i in range(1, b.argc + 1)):
            return "job"       # a loop over the positions of the jobs
        if sh in ("all", "any") and re.search(r"Iter<'?_?,? ?doge_shell::process::job::Job>", ty):
            return sh
        if sh in ("all", "any") and re.search(r"Iter<'?_?,? ?alloc::string::String>", ty):
            return "scan"
        if sh == "is_empty" and re.search(r"process::job::Job", ty):
            return "empty"
        if sh == "first" and re.search(r"process::job::Job", ty):
            return "first"
        return None

    def done(self, st):
        return "open" not in st.facts or "allow" in st.facts or {"warn", "chk"} <= st.facts

    def on_call(self, eng, st, body, bb, t, vals, stack):
        k = self.kind(body, t)
        if k == "stage" and body.id not in self.tests:
            return None        # a helper that lists the stages
        if k is None:
            f = t.op.fn
            # boolean helpers of the guard are tracked by name
            if f is not None and "safety::" in f.full and dest_ty(body, t) == "bool" and not any(x in self.interesting for x in self.P.targets(body, t)):
                return [(eng.sym(st, "b:" + f.full), st)]
            if dest_ty(body, t) == SR and f is not None and "safety::" in f.full:
                return [(eng.sym(st, "nested"), st)]
            return None
        self.sites.add((body.id, bb))
        self.ev[k] = self.ev.get(k, 0) + 1
        f = t.op.fn
        ty = dest_ty(body, t)
        s2 = st.copy()
        if k == "allow":
            st.facts = st.facts | {"allow"}
            s2.facts = s2.facts - {"allow"}
            return [(C(True), st), (C(False), s2)]
        if k == "scan":
            # allowlist.iter().any(|a| a == x)
            if self.equality_scan(body, bb, t) and f.name.endswith("any"):
                st.facts = st.facts | {"allow"}
            return [(C(True), st), (C(False), s2)]
        if k == "warnset":
            s2.facts = s2.facts | {"warn"}
            return [(C(True), st), (C(False), s2)]
        if k == "haskey":
            s2.facts = s2.facts | {"chk"}
            return [(C(True), st), (C(False), s2)]
        if k in ("lookup", "checker"):
            s2.facts = s2.facts | {"chk"}
            return [(E(OPT, "Some", None), st), (E(OPT, "None"), s2)]
        if k == "all":
            ok = self.all_allowlisted(body, bb, t)
            if ok:
                st.facts = st.facts | {"all"}
            return [(C(True), st), (C(False), s2)]
        if k == "any":
            neg = self.any_not_allowlisted(body, bb, t)
            if neg:
                s2.facts = s2.facts | {"all"}
            return [(C(True), st), (C(False), s2)]
        if k == "empty":
            st.facts = st.facts | {"empty"}
            return [(C(True), st), (C(False), s2)]
        if k == "first":
            s2.facts = s2.facts | {"empty"}
            return [(E(OPT, "Some", None), st), (E(OPT, "None"), s2)]
        if k in ("stage", "job"):
            if not self.done(st):
                self.bad.setdefault(("skipped", body.name), (body, t, list(stack)))
            base = st.facts - {"open", "warn", "chk"}
            if k == "job":
                base = base - {"allow"}
            st.facts = base | ({"open"} if k == "stage" else set())
            s2.facts = base | {k + "end"}
            return [(E(OPT, "Some", None), st), (E(OPT, "None"), s2)]
        return None

    def closure_arg(self, body, bb, t):
        for a in t.args:
            if a.is_place:
                ty = body.locals[a.place.l]
                if "closure" in ty:
                    for s in body.bbs[bb].stmts:
                        if s.k == "=" and s.place.l == a.place.l and s.rv[0] == "agg" and s.rv[1][0] == "clo":
                            return self.P.bodies.get(s.rv[1][1][1])
        return None

    def closure_calls(self, c):
        return [t.op.fn.name.rsplit("::", 1)[-1] for i, t in c.calls if t.op.fn]

    def nots(self, c):
        return any(s.k == "=" and s.rv[0] == "un" and s.rv[1] == "Not" for i in c.reachable for s in c.bbs[i].stmts)

    def all_allowlisted(self, body, bb, t):
        c = self.closure_arg(body, bb, t)
        return c is not None and any(self.kind(c, x) == "allow" for i, x in c.calls) and not self.nots(c) and not any(c.bbs[i].term.k == "sw" for i in c.reachable)

    def any_not_allowlisted(self, body, bb, t):
        c = self.closure_arg(body, bb, t)
        return c is not None and any(self.kind(c, x) == "allow" for i, x in c.calls) and self.nots(c) and not any(c.bbs[i].term.k == "sw" for i in c.reachable)

    def equality_scan(self, body, bb, t):
        c = self.closure_arg(body, bb, t)
        if c is None:
            return False
        n = self.closure_calls(c)
        return any(x == "eq" for x in n) and all(x in ("eq", "as_str", "deref", "as_ref", "borrow") for x in n)


def run(P, R, tier):
    R.explanation = ("Typestate over every MIR path of the functions that compute a safety verdict for job lists, single commands and MCP calls: an Allowed result needs, at that level, "
                     "the loose level, an allow-list hit, or (normal level) for every stage taken from the pipeline: not an always-warn command and no objection from its checker.")
    entries = [b for b in P.bodies.values() if b.kind == "fn" and b.promoted is None and b.locals[0] == SR and "safety::" in b.name
               and any(LEVEL in b.locals[i] for i in range(1, b.argc + 1))]
    class Key(WholePolicy):
        through_params = False

        def call(self, b, bb, t):
            if t.op.fn is not None and re.search(r"::(next|first|last|get|iter)$", t.op.fn.name) and not self.P.targets(b, t):
                return "args"
            return super().call(b, bb, t)
    pol = Key(P)
    for b in entries:
        sp = Verdict(P, b)
        if not any(sp.kind(x, t) for bid in ({b.id} | (P.reach_from([b.id]) & sp.interesting)) for x in [P.bodies[bid]] for i, t in x.calls):
            continue
        R.count("verdict_functions")
        en = Engine(P, sp)
        args = []
        for i in range(1, b.argc + 1):
            args.append(("y", ("level",)) if strip(b.locals[i]) == LEVEL else None)
        jobs = any("process::job::Job" in b.locals[i] for i in range(1, b.argc + 1))
        mcp = any(re.search(r"is_.*mcp.*|.*mcp.*", t.op.fn.full) and dest_ty(b, t) == "bool" for i, t in b.calls if t.op.fn)
        res = en.run(b.id, args, State(), [])
        R.count("abstract_states", en.stats["states"])
        for k, (bb, t, st) in sp.bad.items():
            R.violation("skipped-stage:" + short(b.name), where(bb, t.line), "a stage of a pipeline can be passed over without being checked: " + stack_str(st, bb, t.line))
        # which boolean helper says what
        for rv, facts, know in res:
            kn = dict(know)
            var = rv[2] if rv is not None and rv[0] == "e" else None
            if var is None:
                continue       # the verdict of another verdict function, handed on
            R.count("verdict_leaves")
            if var != "Allowed":
                continue
            R.count("allowed_leaves")
            lv = kn.get(("level",), frozenset(["Strict", "Normal", "Loose"]))
            for l in sorted(lv):
                if l == "Loose":
                    continue
                if "allow" in facts and not jobs:
                    continue
                if jobs:
                    if l == "Strict" and not ({"all", "empty"} & facts):
                        R.violation("strict-unconfirmed:" + short(b.name), where(b), "in strict mode a job list is allowed although not every job is on the allow list")
                    if l == "Normal" and not ("open" not in facts or "allow" in facts or {"warn", "chk"} <= facts):
                        R.violation("unchecked-stage:" + short(b.name), where(b), "in normal mode a pipeline is allowed with a stage that was not checked")
                    if l == "Normal" and sp.ev["job"] and not ({"empty", "all", "jobend"} & facts):
                        R.violation("unchecked-rest:" + short(b.name), where(b), "in normal mode a line is allowed before all of its jobs were looked at")
                    continue
                if kn.get(("nested",)) is not None:
                    continue
                bools = {k[0][2:]: v for k, v in kn.items() if isinstance(k[0], str) and k[0].startswith("b:")}
                t_ = {short(k) for k, v in bools.items() if v == frozenset([True])}
                hit = [k for k, v in bools.items() if v == frozenset([True])]
                if any(listed(P, k) for k in hit):
                    continue       # on the allow list
                if mcp:
                    ro = [k for k in hit if not execs(P, k)]
                    if l == "Normal" and ro and not any(execs(P, k) for k in hit):
                        continue
                    R.violation("mcp-unconfirmed:%s:%s" % (l, short(b.name)), where(b), "an MCP call is allowed at the %s level without an allow-list entry, a checked command or a read-only tool name" % l.lower())
                    continue
                if l == "Strict":
                    R.violation("strict-unconfirmed:" + short(b.name), where(b), "in strict mode a command that is not on the allow list is allowed")
                elif not {"warn", "chk"} <= facts:
                    R.violation("unchecked:" + short(b.name), where(b), "in normal mode a command is allowed without its always-warn and checker tests (%s)" % ",".join(sorted(facts)))
        if jobs:
            R.count("joblist_verdicts")
            R.counts["stage_events"] = R.counts.get("stage_events", 0) + sp.ev["stage"]
            walk_chain(P, R, b)
        # the lists are asked about the command's base name
        for bid in {b.id} | {x for x in P.reach_from([b.id]) if x in sp.interesting}:
            x = P.bodies[bid]
            for i, t in x.calls:
                if sp.kind(x, t) in ("warnset", "lookup", "haskey") and len(t.args) > 1:
                    R.count("base_name_lookups")
                    if not any(o[0] == "call" and basename_fn(P, o[2], o[3]) for o in origins(P, x, t.args[1], i, ToBase(P))):
                        R.violation("not-base-name:" + short(x.name), where(x, t.line), "a list of commands is asked about the word as typed, not the command's base name")
        whole_words(P, R, b)
        # membership is asked about the whole command
        for bid in {b.id} | {x for x in P.reach_from([b.id]) if x in sp.interesting}:
            x = P.bodies[bid]
            for i, t in x.calls:
                if sp.kind(x, t) == "allow" and len(t.args) > 1:
                    R.count("allowlist_tests")
                    for o in origins(P, x, t.args[1], i, pol):
                        if o[0] == "call" and re.search(r"(trim\w*|split\w*|to_\w*lowercase|index|replace\w*|chars|get_command_name|file_name)$", o[1]):
                            R.violation("partial-allowlist-key:" + short(x.name), where(x, t.line), "the allow list is consulted with only a part of the command: " + leaf_str(o))
    checkers(P, R)
    whole_lines(P, R, {b.id for b in entries})
    allow_entries(P, R)
    strict_membership(P, R)
    R.floor("verdict_functions", 3, "verdict functions")
    R.floor("joblist_verdicts", 1, "verdicts over job lists")
    R.floor("allowed_leaves", 6, "paths ending in Allowed")
    R.floor("checker_functions", 8, "command checkers")


BASE = re.compile(r"::(file_name|rsplit|rsplit_once|rfind|rsplitn|file_stem)$")


def basename_fn(P, body, t):
    if t.op.fn is None:
        return False
    if BASE.search(t.op.fn.name):
        return True
    for x in P.targets(body, t):
        if x in P.bodies and "safety::" in P.bodies[x].name and any(c.op.fn and BASE.search(c.op.fn.name) for i, c in P.bodies[x].calls):
            return True
    return False


class ToBase(Policy):
    def __init__(self, P):
        self.P = P

    def call(self, b, bb, t):
        return "leaf" if basename_fn(self.P, b, t) else "args"


def const_int(P, x, i, op):
    v = {o[1] for o in origins(P, x, op, i, LocalWhole(P)) if o[0] == "const"}
    v = {int(k) for k in v if isinstance(k, int) or (isinstance(k, str) and k.isdigit())}
    return max(v) if v else None


def skipped(P, x, i, t):
    """how many leading words a call leaves out"""
    if t.op.fn is None or len(t.args) < 2:
        return 0
    n = t.op.fn.name.rsplit("::", 1)[-1]
    tys = dest_ty(x, t) + " ".join(x.locals[a.place.l] for a in t.args if a.is_place)
    if "alloc::string::String" not in tys:
        return 0
    if n == "skip":
        return const_int(P, x, i, t.args[1]) or 0
    if n in ("get", "index"):
        ty = x.locals[t.args[1].place.l] if t.args[1].is_place else (t.args[1].ty or "")
        if re.search(r"ops::(range::)?RangeFrom\b", ty):
            return const_int(P, x, i, t.args[1]) or 0
    return 0


def is_checker(b):
    return b.argc == 1 and b.locals[0] == "core::option::Option<alloc::string::String>" and re.search(r"\[alloc::string::String\]", b.locals[1])


def whole_words(P, R, b):
    """the functions that hand words to the checkers leave out none but the command's own name"""
    for y in {b.id} | {y for y in P.reach_from([b.id]) if "safety::" in P.bodies[y].name}:
        x = P.bodies[y]
        if is_checker(x) or x.promoted is not None or "::tests::" in x.name:
            continue
        R.count("word_listers")
        for i, t in x.calls:
            w = narrows(x, t)
            if w and w != "one fixed position":
                R.violation("partial-words:" + short(x.name), where(x, t.line), "the words of a command are handed on only in part (%s)" % w)
            if skipped(P, x, i, t) > 1:
                R.violation("skipped-words:" + short(x.name), where(x, t.line), "an argument of a command is not handed to its checker")


JOBNARROW = re.compile(r"::(index|get|split_at|split_first|split_last|first|last|chunks|windows|take|skip|filter|drain|truncate|step_by|take_while|skip_while|retain)$")


class JobPol(Policy):
    through_params = False

    def __init__(self, P, through):
        self.P = P
        self.through = through

    def call(self, b, bb, t):
        if t.op.fn is None or any(x in self.P.bodies for x in self.P.targets(b, t)):
            return "leaf"
        n = t.op.fn.name.rsplit("::", 1)[-1]
        if n in TRANSPARENT or (self.through and n in ("next", "into_iter", "iter_mut", "iter", "enumerate", "peekable", "remove", "pop", "pop_front", "drain")):
            return "args"
        if n == "index" and re.search(r"RangeFull", b.locals[t.args[1].place.l] if t.args[1].is_place else (t.args[1].ty or "")):
            return [0]
        return "leaf"


def whole_lines(P, R, verdicts):
    """the verdict over a line is asked about all of the jobs that are then run"""
    launch = P.can_reach(lambda b, i, t: is_spawn(t))
    for b in list(P.bodies.values()):
        if "safety::" in b.name or b.promoted is not None:
            continue
        for i, t in b.calls:
            if not (set(P.targets(b, t)) & verdicts):
                continue
            for a in t.args:
                ty = b.locals[a.place.l] if a.is_place else ""
                if not re.search(r"\[doge_shell::process::job::Job\]|Vec<doge_shell::process::job::Job", ty):
                    continue
                R.count("lines_judged")
                L = origins(P, b, a, i, JobPol(P, False))
                for o in L:
                    if o[0] == "call" and JOBNARROW.search(o[1]):
                        R.violation("partial-line:" + short(b.name), where(b, t.line), "the safety policy is asked about only a part of the line's jobs")
                src = {id(o[3]) for o in L if o[0] == "call"}
                if not src:
                    continue
                for j, u in b.calls:
                    if not any(x in launch for x in P.targets(b, u)):
                        continue
                    for q in u.args:
                        if q.is_place and re.match(r"&('\w+ )?mut doge_shell::process::job::Job$", b.locals[q.place.l]):
                            R.count("launches_compared")
                            for o in origins(P, b, q, j, JobPol(P, True)):
                                if o[0] == "call" and any(x in P.bodies for x in P.targets(o[2], o[3])) and id(o[3]) not in src and "process::job::Job" in dest_ty(o[2], o[3]):
                                    R.violation("other-line:" + short(b.name), where(b, u.line), "the job that is run comes from %s, not from the line the safety policy was asked about" % leaf_str(o))


class EntryPol(Policy):
    CUT = re.compile(r"::(split\w*|rsplit\w*|nth|lines|chars|file_name|file_stem|trim_end_matches|trim_start_matches|find|rfind|truncate)$")

    def __init__(self, P):
        self.P = P

    def call(self, b, bb, t):
        if t.op.fn is not None and (self.CUT.search(t.op.fn.name) or basename_fn(self.P, b, t)):
            return "leaf"
        return "args"


def allow_entries(P, R):
    """what `always` adds to the allow list is the whole command"""
    for b in list(P.bodies.values()):
        if "lisp::" in b.name or b.promoted is not None or "::tests::" in b.name:
            continue
        for i, t in b.calls:
            if t.op.fn is None or not re.search(r"::(push|extend|insert|extend_from_slice|append)$", t.op.fn.name) or len(t.args) < 2 or not t.args[0].is_place:
                continue
            if not re.search(r"Vec<alloc::string::String", b.locals[t.args[0].place.l]):
                continue
            if not any(o[0] == "field" and o[2] == "execute_allowlist" for o in origins(P, b, t.args[0], i, EntryPol(P))):
                continue
            R.count("allowlist_entries_added")
            for a in t.args[1:]:
                for o in origins(P, b, a, i, EntryPol(P)):
                    if o[0] == "call" and (EntryPol.CUT.search(o[1]) or basename_fn(P, o[2], o[3])):
                        R.violation("broad-entry:" + short(b.name), where(b, t.line), "`always` adds only a part of the command to the allow list (%s), which allows other commands too" % leaf_str(o))


LOOSE = re.compile(r"^core::str::<impl str>::(starts_with|ends_with|contains|find|matches|eq_ignore_ascii_case|strip_prefix)$|str::(starts_with|ends_with|contains|strip_prefix|matches|eq_ignore_ascii_case)$")


def strict_membership(P, R):
    """an entry of an allow list allows what equals it, not what resembles it"""
    for b in list(P.bodies.values()):
        if "safety::" not in b.name or b.promoted is not None or "::tests::" in b.name or b.kind != "closure":
            continue
        if b.argc < 2 or not re.match(r"&('\w+ )?(&('\w+ )?)?alloc::string::String$", b.locals[2]):
            continue
        # over the allow list?
        par = next((P.bodies[s[0].id] for s in flow_of(P).closure_sites.get(b.id, [])), None)
        if par is None:
            continue
        over = False
        for (pb, pi, pj, ops, dest) in flow_of(P).closure_sites.get(b.id, []):
            for ci, ct in pb.calls:
                if any(a.is_place and a.place.l == dest.l for a in ct.args) and ct.args and ct.args[0].is_place:
                    for o in origins(P, pb, ct.args[0], ci, LocalArgs(P)):
                        if o[0] == "param" and o[1] is pb and re.search(r"\[alloc::string::String\]|Vec<alloc::string::String", pb.locals[o[2]]) and not is_checker(pb):
                            over = True
        if not over:
            continue
        R.count("allowlist_scans")
        for i, t in b.calls:
            if t.op.fn is not None and LOOSE.search(t.op.fn.full):
                R.violation("loose-entry:" + short(par.name), where(b, t.line), "an allow-list entry allows what only resembles it (%s)" % t.op.fn.name.rsplit("::", 1)[-1])


class LocalArgs(Policy):
    through_params = False

    def __init__(self, P):
        self.P = P

    def call(self, b, bb, t):
        return "leaf" if any(x in self.P.bodies for x in self.P.targets(b, t)) else "args"


def consts(P, bid):
    out = set()
    for x in P.reach_from([bid]):
        b = P.bodies[x]
        if "safety::" not in b.name and b.promoted is None:
            continue
        for bb in b.bbs:
            for s in bb.stmts:
                if s.k == "=":
                    for o in rv_ops(s.rv):
                        if o.s is not None:
                            out.add(o.s)
            if bb.term.k == "call":
                for o in bb.term.args:
                    if o.s is not None:
                        out.add(o.s)
    return out


def byname(P, n):
    l = P.by_name.get(n) or []
    return l[0] if l else None


def execs(P, n):
    b = byname(P, n)
    return b is not None and "execute_command" in consts(P, b.id) and "list" not in consts(P, b.id)


def listed(P, n):
    b = byname(P, n)
    if b is None:
        return False
    return any(re.search(r"\[alloc::string::String\]|Vec<alloc::string::String>", b.locals[i]) for i in range(1, b.argc + 1))


def walk_chain(P, R, b):
    """the stages of a job are reached through the `next` link of both kinds of process, in a loop"""
    both = set()
    loop = False
    for bid in P.reach_from([b.id], skip=lambda e: "safety::" not in P.bodies[e[0]].name and "JobProcess" not in P.bodies[e[0]].name and "job_process" not in P.bodies[e[0]].name):
        x = P.bodies[bid]
        for i in x.reachable:
            for s in x.bbs[i].stmts:
                if s.k != "=":
                    continue
                pls = [o.place for o in rv_ops(s.rv) if o.is_place] + ([s.rv[1]] if s.rv[0] in ("ref", "raw") else [])
                for pl in pls:
                    for e in pl.p:
                        if e != "*" and e[0] == "f" and e[2] == "next":
                            both.add(e[3])
        if "safety::" in x.name:
            for i, t in x.calls:
                if t.op.fn and (t.op.fn.full.endswith("JobProcess::next") or t.op.fn.full.endswith("job_process::JobProcess::next")):
                    # is that block on a cycle?
                    seen, st = set(), list(x.bbs[i].term.succ())
                    while st:
                        y = st.pop()
                        if y == i:
                            loop = True
                        if y in seen:
                            continue
                        seen.add(y)
                        st += x.bbs[y].term.succ()
            if any(("process::Process" in e or "BuiltinProcess" in e) for e in both) and any(s.k == "=" and s.rv[0] == "ref" and "next" in s.rv[1].fields() for i in x.reachable for s in x.bbs[i].stmts):
                loop = True
    n = {e.rsplit("::", 1)[-1] for e in both}
    R.count("next_links", len(n))
    if not {"Process", "BuiltinProcess"} <= n or not loop:
        R.violation("stages-not-walked:" + short(b.name), where(b), "the verdict over a job list does not follow the pipeline's stages (links of both process kinds, in a loop); links read: %s" % sorted(n))


def narrows(b, t):
    """does this call leave out some elements of an argument vector?"""
    if t.op.fn is None or not re.search(r"alloc::string::String", dest_ty(b, t) + " ".join(b.locals[a.place.l] for a in t.args if a.is_place)):
        return None
    n = t.op.fn.name.rsplit("::", 1)[-1]
    if n in ("take", "take_while", "skip_while", "map_while", "step_by", "last", "nth", "split_last", "rsplit", "split_off", "truncate", "drain", "split_at", "partition_point", "binary_search"):
        return n
    if n in ("get", "index") and len(t.args) > 1:
        ty = b.locals[t.args[1].place.l] if t.args[1].is_place else (t.args[1].ty or "")
        if re.search(r"ops::(range::)?(RangeTo|Range|RangeToInclusive|RangeInclusive)\b", ty):
            return "a bounded sub-slice"
        if not t.args[1].is_place and t.args[1].val not in (None, 0, "0"):
            return "one fixed position"
    return None


def checkers(P, R):
    """a checker says nothing (None) only after it has looked at every argument"""
    for b in P.bodies.values():
        if b.kind != "fn" or b.promoted is not None or "safety::" not in b.name or b.argc != 1 or b.locals[0] != "core::option::Option<alloc::string::String>" or not re.search(r"\[alloc::string::String\]", b.locals[1]):
            continue
        R.count("checker_functions")

        class S(Spec):
            def on_call(self, eng, st, body, bb, t, vals, stack):
                f = t.op.fn
                if f and f.name.endswith("::next") and re.search(r"Option<&('\w+ )?alloc::string::String>", dest_ty(body, t)):
                    s2 = st.copy()
                    st.facts = st.facts | {"more"}
                    s2.facts = s2.facts - {"more"}
                    return [(E(OPT, "Some", None), st), (E(OPT, "None"), s2)]
                return None
        for x in {b.id} | {y for y in P.reach_from([b.id]) if "safety::" in P.bodies[y].name}:
            for i, t in P.bodies[x].calls:
                w = narrows(P.bodies[x], t)
                n = skipped(P, P.bodies[x], i, t)
                if n > 1:
                    w = "the first %d are left out" % n
                if w:
                    R.violation("partial-arguments:" + short(b.name), where(P.bodies[x], t.line), "the checker looks at only a part of the arguments (%s)" % w)
        en = Engine(P, S(P))
        for rv, facts, know in en.run(b.id, [None], State(), []):
            if rv is not None and rv[0] == "e" and rv[2] == "None" and "more" in facts:
                R.violation("checker-stops-early:" + short(b.name), where(b), "the checker clears the command before it has looked at every argument")
    # the documented dangerous commands are on the guard's lists
    names = set()
    for b in P.bodies.values():
        if b.kind == "fn" and b.promoted is None and b.locals[0] == "doge_shell::safety::SafetyGuard" and "safety::" in b.name:
            names |= consts(P, b.id)
    for n in ("rm", "mv", "cp", "dd", "mkfs", "format", "reboot", "shutdown", "poweroff", "mkswap", "git", "curl", "wget", "chmod", "chown"):
        R.count("documented_commands")
        if n not in names:
            R.violation("not-guarded:" + n, "dsh/src/safety/mod.rs", "the documented dangerous command `%s` is on no list of the guard" % n)
