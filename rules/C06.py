"""Prompted commands run only after the user's yes."""
from rules.common import *

YES = {"y", "yes"}
RL = re.compile(r"std::io::stdio::Stdin(Lock.*)?(::|.*>::)read_line$")


def run(P, R, tier):
    R.explanation = ("Path simulation over MIR: in safe-run, a command is dispatched or captured, and a captured output released, only after a confirmation known to be Ok(true), one per action; "
                     "in every function that reads a yes/no answer from the terminal, what is started after the question needs the answer compared equal to y/yes "
                     "(or, where Enter means yes, known to be neither no nor quit nor the end of input).")
    spawning = P.can_reach(lambda b, i, t: is_spawn(t))
    # ---- safe-run
    safe = [b for b in P.bodies.values() if b.name.startswith("dsh_builtin::safe_run::") and b.promoted is None]
    ids = {b.id for b in safe}

    def sink(b, i, t):
        f = t.op.fn
        if b.id not in ids or f is None:
            return False
        if f.name.endswith("ShellProxy::dispatch") or f.name.endswith("ShellProxy::capture_command") or is_spawn(t):
            return True
        # what was captured is released to the standard output
        return bool(re.search(r"std::io::stdio::_print$|ShellProxy::run_hook$|Context::write_stdout$", f.full)) and captured(P, b, i, t)
    cont = {b.id for b in safe for i, t in b.calls if sink(b, i, t)}

    class S(ConsentSpec):
        consume = True
    viol, stats, sites = climb(P, lambda: S(P, sink), cont, within=lambda b: b.id in ids)
    R.counts.update({"safe_run_sites": len(sites), "abstract_states": stats["states"]})
    for k, v in sites.items():
        R.sample("%s in %s: %s" % (short(k[1]), short(P.bodies[k[0]].name), sorted(map(str, v))))
    for b, t, st in viol:
        R.violation("safe-run:%s:%s" % (short(b.name), short(t.op.fn.full)), where(b, t.line),
                    "safe-run reaches this without a confirmation of its own: " + stack_str(st, b, t.line))
    # ---- yes/no questions
    for b in list(P.bodies.values()):
        if b.promoted is not None or not any(t.op.fn and RL.search(t.op.fn.full) for i, t in b.calls):
            continue
        sp = Answers(P, spawning)
        kinds = sp.answers(b)
        if not kinds & {"y", "n"}:
            continue
        en = Engine(P, sp)
        sp.mode = "yes" if "y" in kinds else "notno"
        en.run(b.id, [None] * (b.argc if b.kind == "fn" else 1), State(), [])
        R.count("questions")
        R.count("question_sinks", len(sp.sites))
        R.count("abstract_states", en.stats["states"])
        R.sample("%s: answers %s, %d guarded starts" % (short(b.name), sorted(kinds), len(sp.sites)))
        for k, (t, why) in sp.bad.items():
            R.violation("prompt:%s:%s" % (short(b.name), short(t.op.fn.full)), where(b, t.line), "a command is started although " + why)
    R.floor("safe_run_sites", 3, "execution and release sites of safe-run")
    R.floor("question_sinks", 4, "commands started after a yes/no question")


def captured(P, b, i, t):
    class Pol(WholePolicy):
        through_params = False

        def call(self, b, bb, t):
            if t.op.fn is not None and t.op.fn.name.endswith("ShellProxy::capture_command"):
                return "leaf"
            if t.op.fn is not None and re.search(r"send_chat_request", t.op.fn.full):
                return "stop"
            return None
    for a in t.args:
        if a.is_place:
            for o in origins(P, b, a, i, Pol(P)):
                if o[0] == "call" and o[1].endswith("capture_command"):
                    return True
    return False


class Answers(Spec):
    def __init__(self, P, spawning):
        super().__init__(P)
        self.spawning = spawning
        self.sites, self.bad = set(), {}
        self._strs = {}
        self.mode = "yes"

    def strs(self, body, bb, t):
        k = (body.id, bb)
        if k not in self._strs:
            self._strs[k] = [x for a in t.args for x in const_strs(self.P, body, bb, a)]
        return self._strs[k]

    def answer(self, b, bb, a):
        """is this text what was read as the answer?"""
        k = (b.id, bb, "ans")
        if k not in self._strs:
            class Pol(WholePolicy):
                through_params = False

                def call(self, b, bb, t):
                    if t.op.fn is not None and re.search(r"::(trim|trim_end|trim_start|to_lowercase|to_ascii_lowercase|to_uppercase|to_ascii_uppercase)$", t.op.fn.name):
                        return "args"
                    return WholePolicy.call(self, b, bb, t)
            os = origins(self.P, b, a, bb, Pol(self.P))
            self._strs[k] = any(o[0] == "mutcall" and "read_line" in str(o[1]) for o in os) or not os
        return self._strs[k]

    def answers(self, b):
        out = set()
        for i, t in b.calls:
            f = t.op.fn
            if f and f.name.rsplit("::", 1)[-1] in ("eq", "ne", "eq_ignore_ascii_case", "starts_with"):
                out |= {s.lower()[:1] for s in self.strs(b, i, t) if s.lower() in ("y", "yes", "n", "no")}
        return out

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is None:
            return None
        if RL.search(f.full):
            s2, s3 = st.copy(), st.copy()
            base = st.facts - {"yes", "no", "quit", "eof"}
            base = frozenset(x for x in base if not (isinstance(x, tuple) and x[0] == "buf")) - {"made-up"}
            if len(vals) > 1 and vals[1] is not None and vals[1][0] in ("r", "u"):
                base = base | {("buf", body.id, vals[1][1])}
            st.facts = base | {"asked"}
            s2.facts = base | {"asked", "eof"}
            s3.facts = base | {"asked", "eof"}
            return [(E(RES, "Ok", None), st), (E(RES, "Ok", C(0)), s2), (E(RES, "Err", None), s3)]
        sh = f.name.rsplit("::", 1)[-1]
        if "eof" in st.facts and re.search(r"String::(push|push_str|insert|insert_str|extend)$|String as .*(extend|write_str|write_char|write_fmt|add_assign)$", f.full) and vals and vals[0] is not None                 and vals[0][0] in ("r", "u") and ("buf", body.id, vals[0][1]) in st.facts:
            st.facts = (st.facts - {"eof"}) | {"made-up"}
            return None
        if sh in ("eq", "ne", "eq_ignore_ascii_case") and dest_ty(body, t) == "bool":
            ss = [s.lower() for s in self.strs(body, bb, t)]
            if ss:
                s2 = st.copy()
                tag = "yes" if ss[0] in YES else "no" if ss[0] in ("n", "no") else "quit" if ss[0] in ("q", "quit") else None
                if tag:
                    st.facts = st.facts | {tag}
                    s2.facts = s2.facts | {"not-" + tag}
                if ss[0] and "eof" in st.facts:
                    return [(C(sh == "ne"), s2)]
                return [(C(sh != "ne"), st), (C(sh == "ne"), s2)]
            return None
        if sh == "is_empty" and "eof" in st.facts and ("str" in f.full or "String" in f.full) and self.answer(body, bb, t.args[0]):
            return [(C(True), st)]
        hit = is_spawn(t) or f.name.endswith("ShellProxy::dispatch") or f.name.endswith("ShellProxy::capture_command") or (
            not f.name.endswith("ShellProxy::open_editor") and any(x in self.spawning for x in self.P.targets(body, t)))
        if hit and "asked" in st.facts:
            self.sites.add((body.id, bb))
            if "made-up" in st.facts:
                self.bad[(body.id, bb)] = (t, "the input ended and the answer was made up")
            if self.mode == "yes" and "yes" not in st.facts:
                self.bad[(body.id, bb)] = (t, "the answer was not compared equal to yes")
            if self.mode == "notno":
                if "eof" in st.facts:
                    self.bad[(body.id, bb)] = (t, "the input ended")
                elif "no" in st.facts or "quit" in st.facts or "not-no" not in st.facts:
                    self.bad[(body.id, bb)] = (t, "the answer may be no")
            return [(None, st)]
        return None
