"""Only an explicit yes is a yes."""
from rules.common import *
from rules.C06 import RL, YES


class Ans(Spec):
    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is None:
            return None
        sh = f.name.rsplit("::", 1)[-1]
        if re.search(r"crossterm::event::read$", f.full):
            st.facts = frozenset(x for x in st.facts if not (isinstance(x, tuple) and x[0] == "key"))
            return [(None, st)]
        if RL.search(f.full):
            s2, s3 = st.copy(), st.copy()
            s2.facts = s2.facts | {"eof"}
            s3.facts = s3.facts | {"err"}
            return [(E(RES, "Ok", None), st), (E(RES, "Ok", C(0)), s2), (E(RES, "Err", None), s3)]
        if sh in ("eq", "ne", "eq_ignore_ascii_case") and dest_ty(body, t) == "bool":
            ss = [x for a in t.args for x in const_strs(self.P, body, bb, a)]
            if ss:
                s2 = st.copy()
                st.facts = st.facts | {("str", ss[0].lower())}
                if "eof" in st.facts and ss[0]:
                    return [(C(sh == "ne"), s2)]
                return [(C(sh != "ne"), st), (C(sh == "ne"), s2)]
        return None


def run(P, R, tier):
    R.explanation = ("Path simulation over MIR of the functions that turn the user's input into an answer: yes only on paths where the input was compared equal to y/yes (key y/Y), "
                     "always only for key a/A; end of input and read failures are never a yes. Who may build a yes at all is enumerated.")
    CA = r"repl::confirmation::ConfirmationAction"
    for b in P.bodies.values():
        if b.promoted is not None:
            continue
        calls = [t.op.fn.full for i, t in b.calls if t.op.fn]
        if re.search(r"Result<.*%s" % CA, b.locals[0]) and any(re.search(r"crossterm::event::read$", c) for c in calls):
            R.count("key_dialogs")
            en = Engine(P, Ans(P))
            for rv, facts, know in en.run(b.id, [None] * b.argc, State(), []):
                if rv is not None and rv[0] == "e" and rv[2] == "Err":
                    continue
                R.count("answer_paths")
                keys = {x[1] for x in facts if isinstance(x, tuple) and x[0] == "key"}
                v = rv[3][0] if rv is not None and rv[0] == "e" and rv[3] else None
                var = v[2] if v is not None and v[0] == "e" else None
                R.sample("%s: keys %s -> %s" % (short(b.name), sorted(keys), var))
                if var == "No":
                    continue
                ok = {"Yes": {"y", "Y"}, "AlwaysAllow": {"a", "A"}}.get(var, set())
                if not keys & ok or keys - ok:
                    R.violation("key:%s:%s" % (short(b.name), var), where(b), "the dialog answers %s for the keys %s" % (var, sorted(keys)))
        elif b.locals[0].startswith("core::result::Result<bool") and "confirm" in b.name and any(RL.search(c) for c in calls):
            R.count("line_dialogs")
            en = Engine(P, Ans(P))
            for rv, facts, know in en.run(b.id, [None] * b.argc, State(), []):
                if rv is not None and rv[0] == "e" and rv[2] == "Err":
                    continue
                R.count("answer_paths")
                v = rv[3][0] if rv is not None and rv[0] == "e" and rv[3] else None
                strs = {x[1] for x in facts if isinstance(x, tuple) and x[0] == "str"}
                R.sample("%s: input %s -> %s" % (short(b.name), sorted(strs), v))
                if v == C(False):
                    continue
                if not strs & YES or {"eof", "err"} & facts:
                    R.violation("line:" + short(b.name), where(b), "the confirmation says yes for an input that is not y/yes (%s)" % sorted(map(str, facts)))
        # nobody else makes up a yes
        for i in sorted(b.reachable):
            for s in b.bbs[i].stmts:
                if s.k == "=" and s.rv[0] == "agg" and s.rv[1][0] == "adt" and re.search(CA + "$", s.rv[1][1]) and s.rv[1][2] != "No":
                    R.count("yes_constructions")
                    if b.derived:
                        continue
                    if not any(re.search(r"crossterm::event::read$", c) for c in calls):
                        R.violation("made-up-yes:" + short(b.name), where(b, s.line), "an approval is made up here without asking the user")
    # handlers pass the answer on
    for b in P.bodies.values():
        if b.promoted is None and re.search(r"^core::result::Result<doge_shell::%s" % CA, b.locals[0]) and not any(t.op.fn and re.search(r"crossterm::event::read$", t.op.fn.full) for i, t in b.calls):
            R.count("handlers")
            for i in sorted(b.reachable):
                if b.bbs[i].term.k != "ret":
                    continue
                class Pol(WholePolicy):
                    through_params = False

                    def call(self, bo, bb, t):
                        tg = self.P.targets(bo, t)
                        if t.op.fn is not None and re.search(CA, dest_ty(bo, t)) and tg:
                            return "leaf"
                        return None
                from vpa.ir import Place
                for o in flow_of(P).origins(b, Place(0), i, 1 << 30, Pol(P)):
                    if o[0] == "const" and o[3] and re.search(CA, o[3]) and o[1] not in (1,):
                        R.violation("constant-answer:" + short(b.name), where(b), "a confirmation handler answers with a constant")
    R.floor("key_dialogs", 1, "key dialogs")
    R.floor("line_dialogs", 1, "line dialogs")
    R.floor("answer_paths", 4, "answer paths")
