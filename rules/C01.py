"""No process is started for a line before the safety policy allowed it or the user said yes."""
from rules.common import *

JOBM = re.compile(r"process::job::Job::\w+$")

JOBLIST = re.compile(r"(Vec<|IntoIter<|Iter<'?_?,? ?|\[)&?(mut )?doge_shell::process::job::Job\b")


def run(P, R, tier):
    R.explanation = ("Path simulation over MIR (no execution): from every function that starts jobs, up to the line evaluator, each path must pass a safety "
                     "verdict known to be Allowed or a user answer known to be yes/always before a job is launched or a subshell forked; "
                     "the line evaluator must return the documented status on a denied or refused verdict, and the verdict must be asked about the whole job list.")
    spawning = P.can_reach(lambda b, i, t: is_spawn(t))

    def job_method(name):
        return bool(JOBM.search(name))

    def sink(b, i, t):
        f = t.op.fn
        if f is None or "process::" in b.name:
            return False
        if re.match(r"nix::unistd::fork$", f.full):
            return True
        return job_method(f.full) and any(x in spawning for x in P.targets(b, t))
    cont = {b.id for b in P.bodies.values() for i, t in b.calls if sink(b, i, t)}
    results = []

    class S(ConsentSpec):
        consume = False
    viol, stats, sites = climb(P, lambda: S(P, sink), cont)
    R.counts.update({"launch_sites": len(sites), "functions_walked": len(stats["functions"]), "abstract_states": stats["states"], "entries": stats["entries"]})
    for k, v in sites.items():
        R.sample("%s in %s: approvals on its paths: %s" % (short(k[1]), short(P.bodies[k[0]].name), sorted(map(str, v))))
    for b, t, st in viol:
        R.violation("unapproved:%s:%s" % (short(b.name), short(t.op.fn.full)), where(b, t.line),
                    "a path starts a process without an Allowed verdict or the user's approval: " + stack_str(st, b, t.line))
    # commands the line editor hands to sh itself (`command |! question`)
    def shell_out(b):
        return re.match(r"^<?doge_shell::repl::", b.name) and any(
            t.op.fn is not None and re.search(r"process::Command::new$", t.op.fn.full) and (const_strs(P, b, i, t.args[0]) or ["sh"]) == ["sh"] for i, t in b.calls)
    outs = {b.id for b in P.bodies.values() if b.promoted is None and shell_out(b)}

    def direct(b, i, t):
        return b.id in outs and t.op.fn is not None and bool(re.search(r"process::Command::(output|status|spawn)$", t.op.fn.full))
    viol2, stats2, sites2 = climb(P, lambda: S(P, direct), outs)
    R.counts["direct_sites"] = len(sites2)
    R.count("abstract_states", stats2["states"])
    for b, t, st in viol2:
        R.violation("direct:%s:%s" % (short(b.name), short(t.op.fn.full)), where(b, t.line),
                    "a path runs a typed command through sh without an Allowed verdict or the user's approval: " + stack_str(st, b, t.line))
    # the verdict is asked about the whole job list
    pol = WholePolicy(P)
    for b in P.bodies.values():
        for i, t in b.calls:
            if gate_kind(b, t) != "verdict":
                continue
            for a in t.args:
                if a.is_place and re.search(r"\[.*process::job::Job\]", b.locals[a.place.l]):
                    R.count("verdict_sites")
                    for x in origins(P, b, a, i, pol):
                        ok = x[0] == "param" or (x[0] == "call" and (P.targets(x[2], x[3]) or not any(
                            q.is_place and JOBLIST.search(x[2].locals[q.place.l]) for q in x[3].args)))
                        if not ok:
                            R.violation("partial-verdict:%s:%s" % (short(b.name), leaf_str(x)), where(b, t.line),
                                        "the safety verdict is asked about a value that is not the whole job list: " + leaf_str(x))
    # the evaluator's status after a denied / refused verdict
    for bid, sp in stats["specs"].items():
        b = P.bodies[bid]
        if sp.bad:
            continue
        for rv, facts, know in sp.results:
            kn = dict(know)
            v = kn.get(("verdict",))
            if v is None:
                continue
            R.count("verdict_outcomes")
            denied = v == frozenset(["Denied"])
            c = kn.get(("confirm",))
            refused = v == frozenset(["Confirm"]) and ((c == frozenset(["Err"])) or kn.get(("confirm", ("v", "Ok"), 0)) == frozenset(["No"]))
            if not denied and not refused:
                continue
            R.count("stopped_outcomes")
            is_err = rv is not None and rv[0] == "e" and rv[2] == "Err"
            code = rv[3][0] if rv is not None and rv[0] == "e" and rv[2] == "Ok" else None
            want = 1 if denied else 130
            if b.kind == "coroutine":
                R.count("status_outcomes")
                if not (code is not None and code[0] == "c" and code[1] == want):
                    R.violation("status:%s:%s" % ("denied" if denied else "refused", short(b.name)), where(b),
                                "a %s line does not end with status %d" % ("denied" if denied else "refused", want))
            elif not is_err:
                R.violation("nested-not-abandoned:%s:%s" % ("denied" if denied else "refused", short(b.name)), where(b),
                            "a %s nested command does not abandon the line" % ("denied" if denied else "refused"))
    R.floor("verdict_sites", 2, "verdict call sites over job lists")
    R.floor("status_outcomes", 2, "stopped outcomes of the line evaluator")
    R.floor("launch_sites", 4, "job launch sites")
