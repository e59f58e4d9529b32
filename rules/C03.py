"""MCP tools run only after the guard allowed the call or the user approved it."""
from rules.common import *

MOD = "dsh_builtin::chatgpt::mcp::"


def run(P, R, tier):
    R.explanation = ("Path simulation (no execution): every path of the functions that ask the MCP layer to run a tool is walked; "
                     "the call must be preceded on that path by a safety verdict known to be Allowed, or by a user answer known to be yes/always, "
                     "and each approval is spent by the one call it authorises.")
    deep = P.can_reach(lambda b, i, t: t.op.fn is not None and t.op.fn.full.endswith("::call_tool") and t.op.fn.full.startswith("rmcp::"))

    def sink(b, i, t):
        if b.name.startswith(MOD) or ("<" + MOD) in b.name:
            return False
        return any(x in deep and P.bodies[x].name.startswith(MOD) for x in P.targets(b, t))
    cont = {b.id for b in P.bodies.values() for i, t in b.calls if sink(b, i, t)}
    # the transport itself is only entered through the MCP layer
    direct = [b for b in P.bodies.values() for i, t in b.calls if t.op.fn and t.op.fn.full.endswith("::call_tool") and t.op.fn.full.startswith("rmcp::")]
    for b in direct:
        R.count("transport_calls")
        if MOD not in b.name:
            R.violation("direct-transport-call:" + short(b.name), where(b), "an MCP tool is called on the transport outside the MCP layer")
    viol, stats, sites = climb(P, lambda: ConsentSpec(P, sink), cont)
    R.counts.update({"tool_call_sites": len(sites), "functions_walked": len(stats["functions"]), "abstract_states": stats["states"]})
    for k, v in sites.items():
        R.sample("%s in %s: approvals on its paths: %s" % (short(k[1]), short(P.bodies[k[0]].name), sorted(map(str, v))))
    for b, t, st in viol:
        R.violation("unapproved:%s:%s" % (short(b.name), short(t.op.fn.full)), where(b, t.line),
                    "a path runs the MCP tool without an Allowed verdict or the user's approval: " + stack_str(st, b, t.line))
    same_call(P, R, sink)
    R.floor("tool_call_sites", 2, "MCP tool call sites")
    R.floor("transport_calls", 1, "transport calls")


class Id(Policy):
    """a value up to conversions that keep it"""
    def __init__(self, P, stop=()):
        self.P = P
        self.stop = stop

    def call(self, b, bb, t):
        if id(t) in self.stop:
            return "leaf"
        if self.stop:
            return "args"
        if t.op.fn is None or any(x in self.P.bodies for x in self.P.targets(b, t)):
            return "leaf"
        return "args" if t.op.fn.name.rsplit("::", 1)[-1] in TRANSPARENT else "leaf"


def keyset(L):
    return frozenset((o[0], id(o[3])) if o[0] == "call" else (o[0], str(o[1]), str(o[2]) if o[0] in ("param", "field") else "") for o in L)


def same_call(P, R, sink):
    """the call that is run is the call the policy was asked about"""
    strp = re.compile(r"^&('\w+ )?(str|alloc::string::String)$")

    def strs(b, t):
        return [a for a in t.args if (strp.match(b.locals[a.place.l]) if a.is_place else strp.match(a.ty or ""))]
    checks, sinks, pushes = [], [], []
    for b in P.bodies.values():
        if "safety::" in b.name or "::tests::" in b.name or b.promoted is not None:
            continue
        for i, t in b.calls:
            if gate_kind(b, t) == "verdict" and len(strs(b, t)) == 2:
                checks.append((b, i, t, [keyset(origins(P, b, a, i, Id(P))) for a in strs(b, t)]))
            elif sink(b, i, t):
                sinks.append((b, i, t, [keyset(origins(P, b, a, i, Id(P))) for a in strs(b, t)]))
    R.counts["policy_questions"] = len(checks)
    for b, i, t, ks in sinks:
        near = [c for c in checks if c[0].id == b.id or b.id in P.reach_from([c[0].id])]
        if not near:
            continue
        R.count("calls_compared")
        if not any(c[3] == ks for c in near):
            R.violation("other-call:" + short(b.name), where(b, t.line), "the tool call that is run is not the one the policy was asked about (another name or other arguments)")
    # an entry added by `always` names this call
    for c in checks:
        stop = {x[1] for k in c[3] for x in k if x[0] == "call"}
        for y in {c[0].id} | set(P.reach_from([c[0].id])):
            b = P.bodies[y]
            if "lisp::" in b.name or "::tests::" in b.name or "safety::" in b.name:
                continue
            for i, t in b.calls:
                if t.op.fn is None or not re.search(r"::(push|extend|insert)$", t.op.fn.name) or len(t.args) < 2 or not t.args[0].is_place or not re.search(r"Vec<alloc::string::String", b.locals[t.args[0].place.l]):
                    continue
                if not any(o[0] == "field" and o[2] == "execute_allowlist" for o in origins(P, b, t.args[0], i, Id(P, {0}))):
                    continue
                R.count("entries_added")
                got = {id(o[3]) for o in origins(P, b, t.args[1], i, Id(P, stop)) if o[0] == "call"}
                for k in c[3]:
                    need = {x[1] for x in k if x[0] == "call"}
                    if need and not need & got:
                        R.violation("broad-entry:" + short(b.name), where(b, t.line), "`always` adds an entry that does not name the approved call's arguments: later calls run without approval")
    from rules.C02 import strict_membership
    strict_membership(P, R)
