"""Too few words, or a zero, never take the shell down."""
from rules.common import *
from vpa import bounds
from vpa.ir import rv_ops

TEXT = re.compile(r"^(alloc::string::String|str|alloc::borrow::Cow<.*str>|std::ffi::os_str::OsStr(ing)?|doge_shell::lisp::model::value::Value)$")
POSITION = {"index", "range", "remove", "insert", "split", "swap"}
COMMANDS = re.compile(r"^(<?dsh_builtin::|<?doge_shell::proxy::|<?doge_shell::lisp::)")
PUSHARG = re.compile(r"Vec<alloc::string::String(, alloc::alloc::Global)?>$")


def builtin(b):
    """a command of the shell: fn(&Context, Vec<String>, &mut dyn ShellProxy)"""
    return b.kind == "fn" and b.promoted is None and b.argc == 3 and b.crate == "dsh_builtin" and PUSHARG.search(b.locals[2]) and "ShellProxy" in b.locals[3] and "Context" in b.locals[1]


def run(P, R, tier):
    R.explanation = ("Difference-bound analysis of lengths and indexes over MIR (relations a - b <= c between integers and collection lengths, refined at every branch, carried through returns and across calls): "
                     "an element of a list of words or Lisp values taken, removed or cut off by position has to be known to exist on every path, and every divisor has to be known not to be zero. "
                     "What a helper needs of its arguments is an obligation of its callers.")
    A = bounds.Analysis(P)
    for b in P.bodies.values():
        if builtin(b):
            A.entry_facts[b.id] = [(bounds.Z, ("n", (2,)), -1)]
            R.count("builtins")
    taken = set()
    for b in P.bodies.values():
        for i in b.reachable:
            bb = b.bbs[i]
            ops = [o for st in bb.stmts if st.k == "=" for o in rv_ops(st.rv)]
            if bb.term.k == "call":
                ops += bb.term.args
            for o in ops:
                if o.fn is not None and o.fn.target in P.bodies:
                    taken.add(o.fn.target)
                if o.named:
                    pass
    direct = {}
    for b in P.bodies.values():
        for i, t in b.calls:
            tg = [x for x in P.targets(b, t) if x in P.bodies]
            for x in tg:
                direct.setdefault(x, set()).add(b.id)
                if len(tg) > 1:
                    taken.add(x)
    todo = [b.id for b in sorted(P.bodies.values(), key=lambda b: (b.name, str(b.id))) if b.promoted is None and bounds.has_sites(b)]
    done = set()
    while todo:
        bid = todo.pop(0)
        if bid in done:
            continue
        done.add(bid)
        b = P.bodies[bid]
        if b.kind == "closure" and b.parent and b.parent[1] in P.bodies:
            A.analyse(b.parent[1])
        r = A.analyse(bid)
        if r is None:
            R.count("given_up")
            continue
        R.count("bodies")
        R.count("abstract_states", r["states"])
        carried = b.kind == "fn" and bid not in taken and bid in direct
        up = False
        for key in sorted(r["needs"]):
            n = r["needs"][key]
            if not claimed(b, n):
                continue
            R.count("divisors" if n["kind"] == "div" else "positions")
            if n["ok"]:
                continue
            if n["params"] and carried:
                up = True
                R.count("carried_to_callers")
                continue
            src = n["src"]
            at = P.bodies[src[0]] if src else b
            R.violation("%s:%s:%s" % (n["kind"], short(at.name), short(b.name)) if src else "%s:%s" % (n["kind"], short(b.name)), where(b, n["line"]),
                        "%s is not known to %s here%s" % (n["what"], "differ from zero" if n["kind"] == "div" else "exist",
                                                         " (needed by %s at %s)" % (short(at.name), where(at, src[1])) if src else ""))
        if up:
            todo += sorted(direct[bid], key=str)
    R.floor("builtins", 40, "builtin commands")
    R.floor("positions", 60, "elements taken by position")
    R.floor("divisors", 15, "divisions")


def claimed(b, n):
    if n["kind"] == "div":
        return True
    if n["kind"] == "unwrap":
        return bool(n["elem"] and TEXT.match(n["elem"]) and COMMANDS.match(b.name))
    if n["kind"] not in POSITION or not n["elem"] or not TEXT.match(n["elem"]):
        return False
    return bool(n["const"]) or bool(COMMANDS.match(b.name)) and TEXT.match(n["elem"]) is not None
