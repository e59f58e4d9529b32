"""Commands reach the command history only through the secret filter."""
from rules.common import *

HIST = re.compile(r"history::command_history::History$|history::History$")
MODE = "doge_shell::secrets::SecretHistoryMode"
IDENT = re.compile(r"::(to_string|to_owned|clone|into_owned|into|from|as_str|as_ref|deref|borrow|trim|trim_end|trim_start|into_boxed_str|must_use)$")
TEXTY = re.compile(r"str\b|String|Cow|Path|\[u8\]|Vec<u8>|serde_json::value::Value")
SCALAR = re.compile(r"^(&('[a-z_0-9]+ )?(mut )?)*(i8|i16|i32|i64|i128|isize|u8|u16|u32|u64|u128|usize|bool|f32|f64|char|\(\))$")


def mode_users(P):
    """functions deciding by the history mode what may be stored: Option<String> with a SecretHistoryMode switched on inside"""
    out = set()
    for b in P.bodies.values():
        if b.kind == "fn" and b.promoted is None and re.match(r"core::option::Option<(alloc::string::String|alloc::borrow::Cow<)", b.locals[0]) and any(base_ty(l) == MODE for l in b.locals):
            out.add(b.id)
    return out


class Text(WholePolicy):
    """text provenance: through everything, stopping at the filter's result"""
    max_nodes = 6000

    def __init__(self, P, filt):
        self.P = P
        self.filt = filt

    def cut(self, b, l, path):
        return not path and bool(SCALAR.match(b.locals[l]))

    def call(self, b, bb, t):
        if t.op.fn is None:
            return "leaf"
        tg = [x for x in self.P.targets(b, t) if x in self.P.bodies]
        if any(x in self.filt for x in tg):
            return "stop"
        if t.op.fn.name.rsplit("::", 1)[-1] in ("map", "filter_map", "and_then", "flat_map", "map_while"):
            return "clo"
        return None


class Mode(Spec):
    def __init__(self, P, entry, sens, red):
        super().__init__(P)
        self.entry, self.sens, self.red = entry, sens, red
        self.parts = []
        self.gates = {"mode": 0, "sens": 0, "red": 0}
        g = lambda b, i, t: b.id not in sens and b.id not in red and any(x in sens or x in red for x in P.targets(b, t))
        self.interesting = {x for x in P.can_reach(g) if "secrets::" in P.bodies[x].name} - sens - red

    def whole(self, eng, st, vals):
        return any((eng.deref(st, v) if v is not None else None) == C("the command") for v in vals)

    def on_call(self, eng, st, body, bb, t, vals, stack):
        ty = dest_ty(body, t)
        if t.op.fn is not None and vals and IDENT.search(t.op.fn.name) and vals[0] is not None and eng.deref(st, vals[0]) == C("the command"):
            return [(C("the command"), st)]
        if base_ty(ty) == MODE and t.op.fn is not None:
            self.gates["mode"] += 1
            y = eng.sym(st, "mode") if ("mode",) not in st.know else ("y", ("mode",), MODE)
            return [(y, st)]
        tg = self.P.targets(body, t)
        if any(x in self.sens for x in tg) and ty == "bool":
            self.gates["sens"] += 1
            if not self.whole(eng, st, vals):
                self.parts.append(("tested for secrets", body, t))
            return [(eng.sym(st, "sens"), st)]
        if any(x in self.red for x in tg):
            self.gates["red"] += 1
            if not self.whole(eng, st, vals):
                self.parts.append(("redacted", body, t))
            return [(E("redacted", "r"), st)]
        return None


def run(P, R, tier):
    R.explanation = ("Provenance over MIR: every text handed to a History method that stores commands, from anywhere outside the history module, must be a constant or the result of the secret filter; "
                     "path simulation of the filter: a sensitive command yields nothing in skip mode and only the redactor's result in redact mode.")
    filt = mode_users(P)
    R.count("filters", len(filt))
    R.floor("filters", 1, "secret filters")
    # ---- the filter
    import rules.C08 as C08
    det, red = C08.detectors(P), C08.redactors(P)
    R.count("detectors", len(det))
    R.count("redactors", len(red))
    for f in sorted(filt, key=str):
        b = P.bodies[f]
        sp = Mode(P, f, {x.id for x in det}, {x.id for x in red})
        en = Engine(P, sp)
        res = en.run(f, [C("the command") if re.match(r"&('[a-z_0-9]+ )?str$|alloc::string::String$|&.*String$|alloc::borrow::Cow<", b.locals[k + 1]) else None for k in range(b.argc)], State(), [])
        for what, xb, t in sp.parts:
            R.violation("part:%s" % short(xb.name), where(xb, t.line), "not the whole command is %s by the secret filter" % what)
        for v, facts, know in res:
            m = dict(know).get(("mode",), frozenset(["Skip", "Redact", "None"]))
            s = dict(know).get(("sens",), frozenset([True, False]))
            R.count("filter_paths")
            R.sample("%s: mode %s sensitive %s -> %s" % (short(b.name), sorted(map(str, m)), sorted(s), "None" if v and v[0] == "e" and v[2] == "None" else "redacted" if "redacted" in str(v) else "the command"))
            if True not in s or m == frozenset(["None"]):
                continue
            isnone = v is not None and v[0] == "e" and v[2] == "None"
            isred = v is not None and v[0] == "e" and v[2] == "Some" and "redacted" in str(v)
            if isnone:
                continue
            if "Skip" in m:
                R.violation("skip:%s" % short(b.name), where(b), "in skip mode a command the detector calls sensitive (or that was not tested) is returned for storing")
            if "Redact" in m and not isred:
                R.violation("redact:%s" % short(b.name), where(b), "in redact mode a sensitive (or untested) command is returned without redaction")
        for k, n in sp.gates.items():
            if not n:
                R.violation("gate:%s:%s" % (k, short(b.name)), where(b), "the secret filter no longer asks for %s" % {"mode": "the history mode", "sens": "sensitivity", "red": "redaction"}[k])
    # ---- the writers
    hist_adts = [a for a in P.adts if HIST.search(a)]
    R.count("history_types", len(hist_adts))
    methods = set()
    for b in P.bodies.values():
        if b.kind != "fn" or b.promoted is not None or b.argc < 2 or not b.name.startswith("doge_shell::history::command_history"):
            continue
        if not any(re.match(r"&('[a-z_0-9]+ )?mut " + re.escape(a) + "$", b.locals[1]) for a in hist_adts):
            continue
        if stores(P, b):
            methods.add(b.id)
    R.count("storing_methods", len(methods))
    R.floor("storing_methods", 3, "storing methods of the command history")
    F = flow_of(P)
    for b in P.bodies.values():
        if b.name.startswith("doge_shell::history::command_history") or b.name.startswith("<doge_shell::history::"):
            continue
        for i, t in b.calls:
            if not any(x in methods for x in P.targets(b, t)):
                continue
            R.count("write_sites")
            bad = []
            for a in t.args[1:]:
                ty = arg_ty(b, a)
                if not (TEXTY.search(ty) or "impl" in ty):
                    continue
                if re.search(r"HistoryMetadata", ty):
                    continue
                R.count("stored_texts")
                for x in F.origins(b, a, i, len(b.bbs[i].stmts), Text(P, filt)):
                    if x[0] in ("const", "variant", "closure", "named"):
                        continue
                    if x[0] in ("call", "mutcall") and not TEXTY.search(dest_ty(x[2], x[3])):
                        continue
                    bad.append(x)
            R.sample("%s:%s %s -> %s" % (b.file, t.line, short(b.name), short(t.op.fn.name)))
            if bad:
                R.violation("unfiltered:%s" % short(b.name), where(b, t.line), "stores text that did not come through the secret filter: %s" % ", ".join(sorted({leaf_str(x) for x in bad})[:4]))
    R.floor("write_sites", 4, "history write sites")
    R.assumptions += ["what the detector's patterns recognise is not judged (C08 judges that the redactor covers them)", "notebook recordings are an explicit record of the session, not the command history"]


def arg_ty(b, a):
    if a.is_place and not a.place.p:
        return b.locals[a.place.l]
    return a.ty or "str"


def stores(P, b):
    pat = re.compile(r"rusqlite::.*(execute|query_row|insert)$|mpsc::Sender.*send$|::Entry>>?::(push|insert)$")

    def pred(x, i, t):
        return t.op.fn is not None and x.name.startswith("doge_shell::history::command_history") and bool(re.search(r"Statement.*::(execute|query_row|insert)|Connection::execute|mpsc::Sender(<.*>)?::send$", t.op.fn.full))
    S = getattr(P, "_c07stores", None)
    if S is None:
        S = P._c07stores = P.can_reach(pred)
    return b.id in S and any(TEXTY.search(l) for l in b.locals[2:b.argc + 1])
