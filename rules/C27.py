"""The key of the AI service goes to its https endpoint in a header and nowhere else."""
from rules.common import *
from rules import C22
from rules.C22 import T, istag, WHOLE
from vpa.ir import body_ty, rv_ops
from vpa.paths import OPT, RES

CONFIG = re.compile(r"(^|::)OpenAiConfig$")
CLIENT = re.compile(r"(^|::)ChatGptClient$")
TEXT = re.compile(r"^(&('[a-z_0-9]+ )?(mut )?)*(alloc::string::String|str)$")
KEYNAME = re.compile(r"(^|_)API_?KEY$")
SECURE = "https://"
KEEP = re.compile(r"(^|::|>::)(trim_end_matches|trim_end|trim_right|trim_right_matches|into_string|into_boxed_str|leak|new)$")
SINK = re.compile(r"(^|::)_e?print$|::write_(fmt|str|all|char)$|::write$|^(<?)(tracing|tracing_core|log)::|panicking::|^anyhow::|^<?anyhow|Error::(msg|new|other|custom)$|process::Command::|^std::fs::|serde_json|RequestBuilder::(json|body|query|form|multipart)$|tokio::fs::")
SEND = re.compile(r"reqwest::[\w:]*Client::(get|post|put|patch|delete|head|request)$")


def optin_name(n):
    return isinstance(n, str) and "INSECURE" in n


def lastfew(b, op, n=6):
    """a position counted back from the end by at most four"""
    while n and op is not None and op.is_place:
        n -= 1
        nxt = None
        for i in b.reachable:
            for s in b.bbs[i].stmts:
                if s.k == "=" and s.place.l == op.place.l and not s.place.p:
                    os = rv_ops(s.rv)
                    if s.rv[0] == "bin" and "Sub" in s.rv[1]:
                        return os[1].val is not None and os[1].val <= 4
                    if s.rv[0] == "agg" and (s.rv[1][0] != "adt" or not s.rv[1][1].endswith("RangeFrom")):
                        return False
                    nxt = os[0] if os else None
            u = b.bbs[i].term
            if u.k == "call" and u.op.fn is not None and u.dest.l == op.place.l and not u.dest.p:
                return u.op.fn.name.rsplit("::", 1)[-1] in ("saturating_sub", "wrapping_sub") and u.args[1].val is not None and u.args[1].val <= 4 and bool(re.search("count|len", " ".join(b.bbs[j].term.op.fn.name.rsplit("::", 1)[-1] for j in b.reachable if b.bbs[j].term.k == "call" and b.bbs[j].term.op.fn is not None and u.args[0].is_place and b.bbs[j].term.dest.l == u.args[0].place.l)))
        op = nxt
    return False


class Key(Spec):
    cap = 3000

    def __init__(self, P, conf, cli, kinds):
        super().__init__(P)
        self.conf, self.cli, self.kinds = conf, cli, kinds
        self.bad, self.seen = {}, {}

    def ev(self, name, body, bb):
        self.seen.setdefault(name, set()).add((body.id, bb))

    def fault(self, key, stack, body, line, msg):
        top = stack[0][0] if stack else body
        self.bad.setdefault("%s:%s" % (key, short(top.name)), (stack[0][0] if stack else body, stack[0][1] if stack else line, msg))

    def field(self, eng, st, body, adt, name, v, line, stack):
        k = self.kinds.get((adt, name))
        if k == "base":
            self.ev("base_address_set", body, line)
            w = eng.deref(st, v) if v is not None else None
            ok = w is not None and w[0] == "c" and isinstance(w[1], str) and w[1].startswith(SECURE) or ("optin",) in st.facts or w is not None and (("https", w) in st.facts or istag(w) and w[1][1] == {"base"})
            if not ok:
                self.fault("scheme", stack, body, line, "the address of the AI service may be one that is not https")
        if k == "endpoint":
            self.ev("endpoint_set", body, line)
            g = eng.gather(st, v)
            if g not in ({"base"}, {"endpoint"}):
                self.fault("endpoint", stack, body, line, "the endpoint is not made from the checked address")

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is None:
            return None
        n, P = f.name, self.P
        sh = f.full.rsplit("::", 1)[-1]
        ws = [x for x in P.targets(body, t) if x in P.bodies]
        dt = body_ty(body, t.dest) or ""
        # asking for the key by name
        if re.search(r"Option<alloc::string::String>|Result<alloc::string::String", dt) and len(vals) <= 3:
            for w in [eng.deref(st, v) for v in vals if v is not None]:
                if w is not None and w[0] == "e" and w[1] == "()" and len(w[3]) == 1:
                    w = eng.deref(st, w[3][0]) if w[3][0] is not None else None
                if w is not None and w[0] == "c" and isinstance(w[1], str):
                    if KEYNAME.search(w[1]):
                        self.ev("key_read", body, bb)
                        adt = OPT if dt.startswith(OPT) else RES
                        return [(E(adt, "Some" if adt == OPT else "Ok", T("key")), st.copy()), (E(adt, "None") if adt == OPT else E(adt, "Err", None), st)]
                    if optin_name(w[1]):
                        adt = OPT if dt.startswith(OPT) else RES
                        return [(E(adt, "Some" if adt == OPT else "Ok", T("optin")), st.copy()), (E(adt, "None") if adt == OPT else E(adt, "Err", None), st)]
        if sh == "starts_with" and "str" in n and len(vals) > 1 and dt == "bool":
            c = eng.deref(st, vals[1]) if vals[1] is not None else None
            v = vals[0]
            w = eng.deref(st, v) if v is not None else None
            if c is not None and c[0] == "c" and isinstance(c[1], str) and c[1].startswith(SECURE):
                self.ev("scheme_tested", body, bb)
                if w is not None and w[0] == "c" and isinstance(w[1], str):
                    return [(C(w[1].startswith(c[1])), st)]
                if w is None and v is not None and v[0] == "r":
                    w = st.env[v[1]] = T("id:%s:%s" % (body.id, bb))
                if w is not None and istag(w):
                    s2 = st.copy()
                    s2.facts = s2.facts | {("https", w)}
                    return [(C(True), s2), (C(False), st)]
            return None
        if sh == "strip_prefix" and "str" in n and len(vals) > 1 and dt.startswith(OPT):
            c = eng.deref(st, vals[1]) if vals[1] is not None else None
            v = vals[0]
            w = eng.deref(st, v) if v is not None else None
            if c is not None and c[0] == "c" and isinstance(c[1], str) and c[1].startswith(SECURE):
                self.ev("scheme_tested", body, bb)
                if w is None and v is not None and v[0] == "r":
                    w = st.env[v[1]] = T("id:%s:%s" % (body.id, bb))
                if w is not None and istag(w):
                    s2 = st.copy()
                    s2.facts = s2.facts | {("https", w)}
                    return [(E(OPT, "Some", T("text")), s2), (E(OPT, "None"), st)]
        tags = [eng.gather(st, v) for v in vals]
        every = frozenset().union(*tags) if tags else frozenset()
        # requests
        if SEND.search(n):
            self.ev("request", body, bb)
            if "key" in every:
                self.fault("address", stack, body, t.line, "the key is part of the address of a request")
            return [(T("to endpoint") if any(x == {"endpoint"} for x in tags[1:]) else None, st)]
        if "RequestBuilder" in f.full and "key" in every and sh in ("header", "headers", "bearer_auth", "basic_auth"):
            self.ev("key_sent", body, bb)
            if "to endpoint" not in tags[0]:
                self.fault("sent", stack, body, t.line, "the key is sent to an address that is not the checked endpoint")
            return [(T(*(tags[0] - {"key"})), st)]
        if "RequestBuilder" in f.full and "key" not in every:
            return [(T(*tags[0]) if tags and tags[0] else None, st)]
        if SINK.search(n) or SINK.search(f.full):
            if "key" in every:
                self.ev("key_sink", body, bb)
                self.fault("shown", stack, body, t.line, "the key of the AI service reaches %s" % short(n))
                return None
        if ws:
            for k, (a, v) in enumerate(zip(t.args, vals)):
                if v is not None and v[0] == "r" and eng.deref(st, v) is None and a.is_place and TEXT.match(body_ty(body, a.place) or "") and any(x in self.interesting for x in ws):
                    st.env[v[1]] = T("id:%s:%s:%d" % (body.id, bb, k))
            if "key" in every and not any(x in self.interesting for x in ws):
                self.interesting = set(self.interesting) | {x for x in ws if len(ws) <= 6}
            return None
        w0 = eng.deref(st, vals[0]) if vals and vals[0] is not None else None
        if "optin" in every and "key" not in every and w0 is not None and w0[0] == "e" and w0[1] in (OPT, RES) and re.search(r"^core::(option::Option|result::Result)", n):
            return None
        for v in vals[1:] if sh in ("any", "position", "find") and dt == "bool" else ():
            w = eng.deref(st, v) if v is not None else None
            if w is not None and w[0] == "clo" and any("optin" in eng.gather(st, x) for x in w[2]):
                return [(T("optin"), st)]
        # the opt-in is a value it is compared with, not its being there
        if "optin" in every and dt == "bool" and not any(eng.isclo(st, v) for v in vals):
            cs = [x[1] for x in (eng.deref(st, v) for v in vals if v is not None) if x is not None and x[0] == "c" and isinstance(x[1], str)]
            cs += [a.s for a in t.args if isinstance(a.s, str)]
            no = any(x.lower() in ("", "0", "false", "no", "off") for x in cs)
            if sh in ("eq", "eq_ignore_ascii_case", "contains"):
                return [(None if no else T("optin"), st)]
            if sh == "ne":
                return [(None if no else ("not", T("optin")), st)]
            return [(None, st)]
        # at most a few characters of it
        if sh in ("skip", "index", "get") and len(t.args) > 1 and "key" in tags[0] and lastfew(body, t.args[1]):
            self.ev("key_masked", body, bb)
            return [(T(*(tags[0] - {"key"})), st)]
        if sh == "take" and len(t.args) > 1 and "key" in tags[0] and t.args[1].val is not None and t.args[1].val <= 4:
            self.ev("key_masked", body, bb)
            return [(T(*(tags[0] - {"key"})), st)]
        if "Arguments" in n and sh.startswith("new"):
            b = eng.deref(st, vals[0]) if vals and vals[0] is not None else None
            els = eng.deref(st, vals[1]) if len(vals) > 1 and vals[1] is not None else None
            first = eng.gather(st, els[3][0]) if els is not None and els[0] == "e" and els[3] else frozenset()
            lead = b is not None and b[0] == "c" and isinstance(b[1], tuple) and b[1][0] == "bytes" and b[1][1] and b[1][1][0] >= 0x80
            if every & {"key"}:
                return [(T("key"), st)]
            if lead and first in ({"base"}, {"endpoint"}):
                return [(T(*first), st)]
            if every:
                return [(T("text"), st)]
            return None
        if vals and (WHOLE.search(n) or KEEP.search(n) or re.search(r"fmt::rt::Argument.*::new_|fmt::format$|must_use$|string::String::from$", n)):
            v = vals[0]
            w = eng.deref(st, v) if v is not None else None
            if w is not None and w[0] == "e" and w[1] in (OPT, RES):
                if sh in ("unwrap_or_default",):
                    return [(w[3][0] if w[2] in ("Some", "Ok") else C(""), st)]
                if sh in ("as_ref", "as_deref", "cloned", "copied", "clone", "to_owned", "as_mut", "as_deref_mut", "take"):
                    return [(w, st)]
                return None
            if w is not None and w[0] == "c":
                return [(w, st)]
            if w is None and v is not None and v[0] == "r" and re.search(r"(deref|as_str|as_ref|borrow)$", n):
                return [(v, st)]
        if "optin" in every and dt != "()":
            return [(T("optin"), st)]
        if every and dt not in ("bool", "usize", "()") and not any(eng.isclo(st, v) for v in vals):
            keep = every & {"key", "optin"}
            if keep:
                return [(T(*keep), st)]
            return [(T("text"), st)]
        if sh in ("push", "push_str") and "String" in n and "key" not in every:
            w = eng.deref(st, vals[0]) if vals[0] is not None else None
            if w is not None and (istag(w) or w[0] == "c" and isinstance(w[1], str) and w[1].startswith(SECURE)):
                return [(None, st)]
        if "key" in every and dt == "()":
            v = vals[0]
            if v is not None and v[0] == "r" and "key" not in tags[0]:
                st.env[v[1]] = T("key", *tags[0])
                return [(None, st)]
        return None


class Eng(C22.Eng):
    def skip_target(self, body, i):
        return None         # what is logged matters here

    def deref(self, st, v):
        w = super().deref(st, v)
        return None if w is not None and w[0] == "u" else w

    def operand(self, st, op, body):
        if not op.is_place and isinstance(op.b, bytes):
            return C(("bytes", op.b))
        return super().operand(st, op, body)

    def rvalue(self, st, rv, body):
        if rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1] in (self.spec.conf | self.spec.cli):
            for (name, ty), o in zip(self.P.adts[rv[1][1]]["variants"][0][2], rv[2]):
                self.spec.field(self, st, body, rv[1][1], name, self.operand(st, o, body), body.line, [])
        if rv[0] in ("ref", "raw") and rv[1].p and all(e == "*" for e in rv[1].p):
            b = st.env.get((rv[1].l, ()))
            if b is not None and b[0] == "c":
                return b
        return super().rvalue(st, rv, body)

    def split_bool(self, st, v):
        neg, w = False, v
        while w is not None and w[0] == "not":
            neg, w = not neg, w[1]
        if istag(w) and w[1][1] == {"optin"}:
            s2 = st.copy()
            s2.facts = s2.facts | {("optin",)}
            return [(not neg, s2), (neg, st)]
        return super().split_bool(st, v)

    def spec_stmt(self, s, body, i, q, v, stack):
        for e in q.place.p:
            if e != "*" and e[0] == "f" and (e[3], e[2]) in self.spec.kinds:
                self.spec.field(self, s, body, e[3], e[2], v, q.line, stack)


def run(P, R, tier):
    R.explanation = ("Taint path simulation over MIR of every function that can hold the API key (reads it by name, reads the fields it is kept in, or gets it from such a function), following calls: the key "
                     "reaches no output, log, error, file, command or request body, only a header of a request built for the client's endpoint; the endpoint is made of the configured address, and every "
                     "address put into the configuration is a constant https one, was tested to begin with https://, or follows the opt-in for http. Debug output of structures that hold the key is a sink too.")
    R.assumptions = ["The HTTP library sends a header only to the address of the request.", "The last four characters, as doctor shows them, do not reveal the key."]
    conf = {a for a in P.adts if CONFIG.search(a)}
    cli = {a for a in P.adts if CLIENT.search(a)}
    kinds = {}
    for a in conf | cli:
        for v in P.adts[a]["variants"]:
            for name, ty in v[2]:
                if name == "api_key":
                    kinds[(a, name)] = "key"
                elif "url" in name or "endpoint" in name:
                    kinds[(a, name)] = "base" if a in conf else "endpoint"
    R.count("fields", len(kinds))
    R.floor("fields", 4, "fields that hold the key or the address")
    roots = set()
    getters = set()
    for b in P.bodies.values():
        if b.promoted is not None or re.search(r"derive|::tests?::", str(b.name)):
            continue
        if C22.touches(b, kinds) or any(s.k == "=" and s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][1] in conf | cli for i in b.reachable for s in b.bbs[i].stmts):
            roots.add(b.id)
            if re.search(r"^(&|core::option::Option<&?('[a-z_0-9]+ )?(str|alloc::string::String)>)", b.locals[0]):
                getters.add(b.id)
        for i, t in b.calls:
            if t.op.fn and any(not a.is_place and isinstance(a.s, str) and KEYNAME.search(a.s) for a in t.args):
                roots.add(b.id)
        if any(q.k == "=" and any(not o.is_place and isinstance(o.s, str) and KEYNAME.search(o.s) for o in rv_ops(q.rv)) for i in b.reachable for q in b.bbs[i].stmts):
            roots.add(b.id)
    for g in getters:
        roots |= {c for (c, k, i, t) in P.callers.get(g, ())}
    home = {P.bodies[x].crate for x in roots if P.bodies[x].kind == "fn" and C22.touches(P.bodies[x], kinds)}
    helpers = {b.id for b in P.bodies.values() if b.promoted is None and b.kind == "fn" and b.crate in home and len(b.bbs) <= 60 and (b.locals[0] == "bool" or TEXT.match(b.locals[0])) and not re.search(r"::tests?::", str(b.name))}
    # closures that look up what the configuration is made of, asked for the key
    lookups = set()
    for b in P.bodies.values():
        for i, t in b.calls:
            if b.promoted is None and any(x in roots and any("call" in str(u.op.fn and u.op.fn.name) and "FnMut" in str(u.op.fn and u.op.fn.full) for j, u in P.bodies[x].calls) for x in P.targets(b, t)):
                for j in b.reachable:
                    for q in b.bbs[j].stmts:
                        if q.k == "=" and q.rv[0] == "agg" and q.rv[1][0] == "clo" and q.rv[1][1][1] in P.bodies and any(a.is_place and a.place.l == q.place.l for a in t.args):
                            lookups.add(q.rv[1][1][1])
    roots |= lookups
    R.count("lookup_closures", len(lookups))
    R.floor("lookup_closures", 2, "closures that look up the configuration")
    todo, done = sorted(roots, key=str), set()
    while todo:
        x = todo.pop(0)
        if x in done:
            continue
        done.add(x)
        b = P.bodies[x]
        sp = Key(P, conf, cli, kinds)
        sp.interesting = (getters | helpers) - {x}
        R.count("functions_judged")
        en = Eng(P, sp)
        try:
            outs = list(en.run(x, [None] + [C("AI_CHAT_API_KEY") if x in lookups else None] * (b.argc - 1) if b.argc else [], State(), []))
        except RuntimeError as e:
            R.violation("budget:" + short(b.name), where(b), "could not be analysed: %s" % e)
            continue
        for rv, facts, know in outs:
            w = rv
            while w is not None and w[0] == "e" and w[1] in (OPT, RES) and w[3]:
                w = w[3][0]
            if istag(w) and "key" in w[1][1] and b.kind == "fn" and x not in getters:
                getters.add(x)
                more = {c for (c, k, i, t) in P.callers.get(x, ())}
                done -= more
                todo += sorted(more, key=str)
        for key, (bb, line, msg) in sp.bad.items():
            R.violation(key, where(bb, line), msg)
        for k, v in sp.seen.items():
            R.count(k, len(v))
            R.sample("%s: %s" % (short(b.name), k))
    R.floor("functions_judged", 6, "functions that hold the key")
    R.floor("key_sent", 1, "places that send the key")
    R.floor("base_address_set", 1, "places that set the address")
    R.floor("scheme_tested", 1, "tests for https")
    R.floor("key_read", 2, "places that read the key")
    for b in P.bodies.values():
        for i, t in b.calls:
            if t.op.fn and re.search(r"(reqwest|rustls|native_tls)\b.*::(tls_)?danger(ous)?_?", t.op.fn.full):
                R.violation("tls:" + short(b.name), where(b, t.line), "checks of the server's certificate can be turned off")
    # debug output of what holds the key
    leaky = set(conf | cli)
    fmts = {}
    for b in P.bodies.values():
        m = re.match(r"^<(.+?) as core::fmt::Debug>::fmt$", str(b.name)) if b.promoted is None else None
        if m:
            fmts[m.group(1).split("<")[0].lstrip("&")] = b
    holds = {a for a, b in fmts.items() if a in conf | cli and C22.touches(b, {k: v for k, v in kinds.items() if v == "key" and k[0] == a})}
    grow = True
    while grow:
        grow = False
        for a, b in fmts.items():
            if a in holds or a not in P.adts:
                continue
            fk = {(a, n): 1 for v in P.adts[a]["variants"] for n, ty in v[2] if any(h in ty for h in holds)}
            if fk and C22.touches(b, fk):
                holds.add(a)
                grow = True
    R.count("debuggable_holders", len(holds))
    for b in P.bodies.values():
        if b.promoted is not None or re.match(r"^<.+ as core::fmt::Debug>::fmt$", str(b.name)):
            continue
        for i, t in b.calls:
            if t.op.fn and "fmt::rt::Argument" in t.op.fn.name and "new_debug" in t.op.fn.name:
                R.count("debug_outputs")
                ty = body_ty(b, t.args[0].place) if t.args[0].is_place else ""
                for h in holds:
                    if re.search(re.escape(h) + r"\b", ty or ""):
                        R.violation("debug:%s:%s" % (short(b.name), h), where(b, t.line), "a %s, which holds the key, is formatted for debugging" % h.rsplit("::", 1)[-1])
    R.floor("debug_outputs", 20, "debug-formatted values")
