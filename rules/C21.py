"""serve: nothing outside the served directory, no markup from names."""
from rules.common import *
from vpa.flow import Policy
from vpa.ir import Place, body_ty, strip_lt, rv_ops

SERVE = re.compile(r"^<?dsh_builtin::serve::")
CANON = re.compile(r"^(std::path::Path::canonicalize|std::fs::canonicalize|tokio::fs::(\w+::)*canonicalize)$")
STARTS = re.compile(r"^std::path::Path::starts_with$")
DERIVE = re.compile(r"^(<)?std::path::Path(Buf)?(>)?::(join|with_file_name|with_extension|parent|ancestors|strip_prefix|push|pop|set_file_name|set_extension)$")
OPEN = re.compile(r"^(std::fs::(read|read_to_string|read_dir|read_link|File::open|OpenOptions::open|copy)|tokio::fs::(\w+::)*(open|read|read_to_string|read_dir|read_link|copy))$")
PATHTY = re.compile(r"^(&('[a-z_0-9]+ )?(mut )?)*std::path::Path(Buf)?$|^(&('[a-z_0-9]+ )?)*alloc::(sync|rc|rcs)[\w:]*::(Arc|Rc)<std::path::PathBuf>$")
SAME = frozenset("deref deref_mut as_ref as_path to_path_buf clone to_owned from into borrow into_path_buf into_boxed_path as_os_str new into_owned".split())
ROOT = C(("root",))


def ours(b):
    return b.promoted is None and bool(SERVE.match(b.name)) and "::tests::" not in b.name


class Contained(Spec):
    max_depth = 20

    def __init__(self, P):
        super().__init__(P)
        pred = lambda b, i, t: ours(b) and t.op.fn is not None and (OPEN.match(t.op.fn.full) or CANON.match(t.op.fn.full) or STARTS.match(t.op.fn.full))
        self.interesting = {x for x in P.can_reach(pred) if ours(P.bodies[x])}
        self.opens = {}
        self.bad = {}

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is None:
            return None
        v = eng.deref(st, vals[0]) if vals and vals[0] is not None else None
        if CANON.match(f.full):
            k = (str(body.id), bb)
            s2 = st.copy()
            st.facts = frozenset(x for x in st.facts if not (x[0] in ("in", "canonroot") and x[1] == k))
            if v == ROOT:
                st.facts = st.facts | {("canonroot", k)}
            r = [(E(RES, "Ok", C(("canon", k))), st), (E(RES, "Err", None), s2)]
            if f.full.startswith("tokio"):
                return None
            return r
        if STARTS.match(f.full):
            w = eng.deref(st, vals[1]) if vals[1] is not None else None
            s2 = st.copy()
            if v is not None and v[0] == "c" and isinstance(v[1], tuple) and v[1][0] == "canon" and (
                    w == ROOT or w is not None and w[0] == "c" and isinstance(w[1], tuple) and w[1][0] == "canon" and ("canonroot", w[1][1]) in st.facts):
                st.facts = st.facts | {("in", v[1][1])}
            return [(C(True), st), (C(False), s2)]
        if OPEN.match(f.full):
            a = t.args[0] if "OpenOptions" not in f.full else t.args[1]
            v = vals[t.args.index(a)]
            v = eng.deref(st, v) if v is not None else None
            key = (body.id, bb)
            self.opens.setdefault(key, (body, t))
            ok = v == ROOT or v is not None and v[0] == "c" and isinstance(v[1], tuple) and v[1][0] == "canon" and (("in", v[1][1]) in st.facts or ("canonroot", v[1][1]) in st.facts)
            if not ok:
                self.bad.setdefault(key, (body, t, list(stack), v))
            return None
        if DERIVE.match(f.full) or re.search(r"<std::path::PathBuf as core::iter", f.full):
            k = C(("raw", (str(body.id), bb)))
            if f.full.endswith(("::parent",)):
                return [(E(OPT, "Some", k), st), (E(OPT, "None"), st.copy())]
            if f.full.endswith(("::push", "::pop", "::set_file_name", "::set_extension")):
                if vals[0] is not None and vals[0][0] == "r":
                    eng.kill(st, vals[0][1])
                return [(None, st)]
            if f.full.endswith("strip_prefix"):
                return None
            return [(k, st)]
        if f.name.rsplit("::", 1)[-1] in SAME and v is not None and v[0] == "c" and isinstance(v[1], tuple):
            return [(v, st)]
        return None


def is_root_ty(ty):
    return bool(PATHTY.match(strip_lt(ty or "")))


def run(P, R, tier):
    R.explanation = ("(1) Every path the HTTP handlers of serve open, from the router's closures on, is simulated over MIR: it is the served directory itself or a canonicalised path that was tested to start with the (canonicalised) served directory on that very path. (2) The functions that answer whether a requested path may be served say yes only behind that test. "
                     "(3) Every text that goes into an HTML body is traced to its sources: names, paths and request text only through the escaping function, which itself must replace & < > \" '.")
    # ---- (1) from the router on
    entries = []
    for b in sorted(P.bodies.values(), key=lambda b: str(b.id)):
        if not ours(b):
            continue
        for i in sorted(b.reachable):
            for s in b.bbs[i].stmts:
                if s.k == "=" and s.rv[0] == "agg" and s.rv[1][0] == "clo" and s.rv[1][1][1] in P.bodies:
                    c = P.bodies[s.rv[1][1][1]]
                    # a handler: a closure that gives a future
                    futs = [s2 for j in c.reachable for s2 in c.bbs[j].stmts if s2.k == "=" and s2.rv[0] == "agg" and s2.rv[1][0] == "cor"]
                    calls = [t for j, t in c.calls if any(x in P.bodies and ours(P.bodies[x]) for x in P.targets(c, t))]
                    if re.search(r"^impl |Coroutine|coroutine|async|opaque|Future", c.locals[0]) and (futs or calls):
                        entries.append((b, c, tuple(ROOT if o.is_place and is_root_ty(body_ty(b, o.place)) else None for o in s.rv[2])))
    for b, c, ups in entries:
        R.count("handlers")
        sp = Contained(P)
        sp.interesting.add(c.id)
        en = Engine(P, sp)
        for rv, facts, know in en.run(c.id, [("clo", c.id, ups)] + [None] * (c.argc - 1), State(), []):
            if rv is not None and rv[0] == "cor":
                for _ in en.run(rv[1], list(rv[2]), State(facts, dict(know)), [(c, c.line)]):
                    R.count("handler_paths")
        R.count("abstract_states", en.stats["states"])
        for k, (bo, t) in sp.opens.items():
            R.count("opens")
            R.sample("%s opens at %s" % (short(c.name), where(bo, t.line)))
        for k, (bo, t, stack, v) in sorted(sp.bad.items(), key=lambda x: str(x[0])):
            R.violation("outside:%s:%s" % (short(bo.name), short(t.op.fn.full)), stack_str(stack, bo, t.line),
                        "a path is opened here that was not tested to lie in the served directory (%s)" % ("unknown" if v is None else v[1][0] if v[0] == "c" else v[0]))
    # ---- (2) who says a path may be served
    for b in sorted(P.bodies.values(), key=lambda b: str(b.id)):
        if not ours(b) or b.kind != "fn":
            continue
        ret = strip_lt(b.locals[0])
        isbool = ret == "bool"
        if not (isbool or re.match(r"core::option::Option<std::path::PathBuf>$|core::result::Result<std::path::PathBuf", ret)):
            continue
        sp = Contained(P)
        if b.id not in sp.interesting or not P.reach_from([b.id]) & P.can_reach(lambda bo, i, t: ours(bo) and t.op.fn is not None and STARTS.match(t.op.fn.full)):
            continue
        roots = [ROOT if is_root_ty(b.locals[1 + i]) else None for i in range(b.argc)]
        R.count("deciders")
        en = Engine(P, sp)
        for rv, facts, know in en.run(b.id, roots, State(), []):
            no = rv == C(False) if isbool else rv is not None and rv[0] == "e" and rv[2] in ("None", "Err")
            if no:
                continue
            R.count("accepting_paths")
            if not any(x[0] == "in" for x in facts):
                R.violation("unchecked:" + short(b.name), where(b), "a requested path is accepted without the test that it lies in the served directory")
        R.count("abstract_states", en.stats["states"])
    R.floor("handlers", 2, "request handlers")
    R.floor("opens", 3, "opened paths")
    R.floor("deciders", 1, "functions that accept a path")
    html(P, R)


NAMES = re.compile(r"(::|>::)(display|to_string_lossy|to_str|into_string|file_name|file_stem|extension|path|query|path_and_query|to_os_string|into_os_string|as_os_str)$")
NUMBER = re.compile(r"^(&('[a-z_0-9]+ )?)*(u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|bool|f32|f64|http::status::StatusCode|chrono::\S*|core::option::Option<(u64|chrono::.*)>)$")
NEED = {"&": {"&amp;", "&#38;", "&#x26;"}, "<": {"&lt;", "&#60;", "&#x3c;"}, ">": {"&gt;", "&#62;", "&#x3e;"}, '"': {"&quot;", "&#34;", "&#x22;"}, "'": {"&#39;", "&#x27;", "&apos;"}}
ENTITIES = set().union(*NEED.values())


def consts_of(P, bid):
    """string and character constants in a body and its closures"""
    out = set()
    for x in P.reach_from([bid], skip=lambda e: e[1] != "closure"):
        b = P.bodies[x]
        for i in b.reachable:
            bb = b.bbs[i]
            ops = [o for s in bb.stmts if s.k == "=" for o in rv_ops(s.rv)]
            if bb.term.k == "call":
                ops += bb.term.args
            for o in ops:
                if not o.is_place:
                    if o.ch is not None:
                        out.add(o.ch)
                    if isinstance(o.s, str):
                        out.add(o.s)
                    if o.b is not None:
                        out.add(bytes(o.b).decode("utf8", "replace"))
    return out


class Markup(Policy):
    max_nodes = 20000

    def __init__(self, P, esc):
        self.P, self.esc = P, esc

    def cut(self, b, l, path):
        return not path and bool(NUMBER.match(strip_lt(b.locals[l])))

    def field(self, owner, name):
        return False

    def call(self, b, bb, t):
        tg = [x for x in self.P.targets(b, t) if x in self.P.bodies]
        if any(x in self.esc for x in tg):
            return "stop"
        if t.op.fn is not None and NAMES.search(t.op.fn.full) and not tg:
            return "leaf"
        return None if tg else "args"


def html(P, R):
    esc = set()
    for b in sorted(P.bodies.values(), key=lambda b: str(b.id)):
        if ours(b) and b.kind == "fn" and re.match(r"alloc::string::String$|alloc::borrow::Cow<", strip_lt(b.locals[0])) and b.argc == 1 and re.match(r"&('\w+ )?str$", b.locals[1]):
            cs = {c.lower() for c in consts_of(P, b.id)}
            if len(cs & ENTITIES) < 2:
                continue
            esc.add(b.id)
            R.count("escapers")
            for ch, forms in sorted(NEED.items()):
                R.count("escaped_characters")
                if not cs & forms:
                    R.violation("unescaped:%s:%s" % (short(b.name), ch), where(b), "the escaping function leaves %s as it is" % ch)
            if any(t.op.fn is not None and t.op.fn.full.endswith("::replace") for i, t in b.calls):
                # a chain of replacements: all of them on every path
                class All(Spec):
                    def on_call(self, eng, st, body, bb, t, vals, stack):
                        if t.op.fn is not None and t.op.fn.full.endswith("::replace") and len(t.args) > 2:
                            forms = {x.lower() for x in const_strs(P, body, bb, t.args[2])}
                            st.facts = st.facts | {ch for ch, fs in NEED.items() if forms & fs and ch in ([t.args[1].ch] if t.args[1].ch else const_strs(P, body, bb, t.args[1]))}
                            return [(None, st)]
                        return None
                for rv, facts, know in Engine(P, All(P)).run(b.id, [None] * b.argc, State(), []):
                    R.count("escaper_paths")
                    for ch in sorted(set(NEED) - set(facts)):
                        R.violation("unescaped:%s:%s" % (short(b.name), ch), where(b), "there is a way through the escaping function that leaves %s as it is" % ch)
            else:
                for i in sorted(b.reachable):
                    if b.bbs[i].term.k == "ret":
                        for l in flow_of(P).origins(b, Place(0), i, 1 << 30, LocalWhole(P)):
                            if l[0] == "param":
                                R.violation("unescaped:" + short(b.name), where(b), "there is a way through the escaping function that leaves its argument as it is")
            # a chain of replacements takes & first
            for i, t in b.calls:
                if t.op.fn is not None and re.search(r"str(>)?::replace$", t.op.fn.full) and len(t.args) > 2 and "&" in (t.args[1].ch, t.args[1].s if not t.args[1].is_place else None):
                    class Chain(LocalWhole):
                        def call(self, b, bb, t):
                            return "leaf" if t.op.fn is not None and t.op.fn.full.endswith("::replace") else "args"
                    if any(l[0] == "call" for l in origins(P, b, t.args[0], i, Chain(P))):
                        R.violation("escape-order:" + short(b.name), where(b, t.line), "& is replaced after other characters: their escapes are escaped again")
    pol = Markup(P, esc)
    sinks = []
    for b in sorted(P.bodies.values(), key=lambda b: str(b.id)):
        if not ours(b):
            continue
        for i, t in b.calls:
            f = t.op.fn
            if f is None or not t.args:
                continue
            if re.search(r"axum_core::body::Body as core::convert::From<|axum_core::body::Body::new|axum_core::response::.*Html", f.full) or f.full.endswith("Body as core::convert::From>::from"):
                ty = strip_lt(body_ty(b, t.args[0].place) if t.args[0].is_place else "&str") or ""
                if re.search(r"alloc::string::String|str$", ty):
                    sinks.append((b, i, t.args[0], t.line))
        if b.kind == "fn" and strip_lt(b.locals[0]) == "alloc::string::String" and b.id not in esc and any("</" in c or "<tr" in c for c in consts_of(P, b.id)):
            for i in sorted(b.reachable):
                if b.bbs[i].term.k == "ret":
                    sinks.append((b, i, Place(0), b.line))
    for b, i, op, line in sinks:
        R.count("pages")
        leafs = flow_of(P).origins(b, op, i, (1 << 30) if isinstance(op, Place) else len(b.bbs[i].stmts), pol)
        for l in leafs:
            R.count("page_sources")
            if l[0] == "const" or l[0] == "static":
                continue
            if l[0] == "field" and NUMBER.match(fieldty(P, l)):
                continue
            if l[0] == "param" and NUMBER.match(strip_lt(l[1].locals[l[2]])):
                continue
            R.violation("markup:%s:%s" % (short(b.name), leaf_str(l)), where(b, line), "text goes into an HTML page without being escaped: " + leaf_str(l))
    R.floor("escapers", 1, "escaping functions")
    R.floor("pages", 3, "HTML pages")
    R.floor("page_sources", 20, "sources of page text")


def fieldty(P, l):
    a = P.adts.get(l[1])
    if a:
        for _, _, fs in a["variants"]:
            for n, ty in fs:
                if n == l[2]:
                    return strip_lt(ty or "")
    return ""
