"""What a directory's environment file sets is remembered, applied only inside its root and undone on leaving it."""
from rules.common import *
from rules import C19
from rules.C19 import ENV
from vpa.ir import body_ty, rv_ops
from vpa.paths import OPT, RES

ROOT = re.compile(r"(^|::)direnv::DirEnvironment$")
ENTRY = re.compile(r"(^|::)direnv::(EnvEntry|PathAddEntry)$")
VECROOTS = re.compile(r"^&('[a-z_0-9]+ )?(mut )?(([\w:]*Vec<)|\[)[\w:]*direnv::DirEnvironment[>\]]$")
VECROOT = re.compile(r"^&('[a-z_0-9]+ )?mut [\w:]*Vec<[\w:]*direnv::DirEnvironment>$")
TAKE = re.compile(r"(^|::|>::)(remove|swap_remove|pop|drain|split_off|clear|truncate|retain|take|replace|extract_if|dedup\w*)$")
PUT = re.compile(r"(^|::|>::)(insert|push|extend|append|splice|push_within_capacity)$")
READ = re.compile(r"^(std|tokio)::fs::(read_to_string|read|File::open|OpenOptions::open)$|^std::fs::File::open|^std::io::Read")
RECORD = re.compile(r"(^|::|>::)(insert|push|push_back|push_front|extend|or_insert|or_insert_with|append|entry)$")
WHOLE = re.compile(r"(^|::|>::)(clone|to_owned|to_string|cloned|copied|as_ref|as_deref|as_str|deref|borrow|into|from|as_mut|take|unwrap_or_default|filter|to_str|or|unwrap|expect)$")
NEXT = re.compile(r"(^|::|>::)(next|next_back|pop|pop_front|pop_back)$")


def T(*tags):
    return C(("t", frozenset(tags)))


def istag(v):
    return v is not None and v[0] == "c" and isinstance(v[1], tuple) and v[1] and v[1][0] == "t"


class Dir(Spec):
    cap = 3000

    def __init__(self, P, kinds, writers, opens):
        super().__init__(P)
        self.kinds, self.writers, self.opens = kinds, writers, opens
        self.bad, self.seen = {}, {}
        self.dirs = {"back": set(), "set": set()}
        self.stale, self.uncleared, self.taken = {}, {}, {}
        self.backsite = None

    def ev(self, name, body, bb):
        self.seen.setdefault(name, set()).add((body.id, bb))

    def fault(self, key, stack, body, line, msg):
        self.bad.setdefault("%s:%s" % (key, short(body.name)), (body, line, msg))

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is None:
            return None
        n, P = f.name, self.P
        ws = [x for x in P.targets(body, t) if x in P.bodies]
        a0 = body_ty(body, t.args[0].place) if t.args and t.args[0].is_place else ""
        # which way the list is gone through
        if not ws and n.rsplit("::", 1)[-1] in ("next", "next_back") and re.search(r"Range(Inclusive)?<usize>|Iter(Mut)?<[^>]*direnv::DirEnvironment>", a0 or ""):
            st.facts = frozenset(x for x in st.facts if x[0] not in ("dir", "flag", "drained", "applied", "cleared", "pushed"))
            s2 = st.copy()
            s2.facts = s2.facts | {("dir", "down" if ("Rev<" in a0) != n.endswith("next_back") else "up")}
            return [(E(OPT, "Some", None), s2), (E(OPT, "None"), st)]
        if not ws and re.search(r"direnv::DirEnvironment", a0 or "") and VECROOTS.search(a0) and n.rsplit("::", 1)[-1] in ("index", "index_mut", "get", "get_mut", "len"):
            st.facts = frozenset(x for x in st.facts if x[0] not in ("flag", "drained", "applied", "cleared", "pushed"))
        # the list of roots
        if VECROOT.match(a0 or ""):
            if TAKE.search(n) or TAKE.search(f.full):
                self.ev("taken", body, bb)
                s2 = st.copy()
                s2.facts = s2.facts | {("out", short(body.name), t.line)}
                if (body_ty(body, t.dest) or "").startswith(OPT):
                    return [(E(OPT, "Some", None), s2), (E(OPT, "None"), st)]
                return [(None, s2)]
            if PUT.search(n) or PUT.search(f.full):
                self.ev("put", body, bb)
                self.handled(st, stack, body, t.line)
                st.facts = frozenset(x for x in st.facts if not (isinstance(x, tuple) and x[0] == "out"))
                return [(None, st)]
        tags = [eng.gather(st, v) for v in vals]
        # inside the root or not
        if n.endswith("Path::starts_with") or n.endswith("Path::strip_prefix"):
            if len(tags) > 1 and tags[1] == {"root"} and tags[0] == {"pwd"}:
                self.ev("inside", body, bb)
                out = []
                for x in ("under", "outside"):
                    s = st.copy()
                    s.facts = (s.facts - {("under",), ("outside",)}) | {(x,)}
                    out.append((C(x == "under") if n.endswith("starts_with") else E(RES, "Ok" if x == "under" else "Err", None), s))
                return out
        # writes to the variables of the shell
        if any(x in self.writers for x in ws) and ENV in (a0 or ""):
            self.write(eng, st, body, bb, t, vals, tags, stack, vals[1] if len(vals) > 1 else None, vals[2] if len(vals) > 2 else None, len(vals) > 2)
            return [(None, st)]
        if tags and "sys" in tags[0] and not ws:
            sh = f.full.rsplit("::", 1)[-1]
            if sh in ("insert", "remove", "remove_entry") and len(vals) > 1:
                self.write(eng, st, body, bb, t, vals, tags, stack, vals[1], vals[2] if len(vals) > 2 else None, sh == "insert")
                return [(None, st)]
            if sh == "get" and len(vals) > 1:
                k = eng.keyof(st, vals[1])
                out = []
                for var in ("Some", "None"):
                    s = st.copy()
                    s.facts = s.facts - {("none", k), ("empty", k)}
                    if var == "None":
                        s.facts = s.facts | {("none", k)}
                        out.append((E(OPT, "None"), s))
                    else:
                        out.append((E(OPT, "Some", T("old:%s" % k)), s))
                return out
        if body_ty(body, t.dest) == "bool" and n.endswith("is_empty") and tags and any(x.startswith("old:") for x in tags[0]):
            k = [x[4:] for x in tags[0] if x.startswith("old:")][0]
            s1, s2 = st.copy(), st.copy()
            s1.facts = s1.facts | {("empty", k)}
            return [(C(True), s1), (C(False), s2)]
        # the entries of a root
        if not ws and tags and "entries" in tags[0]:
            sh = n.rsplit("::", 1)[-1]
            if sh in ("clear", "take", "drain", "truncate", "replace"):
                st.facts = st.facts | {("cleared",)}
            elif RECORD.search(n):
                if ("cleared",) not in st.facts:
                    self.uncleared.setdefault("read", (body, t.line))
                return [(None, st)]
        if not ws and flag(body, t) and tags and any(x.startswith("saved:") for x in tags[0]) and n.rsplit("::", 1)[-1] in ("any", "contains_key", "contains"):
            rest = set().union(*tags[1:]) if len(tags) > 1 else set()
            v1 = eng.deref(st, vals[1]) if len(vals) > 1 and vals[1] is not None else None
            if v1 is not None and v1[0] == "clo":
                rest = set().union(*[eng.gather(st, x) for x in v1[2]]) if v1[2] else set()
            k = "PATH" if "key:PATH" in rest or not rest else "ekey" if rest & {"ekey", "entries"} else None
            if k:
                fld = [x for x in tags[0] if x.startswith("saved:")][0]
                s2 = st.copy()
                s2.facts = s2.facts | {("recorded", k, fld)}
                st.facts = st.facts | {("first", k)}
                return [(C(True), s2), (C(False), st)]
        # remembering what a variable held
        if not ws and RECORD.search(n) and len(vals) > 1:
            flds = [x for x in (tags[0] if tags else ()) if x.startswith("saved:")]
            rest = set().union(*tags[1:])
            if flds:
                for k in ("PATH", "ekey"):
                    named = ("key:%s" % k) in rest or k in rest
                    if named and (("old:%s" % k) in rest or ("none", k) in st.facts and eng.has_none(st, vals[1:])):
                        sh = n.rsplit("::", 1)[-1]
                        ordered = "Map" not in (a0 or "") and "Set" not in (a0 or "")
                        if ("first", k) not in st.facts:
                            if ordered:
                                self.stale.setdefault(flds[0], "front" if sh in ("insert", "push_front") else "back")
                            elif sh == "insert":
                                self.fault("again", stack, body, t.line, "what is remembered of a variable is overwritten when it is set a second time")
                        st.facts = st.facts | {("recorded", k, flds[0])}
                        self.ev("remembered", body, bb)
                # a map entry may be filled in a second step
                if n.endswith("entry"):
                    return [(T(*(set().union(*tags) | {"key:%s" % eng.keyof(st, vals[1])})), st)]
                return None
        # taking up what was remembered
        if not ws and NEXT.search(n) and vals:
            if (body_ty(body, t.dest) or "").find("direnv::Entry") >= 0:
                st.facts = frozenset(x for x in st.facts if not (isinstance(x, tuple) and x[0] in ("recorded", "none", "empty") and x[1] == "ekey"))
            flds = [x for x in tags[0] if x.startswith("saved:")]
            if flds and (body_ty(body, t.dest) or "").startswith(OPT):
                self.due(st, body, stack, t.line)
                s2 = st.copy()
                s2.facts = frozenset(x for x in s2.facts if not (isinstance(x, tuple) and x[0] == "recvar")) | {("pending", flds[0])}
                self.ev("taken up", body, bb)
                st.facts = st.facts | {("drained",)}
                self.order(flds[0], "last" if re.search(r"(pop|next_back|pop_back)$", n) != ("Rev<" in (a0 or "")) and (re.search(r"(pop|next_back|pop_back)$", n) is not None or "Rev<" in (a0 or "")) else "first", body, t.line, a0)
                return [(E(OPT, "Some", T("rec:" + flds[0][6:])), s2), (E(OPT, "None"), st)]
        if not ws and any(x.startswith("saved:") for x in (tags[0] if tags else ())) and n.rsplit("::", 1)[-1] in ("for_each", "try_for_each") and len(vals) > 1:
            fld = [x for x in tags[0] if x.startswith("saved:")][0]
            s2 = st.copy()
            s2.facts = s2.facts | {("pending", fld)}
            self.ev("taken up", body, bb)
            self.order(fld, "last" if "Rev<" in (a0 or "") else "first", body, t.line, a0)
            st.facts = st.facts | {("drained",)}
            out = [(None, st)]
            for rv, s3 in eng.call_value(s2, vals[1], [T("rec:" + fld[6:])], body, bb, t, stack):
                self.due(s3, body, stack, t.line)
                s3.facts = s3.facts | {("drained",)}
                out.append((None, s3))
            return out
        # reading the file
        if any(x in self.opens for x in ws) and not any(x in self.interesting for x in ws) or not ws and READ.search(n):
            self.ev("read", body, bb)
            if ("under",) not in st.facts:
                self.fault("read", stack, body, t.line, "an environment file is read without the working directory lying in its root")
            elif not any(x & {"root", "of root"} for x in tags) or any("above root" in x for x in tags):
                self.fault("which", stack, body, t.line, "the environment file read is not one of the root's")
            if ws:
                return [(None, st)]
        if ws and any(x in self.interesting for x in ws):
            return None
        # text and places made from what is known
        if vals and WHOLE.search(n) and not ws:
            v = eng.deref(st, vals[0]) if vals[0] is not None else None
            if v is not None and v[0] == "e" and v[1] in (OPT, RES):
                sh = n.rsplit("::", 1)[-1]
                if sh == "unwrap_or_default":
                    return [(v[3][0] if v[2] in ("Some", "Ok") else C(""), st)]
                if sh in ("unwrap", "expect"):
                    return [(v[3][0], st)] if v[2] in ("Some", "Ok") else None
                if sh != "filter" and sh != "or":
                    return [(v, st)]
            if v is not None and v[0] == "c" and not istag(v):
                return [(v, st)]
            if v is not None and istag(v):
                return [(v, st)]
        got = frozenset().union(*tags) if tags else frozenset()
        if n.endswith("join_paths"):
            got = got | {"colon"}
        if "pwd" in got and not n.endswith("Path::new"):
            got = got - {"pwd"} | {"of pwd"}
        if got & {"root", "of root"} and re.search(r"Path::(parent|ancestors|with_file_name)$", n):
            got = got - {"root", "of root"} | {"above root"}
        elif "root" in got and not re.search(r"Path(Buf)?::(new|as_path)$", n):
            got = got - {"root"} | {"of root"}
        if got and body_ty(body, t.dest) not in ("bool", "usize") and not ((body_ty(body, t.dest) or "").startswith((OPT, RES)) and any(eng.isclo(st, v) for v in vals)):
            for v in vals[:1]:
                if v is not None and v[0] == "r" and a0.startswith("&") and " mut " in a0.replace("&mut", "& mut") and not a0.startswith("&mut [") and eng.plain(a0):
                    st.env[v[1]] = T(*got)
            if (body_ty(body, t.dest) or "") == "()":
                return None if not any(v is not None and v[0] == "r" for v in vals[:1]) else [(None, st)]
            return [(T(*got), st)]
        return None

    def order(self, fld, which, body, line, ty):
        self.taken.setdefault((fld, which if "Map" not in ty and "Set" not in ty else "any"), (body, line))

    def handled(self, st, stack, body, line):
        """a root goes back to the list: what its flag says is what was done"""
        f = st.facts
        if ("applied",) in f and ("flag", True) not in f:
            self.fault("mark", stack, body, line, "a root whose variables were set goes on as if it was not loaded, and they are never taken back")
        if ("outside",) in f and ("wasloaded",) in f and ("drained",) not in f:
            self.fault("kept", stack, body, line, "a root is left without writing back what was remembered")
        if ("drained",) in f and ("cleared",) not in f:
            self.uncleared.setdefault("left", (body, line))
        st.facts = frozenset(x for x in f if x[0] not in ("flag", "wasloaded", "drained", "applied", "cleared", "first"))

    def due(self, st, body, stack, line):
        for x in [x for x in st.facts if isinstance(x, tuple) and x[0] == "pending"]:
            self.fault("lost", stack, body, line, "a value remembered in %s is dropped without being written back" % x[1][6:])
        st.facts = frozenset(x for x in st.facts if not (isinstance(x, tuple) and x[0] == "pending"))

    def write(self, eng, st, body, bb, t, vals, tags, stack, key, val, is_set):
        k = eng.keyof(st, key)
        g = eng.gather(st, val) if val is not None else frozenset()
        rec = [x for x in g if x.startswith("rec:")]
        krec = [x for x in eng.gather(st, key) if x.startswith("rec:")]
        if krec:
            # writing back
            self.ev("written back", body, bb)
            var = next((x[1] for x in st.facts if isinstance(x, tuple) and x[0] == "recvar"), None)
            if ("outside",) not in st.facts:
                self.fault("leave", stack, body, t.line, "variables are put back while the working directory lies in the root")
            if is_set and set(rec) != set(krec) or is_set and len(g) != 1:
                self.fault("back", stack, body, t.line, "what is written back is not just what was remembered")
            elif not is_set and var != "None":
                self.fault("unset", stack, body, t.line, "a variable is removed although it had a value")
            elif is_set and var == "None":
                self.fault("back", stack, body, t.line, "a variable that was not set is written back")
            st.facts = frozenset(x for x in st.facts if not (isinstance(x, tuple) and x[0] == "pending"))
            self.dirs["back"] |= {x[1] for x in st.facts if x[0] == "dir"} or {None}
            self.backsite = (body, t.line)
            return
        if is_set and (g & {"eval", "epath"}) and k in ("ekey", "PATH"):
            self.ev("loaded", body, bb)
            self.dirs["set"] |= {x[1] for x in st.facts if x[0] == "dir"} or {None}
            st.facts = st.facts | {("applied",)}
            if ("under",) not in st.facts:
                self.fault("apply", stack, body, t.line, "variables are set without the working directory lying in the root")
            if not any(isinstance(x, tuple) and x[0] == "recorded" and x[1] == k for x in st.facts):
                self.fault("forgot", stack, body, t.line, "%s is overwritten without remembering what it held" % ("PATH" if k == "PATH" else "a variable"))
            if "epath" in g:
                if "old:PATH" in g:
                    if "colon" not in g and ("empty", "PATH") not in st.facts:
                        self.fault("join", stack, body, t.line, "a directory is joined to PATH without a ':'")
                elif ("none", "PATH") not in st.facts and ("empty", "PATH") not in st.facts:
                    self.fault("path", stack, body, t.line, "PATH is replaced by the added directory")
            return
        self.ev("other", body, bb)
        # PATH written back unchanged
        if is_set and k == "PATH" and g == {"old:PATH"}:
            return
        self.fault("other", stack, body, t.line, "%s a variable with neither a value of the environment file nor a remembered one" % ("sets" if is_set else "removes"))


class Eng(C19.Engine):
    def tested_locals(self, body):
        return frozenset()

    def plain(self, ty):
        return re.match(r"^&('[a-z_0-9]+ )?mut (alloc::string::String|[\w:]*Vec<alloc::string::String>|[\w:]*PathBuf|[\w:]*OsString)", ty) is not None

    def isclo(self, st, v):
        v = self.deref(st, v) if v is not None else None
        return v is not None and v[0] in ("clo", "fn")

    def tag_of(self, place):
        for e in reversed([e for e in place.p if e != "*" and e[0] == "f"]):
            k = self.spec.kinds.get((e[3], e[2]))
            if k:
                return T(k)
        return None

    def operand(self, st, op, body):
        if op.is_place:
            x = self.tag_of(op.place)
            if x:
                return x
        elif op.ch == ":" or op.b is not None and isinstance(op.b, bytes) and b":" in op.b:
            return T("colon")
        return super().operand(st, op, body)

    def rvalue(self, st, rv, body):
        if rv[0] in ("ref", "raw"):
            x = self.tag_of(rv[1])
            if x:
                return x
            b = self.get(st, self.norm(st, rv[1])) if self.norm(st, rv[1]) is not None else None
            if istag(b) and rv[1].p:
                return b
        if rv[0] == "agg" and rv[1][0] == "arr":
            return E("arr", "arr", *[self.operand(st, o, body) for o in rv[2]])
        return super().rvalue(st, rv, body)

    def project(self, v, path):
        if istag(v):
            return v
        i = 0
        w = super().project(v, path)
        if w is None:
            # a tagged value somewhere on the way
            for n in range(1, len(path)):
                u = super().project(v, path[:n])
                if istag(u):
                    return u
        return w

    def split_variant(self, st, v, adt):
        w = self.deref(st, v)
        if istag(w) and any(x.startswith("rec:") for x in w[1][1]) and adt == OPT:
            out = []
            for x in self.variants(adt):
                s = st.copy()
                s.facts = frozenset(y for y in s.facts if not (isinstance(y, tuple) and y[0] == "recvar")) | {("recvar", x)}
                out.append((x, s))
            return out
        return super().split_variant(st, v, adt)

    def split_bool(self, st, v):
        u, neg = v, False
        while u is not None and u[0] == "not":
            u, neg = u[1], not neg
        if istag(u) and u[1][1] == {"flag"}:
            know = next((x[1] for x in st.facts if x[0] == "flag"), None)
            out = []
            for b in (True, False):
                if know is None or know == b:
                    s = st.copy()
                    if know is None:
                        s.facts = s.facts | {("flag", b)} | ({("wasloaded",)} if b else set())
                    out.append((b != neg, s))
            return out
        w = v
        while w is not None and w[0] == "not":
            w = w[1]
        return super().split_bool(st, None if istag(w) else v)

    def gather(self, st, v, depth=0):
        v = self.deref(st, v) if v is not None else None
        if v is None or depth > 8:
            return frozenset()
        if istag(v):
            return v[1][1]
        if v[0] == "c":
            if isinstance(v[1], str):
                return frozenset((["colon"] if ":" in v[1] else []) + (["key:PATH"] if v[1] == "PATH" else []))
            return frozenset()
        if v[0] == "e":
            return frozenset().union(*[self.gather(st, x, depth + 1) for x in v[3]]) if v[3] else frozenset()
        return frozenset()

    def has_none(self, st, vs, depth=0):
        for v in vs:
            v = self.deref(st, v) if v is not None else None
            if v is not None and v[0] == "e" and (v[1] == OPT and v[2] == "None" or depth < 6 and self.has_none(st, v[3], depth + 1)):
                return True
        return False

    def keyof(self, st, v):
        g = self.gather(st, v)
        return "PATH" if g == {"key:PATH"} else "ekey" if g == {"ekey"} else "?"

    def spec_stmt(self, s, body, i, q, v, stack):
        if q.rv[0] == "bin" and q.rv[1].startswith(("Add", "Sub")) and len(q.rv) > 3 and not q.rv[3].is_place and body.id in self.spec.lists:
            s.facts = frozenset(x for x in s.facts if x[0] != "dir") | {("dir", "up" if q.rv[1].startswith("Add") else "down")}
        if q.place.p and istag(self.tag_of(q.place)):
            g = self.tag_of(q.place)[1][1]
            if g == {"flag"}:
                b = v[1] if v is not None and v[0] == "c" and isinstance(v[1], (bool, int)) else None
                s.facts = frozenset(x for x in s.facts if x[0] != "flag") | ({("flag", bool(b))} if b is not None else set())
            elif g == {"entries"}:
                s.facts = s.facts | {("cleared",)}
        if q.place.p and istag(self.tag_of(q.place)) and "roots" in self.tag_of(q.place)[1][1]:
            s.facts = frozenset(x for x in s.facts if not (isinstance(x, tuple) and x[0] == "out"))


def run(P, R, tier):
    R.explanation = ("Path simulation over MIR of the code that loads and unloads directory environments: the environment file is read and its variables are set only on paths on which the working directory was "
                     "found (by path components) to lie in the root; each variable's previous value is recorded in the root before it is overwritten; on leaving, each recorded value is taken up and written "
                     "back (a removal only where none was recorded), and nothing else; an added directory is joined to PATH with ':'; a root taken out of the list is put back on every path.")
    R.assumptions = ["Only system_env_vars, the variables handed to programs, is meant; std's Path::starts_with compares whole components."]
    roots = [a for a in P.adts if ROOT.search(a)]
    ents = [a for a in P.adts if ENTRY.search(a)]
    R.count("types", len(roots) + len(ents))
    R.floor("types", 3, "types of directory environments and their entries")
    if len(roots) != 1:
        return
    kinds = {(ENV, "system_env_vars"): "sys", (ENV, "direnv_roots"): "roots"}
    for v in P.adts[roots[0]]["variants"]:
        for name, ty in v[2]:
            if name == "path":
                kinds[(roots[0], name)] = "root"
            elif ty == "bool":
                kinds[(roots[0], name)] = "flag"
            elif "Entry" in ty and re.search(r"(Vec|Map|Set|Deque)<", ty):
                kinds[(roots[0], name)] = "entries"
            elif "Entry" not in ty and re.search(r"(Vec|Map|Set|Deque)<", ty):
                kinds[(roots[0], name)] = "saved:" + name
    for a in ents:
        for v in P.adts[a]["variants"]:
            for name, ty in v[2]:
                kinds[(a, name)] = {"key": "ekey", "value": "eval", "path": "epath"}.get(name, "e:" + name)
    mention = {b.id for b in P.bodies.values() if b.promoted is None and b.kind in ("fn", "closure", "coroutine") and any(ROOT.search(re.sub(r"^[&*]?('[a-z_0-9]+ )?(mut )?", "", x)) or "DirEnvironment" in x for x in b.locals)}
    derived = re.compile(r" as core::(clone|fmt|cmp|hash|default)::|::(Clone|Debug)>?::")
    mention = {x for x in mention if not derived.search(str(P.bodies[x].name))}
    # ways to write the shell's variables
    L = C19.Locks(P)
    I = C19.Items(P, L)
    writers = {b.id for b in P.bodies.values() if b.promoted is None and b.argc >= 2 and ENV in b.locals[1] and "system_env_vars" in " ".join(C19.writes(P, I, b.id)) and not re.search(r"RwLock|RefCell", b.locals[1])}
    opens = P.can_reach(lambda body, i, t: t.op.fn is not None and READ.search(t.op.fn.name) is not None)
    # everything of the family, entered where nothing of the family calls it
    touch = {b.id for b in P.bodies.values() if b.promoted is None and touches(b, kinds)} - writers
    tops = sorted([x for x in mention if not any(c in mention for (c, k, i, t) in P.callers.get(x, ())) and P.bodies[x].kind == "fn"], key=str)
    for x in tops:
        b = P.bodies[x]
        below = P.reach_from([x], skip=lambda e: e[0] in writers)
        if not any(hits(P, P.bodies[y], writers) for y in below if y in mention or y == x):
            continue
        sp = Dir(P, kinds, writers, opens)
        inner = {y for y in below if y in touch or y in mention}
        grow = True
        while grow:
            more = {c for y in inner for (c, k, i, t) in P.callers.get(y, ()) if c in below and c not in inner and c != x and ENV not in str(P.bodies[c].locals[:1])}
            grow = bool(more)
            inner |= more
        sp.interesting = inner - {x} - writers
        R.count("functions_judged", 1 + len(sp.interesting))
        R.sample("from %s: %s" % (short(b.name), ", ".join(sorted(short(P.bodies[y].name) for y in sp.interesting))))
        sp.lists = {y for y in below | {x} if any(t.op.fn and t.args and t.args[0].is_place and VECROOTS.match(body_ty(P.bodies[y], t.args[0].place) or "") for i, t in P.bodies[y].calls)}
        en = Eng(P, sp)
        args = [T("pwd") if re.match(r"^&('[a-z_0-9]+ )?(std::path::Path(Buf)?|str|alloc::string::String)$", ty) else None for ty in b.locals[1:b.argc + 1]]
        for rv, facts, know in en.run(x, args, State(), []):
            for f in facts:
                if isinstance(f, tuple) and f[0] == "out":
                    sp.bad.setdefault("gone:" + f[1], (b, f[2], "a root taken out of the list is not put back on every path"))
                if isinstance(f, tuple) and f[0] == "pending":
                    sp.bad.setdefault("lost:" + short(b.name), (b, 0, "a remembered value is dropped without being written back"))
        for (fld, which), (bb, line) in sp.taken.items():
            if sp.stale.get(fld) and which != {"back": "last", "front": "first"}[sp.stale[fld]] and which != "any":
                R.violation("order:" + short(bb.name), where(bb, line), "the remembered values are written back in the order they were remembered; a variable set twice keeps what the first entry gave it")
        if set(sp.uncleared) == {"read", "left"}:
            bb, line = sp.uncleared["read"]
            R.violation("entries:" + short(bb.name), where(bb, line), "the entries read when a root was loaded before are still there when it is loaded again, and are set again")
        ds = {k: v - {None} for k, v in sp.dirs.items()}
        if ds["back"] == ds["set"] and len(ds["back"]) == 1 and sp.backsite:
            R.violation("nested:" + short(sp.backsite[0].name), where(*sp.backsite), "roots are left in the order they were entered: an inner root writes back what the outer one had set")
        for key, (bb, line, msg) in sp.bad.items():
            R.violation(key, where(bb, line), msg)
        for k, v in sp.seen.items():
            R.count(k.replace(" ", "_"), len(v))
    R.floor("functions_judged", 3, "functions handling directory environments")
    R.floor("loaded", 2, "places that set a variable from an environment file")
    R.floor("written_back", 1, "places that write back what was remembered")
    R.floor("inside", 1, "tests of where the working directory lies")
    R.floor("read", 1, "reads of environment files")
    # a list of roots emptied elsewhere
    for b in P.bodies.values():
        if b.promoted is None:
            for i, t in b.calls:
                if t.op.fn and t.args and t.args[0].is_place and VECROOT.match(body_ty(b, t.args[0].place) or ""):
                    R.count("list_operations")


def flag(body, t):
    return body_ty(body, t.dest) == "bool"


def touches(b, kinds):
    def has(pl):
        return any(e != "*" and e[0] == "f" and (e[3], e[2]) in kinds for e in pl.p)
    for i in b.reachable:
        for q in b.bbs[i].stmts:
            if q.k == "=" and (has(q.place) or q.rv[0] in ("ref", "raw", "disc") and has(q.rv[1]) or any(o.is_place and has(o.place) for o in rv_ops(q.rv))):
                return True
        t = b.bbs[i].term
        if t.k == "call" and any(a.is_place and has(a.place) for a in t.args):
            return True
    return False


def hits(P, b, writers):
    return any(x in writers for i, t in b.calls for x in P.targets(b, t)) or any(t.op.fn and VECROOT.match((body_ty(b, t.args[0].place) if t.args and t.args[0].is_place else "") or "") for i, t in b.calls)
