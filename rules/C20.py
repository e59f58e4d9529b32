"""The shell's own databases: fixed SQL that fits the schema, columns read as they are written, whole batches, a private file."""
import sqlite3
from rules.common import *
from vpa.ir import rv_ops

RQ = r"^rusqlite::"
PREP = re.compile(RQ + r"(Connection::(prepare|prepare_with_flags|prepare_cached)|cache::<impl rusqlite::Connection>::prepare_cached)$")
CONN = re.compile(RQ + r"Connection::(execute|query_row|query_one|query_row_and_then|execute_batch)$")
STMT = re.compile(RQ + r"statement::Statement(::<.*>)?::(execute|insert|query|query_map|query_and_then|exists|query_row|query_one)$")
TX = re.compile(RQ + r"(transaction::<impl rusqlite::Connection>|Connection|transaction::Transaction(::<.*>)?|transaction::Savepoint(::<.*>)?)::(transaction|transaction_with_behavior|unchecked_transaction|savepoint|savepoint_with_name|new|new_unchecked)$")
END = re.compile(RQ + r"transaction::(Transaction|Savepoint)(::<.*>)?::(commit|rollback|finish)$")
DROPB = re.compile(RQ + r"transaction::(Transaction|Savepoint)(::<.*>)?::set_drop_behavior$")
NEXT = re.compile(RQ + r"row::Rows(::<.*>)?::next$|^<rusqlite::row::Rows<.*> as fallible_streaming_iterator.*>::next$")
GET = re.compile(RQ + r"row::Row(::<.*>)?::(get|get_unwrap)$")
OPEN = re.compile(RQ + r"Connection::(open|open_with_flags|open_with_flags_and_vfs)$")
DEREF = re.compile(r"^<rusqlite::.* as core::ops::deref::Deref(Mut)?>::deref(_mut)?$")
ANY = re.compile(r"^<?rusqlite::")
RECV = re.compile(r"::(recv|try_recv|recv_timeout|blocking_recv|poll_recv)$")
CHMOD = re.compile(r"^std::fs::set_permissions$|^std::fs::File::set_permissions$")
MODE = re.compile(r"PermissionsExt>::(set_mode|from_mode)$")
WRITE = re.compile(r"^\s*(INSERT|UPDATE|DELETE|REPLACE)\b", re.I)
SCHEMA = re.compile(r"^\s*(CREATE|ALTER|PRAGMA|DROP)\b", re.I)


def nolt(n):
    return re.sub(r"'[a-z_0-9]+", "'_", n)


def sqltxt(v):
    return v[1] if v is not None and v[0] == "c" and isinstance(v[1], str) else None


class TextPolicy(WholePolicy):
    """where an SQL text may come from, over iterators and parameters"""
    def __init__(self, P):
        WholePolicy.__init__(self, P, stop_at_workspace=False)

    def call(self, b, bb, t):
        r = WholePolicy.call(self, b, bb, t)
        if r == "leaf" and t.op.fn is not None and t.op.fn.name.rsplit("::", 1)[-1] in ("next", "copied", "as_str"):
            return "args"
        return r


class Db(Spec):
    cap = 400
    max_states = 120000

    def __init__(self, P, interesting):
        super().__init__(P)
        self.interesting = interesting
        self.sites, self.queries, self.gets, self.bad, self.unresolved, self.opens, self.txs, self.settled = {}, set(), {}, {}, {}, {}, set(), set()

    def text(self, st, eng, v, body, bb, t):
        v = eng.deref(st, v) if v is not None else None
        s = sqltxt(v)
        if s is None:
            self.unresolved[(body.id, bb)] = (body, t.line)
        return s

    def executed(self, st, body, bb, t, sql, kind):
        """one run of a statement; inside a transaction its failure is followed separately"""
        f = t.op.fn.full.rsplit("::", 1)[-1]
        if sql is not None:
            self.sites.setdefault((body.id, bb), {}).setdefault(sql, kind)
        w = sql is not None and bool(WRITE.match(sql))
        if "tx" in st.facts:
            s2 = st.copy()
            s2.facts = s2.facts | ({("stmt-failed", "%s" % short(body.name))} if w or sql is None else frozenset())
            return [(E(RES, "Ok", None), st), (E(RES, "Err", None), s2)]
        if w:
            if "wrote" in st.facts:
                self.bad.setdefault("scattered:" + short(body.name), (body, t.line, "several rows are written one by one, outside any transaction: a failure or a crash between them leaves half of the batch"))
            s2 = st.copy()
            st.facts = st.facts | {"wrote"}
            return [(E(RES, "Ok", None), st), (E(RES, "Err", None), s2)]
        return [(E(RES, "Ok", None), st), (E(RES, "Err", None), st.copy())]

    def mapper(self, st, eng, vals, body, bb, t, sql):
        for v, a in zip(vals, t.args):
            v = eng.deref(st, v) if v is not None else None
            if v is not None and v[0] in ("clo", "fn") and v[1] in self.P.bodies:
                self.queries.add((sql, v[1], body.id, bb))
            elif a.k == "fn" and a.fn is not None and a.fn.target in self.P.bodies:
                self.queries.add((sql, a.fn.target, body.id, bb))

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is None:
            return None
        n = f.full
        if RECV.search(n):
            st.facts = st.facts - {"wrote"}
            return None
        if CHMOD.match(n):
            m = next((x for x in st.facts if isinstance(x, tuple) and x[0] == "mode"), None)
            s2 = st.copy()
            if m is not None and m[1] is not None and m[1] & 0o077 == 0:
                st.facts = frozenset(x for x in st.facts if x != "open") | {"private"}
            return [(E(RES, "Ok", None), st), (E(RES, "Err", None), s2)]
        if MODE.search(n):
            a = vals[1] if n.endswith("set_mode") and len(vals) > 1 else vals[0]
            a = eng.deref(st, a) if a is not None else None
            m = a[1] if a is not None and a[0] == "c" and isinstance(a[1], int) else None
            st.facts = frozenset(x for x in st.facts if not (isinstance(x, tuple) and x[0] == "mode")) | {("mode", m)}
            return None
        if not ANY.match(n):
            return self.handed(eng, st, body, t, vals, stack)
        n = nolt(n)
        if DEREF.match(n):
            return [(vals[0], st)]
        if OPEN.match(n):
            self.opens[(body.id, bb)] = (body, t.line)
            s2 = st.copy()
            st.facts = st.facts | {"open"}
            return [(E(RES, "Ok", None), st), (E(RES, "Err", None), s2)]
        if "open" in st.facts and (CONN.match(n) or PREP.match(n) or STMT.match(n) or TX.match(n)):
            self.bad.setdefault("unprotected:" + short(body.name), (body, t.line, "the database is used before its file is closed to other users (mode 0600)"))
            st.facts = st.facts - {"open"}
        if PREP.match(n):
            sql = self.text(st, eng, vals[1], body, bb, t)
            if sql is not None:
                self.sites.setdefault((body.id, bb), {}).setdefault(sql, "prepare")
            return [(E(RES, "Ok", E("stmt", "S", C(sql))), st), (E(RES, "Err", None), st.copy())]
        if CONN.match(n):
            sql = self.text(st, eng, vals[1], body, bb, t)
            self.mapper(st, eng, vals, body, bb, t, sql)
            self.params(st, body, bb, t, 2, sql)
            return self.executed(st, body, bb, t, sql, n.rsplit("::", 1)[-1])
        if STMT.match(n):
            v = eng.deref(st, vals[0]) if vals[0] is not None else None
            sql = v[3][0][1] if v is not None and v[0] == "e" and v[1] == "stmt" and v[3][0] is not None else None
            if sql is None:
                self.unresolved[(body.id, bb)] = (body, t.line)
            else:
                self.settled.add((body.id, bb))
            self.mapper(st, eng, vals, body, bb, t, sql)
            self.params(st, body, bb, t, 1, sql)
            out = self.executed(st, body, bb, t, sql, n.rsplit("::", 1)[-1])
            if n.endswith("::query") and sql is not None:
                out = [((E(RES, "Ok", E("rows", "R", C(sql))) if v2 is not None and v2[2] == "Ok" else v2), s) for v2, s in out]
            return out
        if NEXT.match(n):
            v = eng.deref(st, vals[0]) if vals[0] is not None else None
            row = E("row", "R", v[3][0]) if v is not None and v[0] == "e" and v[1] == "rows" else None
            s2, s3 = st.copy(), st.copy()
            return [(E(RES, "Ok", E(OPT, "Some", row)), st), (E(RES, "Ok", E(OPT, "None")), s2), (E(RES, "Err", None), s3)]
        if GET.match(n):
            v = eng.deref(st, vals[0]) if vals[0] is not None else None
            if v is not None and v[0] == "e" and v[1] == "row":
                self.gets.setdefault((body.id, bb), set()).add(v[3][0][1])
            return None
        if TX.match(n):
            self.txs.add((body.id, bb))
            s2 = st.copy()
            st.facts = frozenset(x for x in st.facts if not (isinstance(x, tuple) and x[0] == "stmt-failed")) | {"tx"}
            return [(E(RES, "Ok", None), st), (E(RES, "Err", None), s2)]
        if DROPB.match(n):
            v = eng.deref(st, vals[1]) if vals[1] is not None else None
            if v is None or v[0] != "e" or v[2] not in ("Rollback", "Panic"):
                self.bad.setdefault("drop:" + short(body.name), (body, t.line, "a transaction that is abandoned is not rolled back"))
            return None
        if END.match(n):
            k = n.rsplit("::", 1)[-1]
            failed = [x for x in st.facts if isinstance(x, tuple) and x[0] == "stmt-failed"]
            s2 = st.copy()
            if k == "commit":
                if failed:
                    self.bad.setdefault("partial:" + short(body.name), (body, t.line, "the batch is committed although one of its statements failed: the rest of it is stored and the caller is told all of it was"))
                st.facts = st.facts - {"tx"}
                s2.facts = (s2.facts - {"tx"}) | {("stmt-failed", short(body.name))}
                return [(E(RES, "Ok", None), st), (E(RES, "Err", None), s2)]
            st.facts = (st.facts - {"tx"}) | {("stmt-failed", short(body.name))}
            return [(None, st)]
        return None

    def handed(self, eng, st, body, t, vals, stack):
        """a closure of statements handed to an iterator: its failure is the iterator's (try_for_each), or that of
        whoever collects the results"""
        if eng.P.targets(body, t):
            return None
        clo = None
        for v in vals:
            v = eng.deref(st, v) if v is not None else None
            if v is not None and v[0] == "clo" and v[1] in self.interesting and self.P.bodies[v[1]].locals[0].startswith("core::result::Result<"):
                clo = v
        if clo is None:
            return None
        direct = t.op.fn.full.rsplit("::", 1)[-1] in ("try_for_each", "try_fold", "and_then", "map_or", "map_or_else", "then")
        nb = self.P.bodies[clo[1]]
        s0 = st.copy()
        out = [(E(RES, "Ok", None) if direct else None, st)]
        args = [("clo", clo[1], tuple(eng.export(s0, x) for x in clo[2]))] + [None] * (nb.argc - 1)
        for rv, facts, know in eng.run(clo[1], args, s0, stack + [(body, t.line)]):
            s3 = s0.copy()
            s3.facts, s3.know = facts, dict(know)
            err = rv is not None and rv[0] == "e" and rv[1] == RES and rv[2] == "Err"
            if direct:
                out.append((E(RES, "Err", None) if err else E(RES, "Ok", None) if rv is not None and rv[0] == "e" else None, s3))
            elif not err:
                out.append((None, s3))
        return out

    def params(self, st, body, bb, t, i, sql):
        if sql is None or len(t.args) <= i:
            return
        self.binds = getattr(self, "binds", {})
        self.binds.setdefault((body.id, bb, sql), bind_types(self.P, body, t.args[i]))


class Eng(Engine):
    def tested_locals(self, body):
        return frozenset()


def defs_of(body):
    d = {}
    for j in body.reachable:
        bb = body.bbs[j]
        for s in bb.stmts:
            if s.k == "=" and not s.place.p:
                d.setdefault(s.place.l, []).append(s.rv)
        t = bb.term
        if t.k == "call" and not t.dest.p:
            d.setdefault(t.dest.l, []).append(("call", t))
    return d


def bind_types(P, body, op):
    """types of the values bound by a params operand, or None when they are not written down here"""
    D = defs_of(body)

    def one(l):
        ds = D.get(l, [])
        return ds[0] if len(ds) == 1 else None

    def source(op, n=0):
        """walk copies, borrows and unsizing casts back: ('agg', ops) | ('ty', type)"""
        while n < 24:
            n += 1
            if op.k == "c" and op.promoted:
                pb = P.bodies.get((op.promoted[1], op.promoted[0])) if len(op.promoted) > 1 else None
                return ("ty", op.ty)
            if not op.is_place:
                return ("ty", op.ty)
            ty = body.locals[op.place.l] if not op.place.p else None
            pr = [e for e in op.place.p if e != "*"]
            if pr:
                return ("ty", None)
            rv = one(op.place.l)
            if rv is None:
                return ("ty", body.locals[op.place.l])
            if rv[0] == "use":
                op = rv[1]
                continue
            if rv[0] == "cast":
                src = rv[1]
                if "dyn rusqlite" in str(rv[2]) and src.is_place and not str(rv[2]).startswith("&["):
                    # the value behind this reference is what is bound
                    if "dyn rusqlite" not in str(opty(src)):
                        return ("ty", opty(src))
                op = src
                continue
            if rv[0] in ("ref", "raw"):
                o = type(op)()
                o.k, o.place = "p", rv[1]
                if [e for e in rv[1].p if e != "*"]:
                    return ("ty", opty(o))
                op = o
                continue
            if rv[0] == "agg" and rv[1][0] in ("arr", "tup"):
                return ("agg", rv[2])
            return ("ty", body.locals[op.place.l])
        return ("ty", None)

    def opty(o):
        from vpa.ir import body_ty
        if o.is_place:
            return body_ty(body, o.place)
        return o.ty
    k, v = source(op)
    if k == "agg":
        out = []
        for o in v:
            k2, v2 = source(o)
            out.append(v2 if k2 == "ty" else None)
        return out
    m = re.match(r"^(?:&(?:'[a-z_0-9]+ )?)*\[(.*); (\d+)\]$", v or "")
    if m:
        return [m.group(1) if "dyn" not in m.group(1) else None] * int(m.group(2))
    if v == "()":
        return []
    return None


INT = {"i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize", "bool"}


def strip_refs(t):
    t = re.sub(r"^(&('[a-z_0-9]+ )?(mut )?)+", "", t or "")
    m = re.match(r"^(?:alloc::borrow::Cow<'[a-z_0-9]+, |alloc::boxed::Box<|alloc::rcs::rc::Rc<|alloc::rcs::arc::Arc<|alloc::sync::Arc<)(.*)>$", t)
    return strip_refs(m.group(1)) if m else t


def option_of(t):
    m = re.match(r"^core::option::Option<(.*)>$", strip_refs(t))
    return m.group(1) if m else None


def written(t):
    """storage classes a bound value of this type may have, None when unknown"""
    o = option_of(t)
    if o is not None:
        w = written(o)
        return None if w is None else w | {"null"}
    t = strip_refs(t)
    if t in INT or t.startswith("core::num::nonzero"):
        return {"integer"}
    if t in ("f32", "f64"):
        return {"real"}
    if t in ("str", "alloc::string::String"):
        return {"text"}
    if t in ("[u8]", "alloc::vec::Vec<u8>"):
        return {"blob"}
    if t == "rusqlite::types::Null":
        return {"null"}
    return None


def accepted(t):
    o = option_of(t)
    if o is not None:
        a = accepted(o)
        return None if a is None else a | {"null"}
    t = strip_refs(t)
    if t in INT or t.startswith("core::num::nonzero"):
        return {"integer"}
    if t in ("f32", "f64"):
        return {"integer", "real"}
    if t in ("str", "alloc::string::String"):
        return {"text"}
    if t in ("[u8]", "alloc::vec::Vec<u8>"):
        return {"blob"}
    return None


def affinity(decl, classes):
    d = (decl or "").upper()
    if "INT" in d:
        return set(classes)                                     # a fraction stays REAL in an INTEGER column
    if "CHAR" in d or "CLOB" in d or "TEXT" in d:
        return {"text" if c in ("integer", "real") else c for c in classes}
    if "REAL" in d or "FLOA" in d or "DOUB" in d:
        return {"real" if c == "integer" else c for c in classes}
    return set(classes)


def split_top(s):
    out, depth, cur, q = [], 0, "", None
    for ch in s:
        if q:
            q = None if ch == q else q
        elif ch in "'\"":
            q = ch
        elif ch == "(":
            depth += 1
        elif ch == ")":
            depth -= 1
        if ch == "," and depth == 0 and not q:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def number(sql):
    """give bare `?` their numbers"""
    n = 0
    out, q, i = "", None, 0
    while i < len(sql):
        ch = sql[i]
        if q:
            q = None if ch == q else q
        elif ch in "'\"":
            q = ch
        elif ch == "?":
            m = re.match(r"\?(\d+)", sql[i:])
            if m:
                n = max(n, int(m.group(1)))
                out += m.group(0)
                i += len(m.group(0))
                continue
            n += 1
            out += "?%d" % n
            i += 1
            continue
        out += ch
        i += 1
    return out, n


def expr_classes(e, binds, old):
    """storage classes of a written expression; None unknown, () no constraint (keeps what is stored)"""
    e = e.strip()
    m = re.match(r"^\?(\d+)$", e)
    if m:
        k = int(m.group(1)) - 1
        return written(binds[k]) if binds is not None and k < len(binds) else None
    if re.match(r"^-?\d+$", e):
        return {"integer"}
    if re.match(r"^-?\d*\.\d+$", e):
        return {"real"}
    if re.match(r"^'.*'$", e, re.S):
        return {"text"}
    if e.upper() == "NULL":
        return {"null"}
    m = re.match(r"^(COALESCE|IFNULL)\s*\((.*)\)$", e, re.I | re.S)
    if m:
        r, parts = set(), [expr_classes(x, binds, old) for x in split_top(m.group(2))]
        for p in parts[:-1]:
            if p is None:
                return None
            r |= p - {"null"}
        return None if parts[-1] is None else r | parts[-1]
    m = re.match(r"^(?:excluded\.)?([A-Za-z_]\w*)(\s*[-+]\s*\d+)?$", e, re.I)
    if m and m.group(1).lower() in old:
        return set()
    return None


def run(P, R, tier):
    R.explanation = ("Every call into the database library: the SQL text is a constant of the source; the schema is built by SQLite from the shell's own statements and every other statement is compiled against it, with the number of values bound at the call; "
                     "for each column the storage classes of everything written to it are collected from the types bound, and every place that reads it must take all of them; "
                     "path simulation of every transaction: what fails in it is neither committed nor reported as stored, and every success path commits; several rows are not written outside one; the file is closed to other users before it is used.")
    R.assumptions = ["SQLite does what it documents (affinity, transactions, rollback on drop as rusqlite documents it)", "databases hold what the current schema and writers put there"]
    P.TEXT = TextPolicy(P)
    chmod = P.can_reach(lambda b, i, t: t.op.fn is not None and bool(CHMOD.match(t.op.fn.full) or MODE.search(t.op.fn.full)))
    isrq = lambda b, i, t: t.op.fn is not None and bool(ANY.match(t.op.fn.full)) and any(r.match(nolt(t.op.fn.full)) for r in (PREP, CONN, STMT, TX, OPEN, NEXT, GET, END))
    reach = P.can_reach(isrq)
    containers = {b.id for b in P.bodies.values() if b.promoted is None and any(isrq(b, i, t) for i, t in b.calls)}
    # row readers handed to a query are judged with the query
    only_get = {c for c in containers if all(GET.match(nolt(t.op.fn.full)) or not isrq(P.bodies[c], i, t) for i, t in P.bodies[c].calls)}
    sites, queries, gets, binds, txs, bad, opens = {}, set(), {}, {}, set(), {}, {}
    open_sites, text_sites, settled = {}, {}, set()
    todo = [(c, 0) for c in sorted(containers - only_get, key=str)]
    done = set()
    while todo:
        c, d = todo.pop(0)
        if c in done:
            continue
        done.add(c)
        b = P.bodies[c]
        sp = Db(P, {x for x in reach if len(P.bodies[x].bbs) <= 400} | {x for x in chmod if len(P.bodies[x].bbs) <= 60})
        en = Eng(P, sp)
        args = [None] * (b.argc if b.kind != "coroutine" else 0)
        try:
            res = en.run(c, args, State(), [])
        except RuntimeError as e:
            if d == 0 or "budget" not in str(e):
                raise
            continue                                             # a caller too large to settle anything: what it should settle stays open
        R.count("functions")
        R.count("abstract_states", en.stats["states"])
        for k, v in sp.sites.items():
            sites.setdefault(k, {}).update(v)
        queries |= sp.queries
        for k, v in sp.gets.items():
            gets.setdefault(k, set()).update(v)
        for k, v in getattr(sp, "binds", {}).items():
            binds.setdefault(k, v)
        txs |= sp.txs
        for k, v in sp.bad.items():
            bad.setdefault(k, v)
        opens.update(sp.opens)
        own_tx = any(k[0] == c for k in sp.txs)
        for rv, facts, know in res:
            okish = not (rv is not None and rv[0] == "e" and rv[1] == RES and rv[2] == "Err")
            failed = any(isinstance(x, tuple) and x[0] == "stmt-failed" for x in facts)
            sure_ok = rv is not None and rv[0] == "e" and rv[1] == RES and rv[2] == "Ok"
            if own_tx and "tx" in facts and not failed and okish and not b.locals[0].startswith(("core::result::Result<rusqlite::transaction", "rusqlite::transaction")):
                bad.setdefault("uncommitted:" + short(b.name), (b, b.line, "a transaction is left without being committed on a path that reports success: what was written in it is lost"))
            if own_tx and failed and sure_ok:
                bad.setdefault("hidden:" + short(b.name), (b, b.line, "success is reported although a statement of the batch failed"))
            if sure_ok and "open" in facts:
                bad.setdefault("unprotected:" + short(b.name), (b, b.line, "a database is handed out whose file is open to other users"))
        un = {}
        for k, v in sp.unresolved.items():
            t = P.bodies[k[0]].bbs[k[1]].term
            if not STMT.match(nolt(t.op.fn.full)):
                lv = origins(P, P.bodies[k[0]], t.args[1], k[1], P.TEXT)
                if lv and all(x[0] == "const" and isinstance(x[1], str) for x in lv):
                    for x in lv:
                        sites.setdefault(k, {}).setdefault(x[1], "flow")
                        if CONN.match(nolt(t.op.fn.full)) and len(t.args) > 2:
                            binds.setdefault((k[0], k[1], x[1]), bind_types(P, P.bodies[k[0]], t.args[2]))
                else:
                    text_sites[k] = (v, lv)
            else:
                un[k] = v
        if un:
            cs = sorted({x[0] for x in P.callers.get(c, []) if x[1] in ("call", "closure", "fnref")} - {c}, key=str)
            open_sites.update(un)
            if d < 3:
                todo += [(x, d + 1) for x in cs]
        settled |= sp.settled - set(sp.unresolved)
    # a text that no caller settles either
    for k, (b, line) in sorted(open_sites.items(), key=str):
        if k not in settled and not text_sites:
            R.violation("statement:%s" % short(b.name), where(b, line), "the SQL of the statement run here is not a constant of the source")
    for k, ((b, line), lv) in sorted(text_sites.items(), key=str):
        R.violation("text:%s" % short(b.name), where(b, line), "the SQL text is put together at run time (%s): what the user stores becomes part of the statement" % ", ".join(sorted({leaf_str(x) for x in lv if not (x[0] == "const" and isinstance(x[1], str))}))[:160])
    for k, (b, line, why) in bad.items():
        R.violation(k, where(b, line), why)
    R.counts["sql_sites"] = len(sites)
    R.counts["transactions"] = len(txs)
    R.counts["databases_opened"] = len(opens)
    R.floor("sql_sites", 25, "SQL statements")
    R.floor("transactions", 2, "transactions")
    R.floor("databases_opened", 1, "database files opened")
    schema(P, R, sites, queries, gets, binds)


def schema(P, R, sites, queries, gets, binds):
    con = sqlite3.connect(":memory:")
    texts = {}
    for k, m in sites.items():
        for s in m:
            texts.setdefault(s, set()).add(k)

    def at(s):
        k = sorted(texts[s], key=str)[0]
        b = P.bodies[k[0]]
        return b, where(b, b.bbs[k[1]].term.line)
    order = {"CREATE TABLE": 0, "ALTER": 1}
    ddl = sorted((s for s in texts if SCHEMA.match(s) and not re.match(r"^\s*PRAGMA", s, re.I)), key=lambda s: (0 if re.match(r"^\s*CREATE\s+TABLE", s, re.I) else 1 if re.match(r"^\s*ALTER", s, re.I) else 2, s))
    added = {}
    for s in ddl:
        b, w = at(s)
        if re.match(r"^\s*DROP\b", s, re.I):
            R.violation("drop:%s" % short(b.name), w, "stored data is dropped: " + " ".join(s.split())[:80])
            continue
        m = re.match(r"^\s*ALTER\s+TABLE\s+(\w+)\s+ADD\s+(?:COLUMN\s+)?(\w+)\s*(.*)$", s, re.I | re.S)
        if m and "DEFAULT" not in m.group(3).upper():
            added.setdefault(m.group(1).lower(), set()).add(m.group(2).lower())
        try:
            con.executescript(s)
        except sqlite3.Error as e:
            if m and "duplicate column" in str(e):
                continue
            R.violation("schema:%s:%s" % (short(b.name), " ".join(s.split())[:60]), w, "SQLite refuses this part of the schema: %s" % e)
        R.count("schema_statements")
    tables = [r[0] for r in con.execute("select name from sqlite_master where type='table' and name not like 'sqlite_%'")]
    cols = {}      # table -> {column: (decl, notnull, default, pk)}
    for t in tables:
        cols[t.lower()] = {r[1].lower(): (r[2], r[3], r[4], r[5]) for r in con.execute("pragma table_info(%s)" % t)}
    R.counts["tables"] = len(cols)
    R.counts["columns"] = sum(len(c) for c in cols.values())
    R.floor("tables", 5, "tables")
    classes = {}   # (table, col) -> {class: where}

    def put(t, c, cls, w):
        decl, nn, df, pk = cols[t][c]
        for x in affinity(decl, cls):
            if x == "null" and pk and "INT" in (decl or "").upper():
                x = "integer"
            if x == "null" and nn:
                continue                                         # refused by the column, reported to the caller
            classes.setdefault((t, c), {}).setdefault(x, w)
    for t in added:
        for c in added[t]:
            if t in cols and c in cols[t]:
                put(t, c, {"null"}, "rows from before the column was added")
    reads = {}
    for s in sorted(texts):
        if SCHEMA.match(s):
            continue
        b, w = at(s)
        sn, n = number(s)
        tabs = set()

        def auth(act, a, b_, c, d):
            if act in (sqlite3.SQLITE_READ, sqlite3.SQLITE_INSERT, sqlite3.SQLITE_UPDATE, sqlite3.SQLITE_DELETE) and a:
                tabs.add(a.lower())
            return sqlite3.SQLITE_OK
        con.set_authorizer(auth)
        names = None
        try:
            con.execute("EXPLAIN " + sn, [None] * n)
            if re.match(r"^\s*(SELECT|WITH)\b", sn, re.I):
                names = [x[0].lower() for x in con.execute(sn, [1] * n).description]
        except sqlite3.Error as e:
            R.violation("sql:%s:%s" % (short(b.name), " ".join(s.split())[:60]), w, "SQLite refuses this statement against the shell's schema: %s" % e)
            continue
        finally:
            con.set_authorizer(None)
        R.count("statements_compiled")
        m = re.search(r"\bRETURNING\b(.*)$", sn, re.I | re.S)
        if names is None and m:
            names = [x.lower() for x in split_top(m.group(1))]
        reads[s] = (names, tabs & set(cols))
        for (bid, bb, q), ty in sorted(binds.items(), key=str):
            if q != s or ty is None:
                continue
            bd = P.bodies[bid]
            R.count("value_lists")
            if len(ty) != n:
                R.violation("params:%s:%s" % (short(bd.name), " ".join(s.split())[:60]), where(bd, bd.bbs[bb].term.line), "the statement takes %d values and is given %d: it always fails" % (n, len(ty)))
        bl = [ty for (bid, bb, q), ty in binds.items() if q == s and ty is not None and len(ty) == n] or [None]
        m = re.match(r"^\s*(?:INSERT(?:\s+OR\s+\w+)?|REPLACE)\s+INTO\s+(\w+)\s*(\([^)]*\))?\s*VALUES\s*\((.*?)\)\s*(ON\s+CONFLICT.*|RETURNING.*)?$", sn, re.I | re.S)
        if m and m.group(1).lower() in cols:
            t = m.group(1).lower()
            cl = [x.strip().lower() for x in m.group(2)[1:-1].split(",")] if m.group(2) else list(cols[t])
            for ty in bl:
                for c, e in zip(cl, split_top(m.group(3))):
                    x = expr_classes(e, ty, cols[t])
                    if x is not None:
                        put(t, c, x, w)
                        R.count("typed_writes")
            for c in cols[t]:
                if c not in cl and not (cols[t][c][3] and "INT" in cols[t][c][0].upper()):
                    df = cols[t][c][2]
                    put(t, c, {"null"} if df is None else (expr_classes(df, None, {}) or set()), w)
        m = re.search(r"\bUPDATE\s+(?:(\w+)\s+)?SET\b(.*?)(?:\bWHERE\b|\bRETURNING\b|$)", sn, re.I | re.S)
        if m:
            t = (m.group(1) or (re.search(r"INTO\s+(\w+)", sn, re.I) or [None, ""])[1]).lower()
            if t in cols:
                for a in split_top(m.group(2)):
                    if "=" not in a:
                        continue
                    c, e = a.split("=", 1)
                    c = c.strip().lower()
                    for ty in bl:
                        x = expr_classes(e, ty, cols[t])
                        if x and c in cols[t]:
                            put(t, c, x, w)
                            R.count("typed_writes")
    R.floor("statements_compiled", 18, "SQL statements compiled")
    R.floor("value_lists", 12, "value lists bound to a statement")
    R.floor("typed_writes", 15, "columns written with a known type")
    # ---- readers
    todo = set()
    for (sql, clo, bid, bb) in queries:
        for x in P.reach_from([clo]):
            b = P.bodies[x]
            for i, t in b.calls:
                if t.op.fn is not None and GET.match(nolt(t.op.fn.full)):
                    todo.add((sql, x, i))
    for (bid, bb), ss in gets.items():
        for s in ss:
            todo.add((s, bid, bb))
    for sql, bid, bb in sorted(todo, key=str):
        if sql not in reads:
            continue
        names, tabs = reads[sql]
        b = P.bodies[bid]
        t = b.bbs[bb].term
        ix = t.args[1]
        w = where(b, t.line)
        if ix.k == "c" and ix.s is not None:
            i = names.index(ix.s.lower()) if names is not None and ix.s.lower() in names else -1
            if names is not None and i < 0:
                R.violation("column:%s:%s" % (short(b.name), ix.s), w, "reads the column %s, which the statement does not return" % ix.s)
                continue
        elif ix.k == "c" and ix.val is not None:
            i = ix.val
        else:
            continue
        if names is None:
            R.violation("column:%s:%s" % (short(b.name), i), w, "reads a row of a statement that returns none")
            continue
        R.count("columns_read")
        if i >= len(names):
            R.violation("column:%s:%s" % (short(b.name), i), w, "reads column %d of a statement that returns %d" % (i, len(names)))
            continue
        ty = dest_ty(b, t)
        m = re.match(r"^core::result::Result<(.*), rusqlite::error::Error>$", ty)
        ty = m.group(1) if m else ty
        acc = accepted(ty)
        if acc is None:
            continue
        lenient = is_lenient(b, t)
        for tb in tabs:
            for cls, ww in sorted(classes.get((tb, names[i]), {}).items()):
                if cls in acc or (cls == "null" and lenient):
                    continue
                R.violation("type:%s:%s.%s" % (short(b.name), tb, names[i]), w, "reads %s.%s as %s, but %s values are stored there (%s): the whole row is refused" % (tb, names[i], ty, cls, ww))
        R.count("reads_typed")
    R.floor("columns_read", 25, "columns read")


def is_lenient(b, t):
    """is a failed read replaced by a default?"""
    for i, u in b.calls:
        if u.op.fn is not None and re.search(r"::result::Result(::)?<.*>::(ok|unwrap_or|unwrap_or_default|unwrap_or_else)$", u.op.fn.full) and u.args and u.args[0].is_place and not u.args[0].place.p and u.args[0].place.l == t.dest.l:
            return True
    return False
