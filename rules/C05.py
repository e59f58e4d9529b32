"""AI file tools stay inside the workspace/skills directories and away from ignored files."""
from rules.common import *
from rules.C04 import in_tool, TOOL

FS = re.compile(r"^(std::fs::(read|read_to_string|read_dir|write|create_dir|create_dir_all|remove_file|remove_dir|remove_dir_all|rename|copy|hard_link|File::open|File::create|File::create_new|OpenOptions::open|read_link)|ignore::walk::WalkBuilder::new|glob::glob(_with)?|walkdir::WalkDir::new|tokio::fs::.*)$")
ARG = re.compile(r"serde_json::(value::)?Value::(as_str|to_string|as_array|as_object)|<serde_json::value::Value as .*(to_string|Display|Index)")


def resolvers(P):
    """workspace functions whose Ok path is tested to lie under an allowed root"""
    out = set()
    for b in P.bodies.values():
        if b.promoted is None and b.kind == "fn" and in_tool(b) and re.search(r"^core::result::Result<std::path::PathBuf", b.locals[0]):
            out.add(b.id)
    return out


def prefix_test(P, b, t):
    return t.op.fn is not None and re.search(r"std::path::Path::starts_with$", t.op.fn.full)


def gitignore_fn(P):
    return {x for x in P.can_reach(lambda b, i, t: t.op.fn is not None and re.search(r"ignore::gitignore::Gitignore::matched", t.op.fn.full))
            if P.bodies[x].locals[0] == "bool" and P.bodies[x].kind == "fn"}


class Prov(WholePolicy):
    def __init__(self, P, res):
        super().__init__(P)
        self.res = res

    def call(self, b, bb, t):
        f = t.op.fn
        if f is not None and ARG.search(f.full):
            return "leaf"
        if any(x in self.res for x in self.P.targets(b, t)):
            return "leaf"
        return None


def run(P, R, tier):
    R.explanation = ("Provenance of every path the AI file tools hand to the file system (must be the resolver's Ok value or derived from it), path simulation of the resolver "
                     "(Ok only for a canonicalised path that a root-prefix test said yes to) and of the tools (ignored test known to be no before the access).")
    cand = resolvers(P)
    pref = P.can_reach(lambda b, i, t: in_tool(b) and prefix_test(P, b, t))
    res = {x for x in cand if x in pref}
    ign = gitignore_fn(P)
    # ---- the resolver
    class RS(Spec):
        def on_call(self, eng, st, body, bb, t, vals, stack):
            if prefix_test(P, body, t) or (dest_ty(body, t) == "bool" and any(x in pref for x in P.targets(body, t))) or (
                    t.op.fn is not None and re.search(r"::(any|all)$", t.op.fn.name) and dest_ty(body, t) == "bool" and any(
                        a.is_place and "closure" in body.locals[a.place.l] for a in t.args) and self.closure_in(body, bb, t)):
                s2 = st.copy()
                st.facts = st.facts | {"inside"}
                return [(C(True), st), (C(False), s2)]
            f = t.op.fn
            if f is not None and re.search(r"std::path::Path::is_symlink$|std::fs::symlink_metadata$|std::path::Path::(symlink_metadata|read_link)$|std::fs::read_link$", f.full):
                st.facts = st.facts | {"symlink-test"}
                return [(None, st)]
            if f is not None and re.search(r"std::fs::canonicalize$|Path::canonicalize$|tokio::fs::canonicalize", f.full):
                st.facts = st.facts | {"canonical"}
                return [(None, st)]
            return None

        def closure_in(self, body, bb, t):
            from rules.C02 import Verdict
            c = Verdict.closure_arg(self, body, bb, t)
            return c is not None and c.id in pref
    for x in sorted(res, key=str):
        b = P.bodies[x]
        R.count("resolvers")
        sp = RS(P)
        sp.interesting = P.can_reach(lambda bo, i, t: in_tool(bo) and t.op.fn is not None and re.search(r"canonicalize$|is_symlink$|symlink_metadata$", t.op.fn.full)) & {y for y in P.bodies if in_tool(P.bodies[y])}
        en = Engine(P, sp)
        for rv, facts, know in en.run(x, [None] * b.argc, State(), []):
            if rv is not None and rv[0] == "e" and rv[2] == "Err":
                continue
            R.count("resolver_ok_paths")
            if "inside" not in facts:
                R.violation("unchecked-resolve:" + short(b.name), where(b), "the resolver can return a path that no root-prefix test accepted")
            if "canonical" not in facts:
                R.violation("uncanonical-resolve:" + short(b.name), where(b), "the resolver can return a path that was not canonicalised (symlinks and `..` would escape)")
        R.count("abstract_states", en.stats["states"])
        # the value returned and the value tested come only from canonicalisation
        class Canon(WholePolicy):
            def call(self, b, bb, t):
                f = t.op.fn
                if f is not None and re.search(r"canonicalize$", f.full):
                    return "leaf"
                if f is not None and f.full.endswith("resolve_with_existing_ancestor") :
                    return None
                if f is not None and re.search(r"Path::(join|components|parent|to_path_buf)$", f.name):
                    return [0]
                if [y for y in P.targets(b, t)]:
                    return None
                return "args" if f is not None and f.name.rsplit("::", 1)[-1] in TRANSPARENT else "leaf"
        for i in b.reachable:
            for s in b.bbs[i].stmts:
                if s.k == "=" and s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][2] == "Ok" and s.place.l == 0 and not s.place.p:
                    R.count("resolver_ok_values")
                    pol = Canon(P)
                    pol.through_params = False
                    for o in origins(P, b, s.rv[2][0], i, pol, idx=b.bbs[i].stmts.index(s)):
                        if o[0] in ("param", "field", "unknown") or (o[0] == "call" and not re.search(r"canonicalize$|fmt::format|ok_or|map_err|Argument", o[1])):
                            R.violation("uncanonical-value:%s:%s" % (short(b.name), leaf_str(o)), where(b, s.line), "the resolver's result is not a canonicalised path: " + leaf_str(o))
        tested_value(P, R, b, Canon)
    # a path whose last components do not exist: dangling links must be refused on the way
    for b in P.bodies.values():
        if b.promoted is not None or b.kind != "fn" or not in_tool(b):
            continue
        names = [t.op.fn.full for i, t in b.calls if t.op.fn]
        if any(n.endswith("std::fs::canonicalize") for n in names) and any(n.endswith("PathBuf::pop") or n.endswith("Path::parent") for n in names) and b.locals[0].startswith("core::result::Result<std::path::PathBuf"):
            R.count("ancestor_walks")
            link_walk(P, R, b)
            if not any(re.search(r"is_symlink$|symlink_metadata$|read_link$", n) for n in names):
                R.violation("dangling-symlink:" + short(b.name), where(b), "a not-yet-existing path is resolved through its ancestors without looking for dangling symlinks, which a write would follow out of the allowed roots")
    # ---- the accesses
    pol = Prov(P, res)
    tools = []
    for b in P.bodies.values():
        if not in_tool(b) or b.promoted is not None:
            continue
        for i, t in b.calls:
            if t.op.fn is None or not FS.match(t.op.fn.full):
                continue
            leafs = []
            for a in t.args[:1] if "OpenOptions" not in t.op.fn.full else t.args[1:2]:
                leafs += origins(P, b, a, i, pol)
            names = {x[1] for x in leafs if x[0] == "call"}
            raw = [x for x in leafs if x[0] == "call" and ARG.search(x[1])]
            resd = [x for x in leafs if x[0] == "call" and any(y in res for y in P.targets(x[2], x[3]))]
            if not raw and not resd:
                continue
            R.count("model_chosen_accesses")
            R.sample("%s in %s: path from %s" % (short(t.op.fn.full), short(b.name), sorted({short(n) for n in names})))
            if raw and not any(b.id in P.reach_from([x]) for x in res):
                R.violation("raw-path:%s:%s" % (short(b.name), short(t.op.fn.full)), where(b, t.line), "a path the model chose reaches the file system without the containment check")
            if resd:
                tools.append((b, i))
    # ---- ignored files
    acc = {(b.id, i) for b, i in tools}

    class IG(Spec):
        bad = {}

        def on_call(self, eng, st, body, bb, t, vals, stack):
            if any(x in ign for x in P.targets(body, t)):
                return [(eng.sym(st, "ign"), st)]
            if any(x in res for x in P.targets(body, t)):
                st.know = {k: v for k, v in st.know.items() if k[0] != "ign"}
                return [(None, st)]
            if (body.id, bb) in acc and not re.search(r"DirEntry|create_dir", t.op.fn.full):
                R.count("guarded_accesses")
                if st.know.get(("ign",)) != frozenset([False]) and body.kind == "fn":
                    R.violation("ignored-file:%s:%s" % (short(body.name), short(t.op.fn.full)), where(body, t.line), "a path that .gitignore excludes can be accessed")
                return [(None, st)]
            return None
    for x in sorted({b.id for b, i in tools if b.kind == "fn"}, key=str):
        en = Engine(P, IG(P))
        en.run(x, [None] * P.bodies[x].argc, State(), [])
        R.count("tool_functions")
        R.count("abstract_states", en.stats["states"])
    # directory listings: every entry shown is filtered or walked by the ignore-aware walker
    for b, i in tools:
        t = b.bbs[i].term
        if t.op.fn.full == "std::fs::read_dir":
            R.count("listings")
            fam = P.reach_from([b.id], skip=lambda e: e[1] != "closure")
            if not any(any(y in ign for y in P.targets(P.bodies[x], ct)) for x in fam if P.bodies[x].kind == "closure" or loops(P.bodies[x]) for ci, ct in P.bodies[x].calls if P.bodies[x].kind == "closure" or on_cycle(P.bodies[x], ci)):
                R.violation("unfiltered-listing:" + short(b.name), where(b, t.line), "a directory listing shows entries without asking whether they are ignored")
    for b in P.bodies.values():
        if in_tool(b) and b.promoted is None:
            for i, t in b.calls:
                f = t.op.fn
                if f and "ignore::walk::WalkBuilder::" in f.full and len(t.args) > 1 and t.args[1].val is not None:
                    sh = f.full.rsplit("::", 1)[-1]
                    if sh in ("git_ignore", "ignore", "parents", "standard_filters") and t.args[1].val in (0, False):
                        R.violation("walker-%s-off:%s" % (sh, short(b.name)), where(b, t.line), "the file walker is told not to respect .gitignore")
                    if sh == "follow_links" and t.args[1].val in (1, True):
                        R.violation("walker-follows-links:" + short(b.name), where(b, t.line), "the file walker follows symlinks out of the checked directory")
    R.floor("resolvers", 1, "path resolvers")
    R.floor("resolver_ok_paths", 1, "accepting paths of the resolver")
    R.floor("model_chosen_accesses", 5, "file-system accesses with a path the model chose")
    R.floor("guarded_accesses", 4, "accesses behind the ignore test")


def on_cycle(b, i):
    seen, st = set(), list(b.bbs[i].term.succ())
    while st:
        y = st.pop()
        if y == i:
            return True
        if y not in seen:
            seen.add(y)
            st += b.bbs[y].term.succ()
    return False


def loops(b):
    return True


def tested_value(P, R, b, Canon):
    """the path the roots are compared with is the path that is returned, and the roots are the workspace and the skills"""
    F = flow_of(P)
    own, ok = set(), False
    pol = Canon(P)
    for i in b.reachable:
        for j, s in enumerate(b.bbs[i].stmts):
            if s.k == "=" and s.rv[0] == "agg" and s.rv[1][0] == "adt" and s.rv[1][2] == "Ok" and s.place.l == 0 and not s.place.p:
                ok = True
                own |= {id(o[3]) for o in F.origins(b, s.rv[2][0], i, j, pol) if o[0] == "call" and re.search(r"canonicalize$", o[1])}
    if not ok or not own:
        return
    tested = set()
    for x in P.reach_from([b.id]):
        xb = P.bodies[x]
        if not in_tool(xb):
            continue
        for i, t in xb.calls:
            if not prefix_test(P, xb, t):
                continue
            R.count("root_tests")
            tested |= {id(o[3]) for o in origins(P, xb, t.args[0], i, Canon(P)) if o[0] == "call"}
            for o in origins(P, xb, t.args[1], i, Roots(P)):
                if o[0] == "call" and re.search(r"::(parent|ancestors|pop|temp_dir|home_dir)$", o[1]) and not any(c.op.fn and c.op.fn.full.endswith("Path::components") for ci, c in o[2].calls):
                    R.violation("wide-root:" + short(o[2].name), where(o[2], o[3].line), "the tools' paths are accepted under a directory that is wider than the workspace (%s)" % short(o[1]))
    if not own <= tested:
        R.violation("other-path-tested:" + short(b.name), where(b), "the path that is compared with the allowed roots is not the canonical path that is returned")


class Roots(Policy):
    def __init__(self, P):
        self.P = P

    def call(self, b, bb, t):
        f = t.op.fn
        if f is None:
            return "leaf"
        if re.search(r"::(parent|ancestors|pop|temp_dir|home_dir|get_current_dir)$", f.name):
            return "leaf"
        return None if any(x in self.P.bodies for x in self.P.targets(b, t)) else "args"


class LinkWalk(Spec):
    """before a component is taken off the path it is known to be no link"""
    def __init__(self, P, R, b):
        super().__init__(P)
        self.R, self.b = R, b

    def on_call(self, eng, st, body, bb, t, vals, stack):
        f = t.op.fn
        if f is None:
            return None
        if re.search(r"Path::is_symlink$", f.full):
            s2 = st.copy()
            s2.facts = s2.facts | {"nolink"}
            return [(C(True), st), (C(False), s2)]
        if re.search(r"symlink_metadata$|read_link$", f.full):
            st.facts = st.facts | {"nolink"}
            return [(None, st)]
        if re.search(r"PathBuf::pop$|Path::parent$", f.full):
            self.R.count("components_taken_off")
            if "nolink" not in st.facts:
                self.R.violation("unseen-link:" + short(self.b.name), where(body, t.line), "a component that may be a dangling symlink is passed over, which a write would follow out of the allowed roots")
            st.facts = st.facts - {"nolink"}
            return None
        return None


def link_walk(P, R, b):
    sp = LinkWalk(P, R, b)
    sp.interesting = {x for x in P.bodies if in_tool(P.bodies[x])} & P.can_reach(lambda bo, i, t: in_tool(bo) and t.op.fn is not None and re.search(r"is_symlink$|symlink_metadata$|read_link$", t.op.fn.full))
    en = Engine(P, sp)
    en.run(b.id, [None] * b.argc, State(), [])
