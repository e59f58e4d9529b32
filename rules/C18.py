"""Commands of the user run in the shell's environment."""
from rules.common import *
from vpa.flow import Policy
from vpa.ir import rv_places, Place, body_ty
from rules.C10 import closures_of as passed_closures

CMD = r"(^|<)(std|tokio)::process::(\w+::)*Command(>)?::"
NEW = re.compile(CMD + r"new$")
RUN = re.compile(CMD + r"(output|status|spawn|exec)$")
CLEAR = re.compile(CMD + r"env_clear$")
ENVS = re.compile(CMD + r"envs$")
OTHER = re.compile(CMD + r"(env|env_remove)$")
EXEC = re.compile(r"^nix::unistd::(execv|execvp|execve|execvpe|execveat|fexecve)$|^libc::.*::exec[lv]\w*$|CommandExt>::exec$")
WITHENV = re.compile(r"^nix::unistd::(execve|execvpe|execveat|fexecve)$")
PROCENV = re.compile(r"^std::env::(set_var|remove_var)$|^libc::.*::(setenv|putenv|unsetenv|clearenv)$")
# helpers of the shell itself, not commands of the user: completion sources, palette actions, the prompt's modules, editors
HELPERS = re.compile(r"^<?(impl )?doge_shell::(completion|command_palette|prompt|utils|history|ai_features|github|suggestion)::")
ENVIRONMENT = re.compile(r"^doge_shell::environment::Environment$")


# what leaves entries out, changes them, or keeps them from an earlier time
LOSSY = {"filter", "take", "skip", "take_while", "skip_while", "map_while", "step_by", "retain", "remove", "truncate", "drain", "get_or_init", "get_or_insert_with", "nth", "extract_if"}
TRIMMY = {"trim", "trim_start", "trim_end", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace", "replacen", "trim_matches", "truncate", "strip_prefix", "strip_suffix", "trim_start_matches", "trim_end_matches", "starts_with", "ends_with", "is_empty", "contains", "len"}


class Through(Policy):
    """everything a value is made from"""
    def __init__(self, P):
        self.P = P
        self.odd = []

    def call(self, b, bb, t):
        sh = t.op.fn.name.rsplit("::", 1)[-1] if t.op.fn is not None else ""
        if sh in LOSSY or sh in TRIMMY - {"is_empty", "contains", "len", "starts_with", "ends_with"}:
            self.odd.append((b, t, sh))
        elif sh in ("map", "filter_map", "flat_map", "for_each"):
            for c in passed_closures(self.P, b, t):
                for i, u in c.calls if not isinstance(c, str) else ():
                    n = u.op.fn.name.rsplit("::", 1)[-1] if u.op.fn is not None else ""
                    if n in TRIMMY:
                        self.odd.append((c, u, n))
        tg = [x for x in self.P.targets(b, t) if x in self.P.bodies]
        if tg:
            return "leaf"
        return "args"


def direct(b, op, n=6):
    """the environment's field an operand refers to"""
    p = op.place if op.is_place else None
    while p is not None and n:
        fs = [e for e in p.p if e[0] == "f" and e[3]]
        if fs:
            return fs[-1][2] if ENVIRONMENT.match(fs[-1][3]) else None
        d = [st for bb in b.reachable for st in b.bbs[bb].stmts if st.k == "=" and st.place.l == p.l and not st.place.p]
        if len(d) != 1:
            return None
        rv = d[0].rv
        p = rv[1] if rv[0] == "ref" else rv[1].place if rv[0] == "use" and rv[1].is_place else None
        n -= 1
    return None


def within(P, x):
    """a body with its closures and the functions of the environment it calls"""
    seen, work = set(), [x]
    while work:
        y = work.pop()
        if y in seen or y not in P.bodies:
            continue
        seen.add(y)
        b = P.bodies[y]
        for i, t in b.calls:
            work += [z for z in P.targets(b, t) if z in P.bodies and P.bodies[z].name.lstrip("<").startswith("doge_shell::environment::")]
        work += closures_of(P, b)
    return seen


def closures_of(P, b):
    return [x for x, kind, bb, t in P.edges(b.id) if kind == "closure"]


def builder(P, b):
    """makes the environment of a child: reads both the process-visible and the exported variables and returns a map"""
    if b.promoted is not None or b.kind != "fn" or not re.search(r"^std::collections::(hash::map::HashMap|btree_map::BTreeMap|HashMap|BTreeMap)<", b.locals[0]) or not b.name.lstrip("<").startswith("doge_shell::environment::"):
        return False
    fs = set()
    for x in within(P, b.id):
        fs |= fields_read(P.bodies[x])
    return {"system_env_vars", "exported_vars"} <= fs


def fields_read(b):
    r = set()
    for bb in b.reachable:
        for st in b.bbs[bb].stmts:
            if st.k == "=":
                for p in rv_places(st.rv):
                    r |= {e[2] for e in p.p if e[0] == "f" and e[3] and ENVIRONMENT.match(e[3])}
        t = b.bbs[bb].term
        if t.k == "call":
            for a in t.args:
                if a.is_place:
                    r |= {e[2] for e in a.place.p if e[0] == "f" and e[3] and ENVIRONMENT.match(e[3])}
    return r


def run(P, R, tier):
    R.explanation = ("(1) Every place of the shell that runs a program of the user's through std/tokio Command (a program that is not a constant, or sh) is walked on all paths: it must clear the inherited environment and install the shell's child environment before it starts it. "
                     "(2) Every exec of a forked child takes an explicit environment whose value comes from that same child environment only. (3) The child environment itself is built from the process-visible variables with every exported shell variable written over them; other shell variables are only looked up under an exported name. "
                     "(4) Nothing changes the shell's own process environment.")
    builders = {b.id for b in P.bodies.values() if builder(P, b)}
    R.counts["environment_builders"] = len(builders)
    R.floor("environment_builders", 1, "functions that build the environment of a child")
    bnames = {P.bodies[x].name for x in builders}
    for x in builders:
        R.sample("child environment: " + short(P.bodies[x].name))

    def from_builder(b, i, op):
        pol = Through(P)
        ls = origins(P, b, op, i, pol)
        good = any(l[0] == "call" and l[1] in bnames for l in ls)
        bad = pol.odd + [l for l in ls if l[0] == "field" and ENVIRONMENT.match(l[1]) or l[0] == "call" and l[1] not in bnames and re.search(r"^std::env::", l[1])]
        return good and not bad, ls
    # ---- (1)
    def ours(b):
        return b.promoted is None and b.name.lstrip("<").startswith("doge_shell::") and not HELPERS.match(b.name)

    def dynamic(b, i, t):
        c = const_strs(P, b, i, t.args[0])
        return not c or any(x in ("sh", "bash", "/bin/sh", "/bin/bash") for x in c)
    holders = {b.id for b in P.bodies.values() if ours(b) and any(t.op.fn is not None and NEW.search(t.op.fn.full) and dynamic(b, i, t) for i, t in b.calls)}

    class Cmd(Spec):
        cap = 40

        def __init__(self, P):
            super().__init__(P)
            self.runs, self.bad = set(), {}
            self.interesting = {x for x in P.can_reach(lambda b, i, t: t.op.fn is not None and bool(re.search(CMD, t.op.fn.full))) if "process::Command" in P.bodies[x].locals[0] or any("process::Command" in y for y in P.bodies[x].locals[1:P.bodies[x].argc + 1])}

        def on_call(self, eng, st, body, bb, t, vals, stack):
            f = t.op.fn
            if f is None:
                return None
            if NEW.search(f.full):
                st.facts = frozenset({"new"} if ours(body) and dynamic(body, bb, t) else {"helper"})
                return [(None, st)]
            if CLEAR.search(f.full):
                st.facts = (st.facts - {"set"}) | {"clear"}
                return [(None, st)]
            if ENVS.search(f.full):
                ok, ls = from_builder(body, bb, t.args[1])
                st.facts = st.facts | ({"set"} if ok else {"odd"})
                return [(None, st)]
            if OTHER.search(f.full):
                if len(t.args) > 2 and "item" in st.facts and all(from_builder(body, bb, a)[0] for a in t.args[1:]):
                    st.facts = st.facts - {"item"}
                else:
                    st.facts = st.facts | {"odd"}
                return [(None, st)]
            if f.name.endswith("::next") and "HashMap" not in f.name and "hash" in f.full and t.args and from_builder(body, bb, t.args[0])[0]:
                if "item" in st.facts:
                    st.facts = st.facts | {"odd"}
                s2 = st.copy()
                st.facts = st.facts | {"item"}
                s2.facts = s2.facts | {"set"}
                return [(E("core::option::Option", "Some", None), st), (E("core::option::Option", "None"), s2)]
            if RUN.search(f.full):
                if "new" in st.facts:
                    self.runs.add((body.id, bb))
                    if not {"clear", "set"} <= st.facts or "odd" in st.facts:
                        self.bad.setdefault((body.id, bb), (body, t, st.facts))
                return [(None, st)]
            return None
    work = set(holders)
    for x in holders:
        if "process::Command" in P.bodies[x].locals[0]:
            work |= {c[0] for c in P.callers.get(x, [])}
    runs = set()
    for x in sorted(work, key=str):
        b = P.bodies[x]
        sp = Cmd(P)
        en = Engine(P, sp)
        en.run(x, [None] * (b.argc if b.kind != "coroutine" else 0), State(), [])
        R.count("abstract_states", en.stats["states"])
        runs |= sp.runs
        for body, t, facts in sp.bad.values():
            what = "with the environment the shell itself was started with" if "clear" not in facts else "with an environment that is not the shell's child environment" if "set" not in facts else "with a changed environment"
            R.violation("command:%s" % short(body.name), where(body, t.line), "a command of the user is run %s" % what)
    R.counts["command_runs"] = len(runs)
    R.floor("command_runs", 3, "places that run a program of the user's")
    # ---- (2)
    for b in P.bodies.values():
        if b.promoted is not None:
            continue
        for i, t in b.calls:
            f = t.op.fn
            if f is None:
                continue
            if PROCENV.match(f.full):
                R.count("process_environment_changes")

                ty = body_ty(b, t.args[0].place) if t.args[0].is_place else ""
                if re.search(r"\bOs(String|Str)\b", ty):
                    continue  # a snapshot of the process environment put back; shell variables are Strings
                R.violation("process-environment:%s" % short(b.name), where(b, t.line), "changes the environment of the shell's own process")
            if not EXEC.search(f.full):
                continue
            R.count("execs")
            if not WITHENV.match(f.full):
                R.violation("exec:%s:%s" % (short(b.name), short(f.full)), where(b, t.line), "a program is executed without an explicit environment")
                continue

            class Fields(Through):
                through_fields = True
            pol = Fields(P)
            ls = origins(P, b, t.args[2], i, pol)
            for ob, ot, on in pol.odd:
                R.violation("exec-env:%s:%s" % (short(ob.name), on), where(ob, ot.line), "the environment of an executed program is not all of the shell's child environment (%s)" % on)
                break
            odd = [l for l in ls if l[0] == "field" and ENVIRONMENT.match(l[1]) or l[0] == "call" and l[1] not in bnames and (re.search(r"^std::env::", l[1]) or l[2] is not None and l[3] is not None and any(y in P.bodies for y in P.targets(l[2], l[3])))]
            if not any(l[0] == "call" and l[1] in bnames for l in ls):
                R.violation("exec-env:%s" % short(b.name), where(b, t.line), "the environment of an executed program does not come from the shell's child environment: " + ", ".join(sorted({leaf_str(l) for l in ls})[:4]))
            elif odd:
                R.violation("exec-env:%s:%s" % (short(b.name), leaf_str(odd[0])), where(b, t.line), "the environment of an executed program also takes " + leaf_str(odd[0]))
    R.floor("execs", 1, "exec call sites")
    # ---- (3)
    seen = set()
    for x in sorted(builders, key=str):
        for y in sorted(within(P, x) - seen, key=str):
            seen.add(y)
            b = P.bodies[y]
            if "variables" in fields_read(b):
                R.count("bodies_reading_variables")
            for i, t in b.calls:
                f = t.op.fn
                if f is None or not t.args:
                    continue
                sh = f.name.rsplit("::", 1)[-1]
                if direct(b, t.args[0]) == "variables":
                    R.count("variable_lookups")
                    if sh in ("iter", "into_iter") and y in builders:
                        continue  # the walk below sees which of them are taken
                    if sh not in ("get", "contains_key", "get_key_value", "index"):
                        R.violation("leak:%s:%s" % (short(P.bodies[x].name), sh), where(b, t.line), "shell variables are taken without being looked up under an exported name")
                        continue
                    ks = origins(P, b, t.args[1], i, Through(P))
                    kf = {l[2] for l in ks if l[0] == "field" and ENVIRONMENT.match(l[1])}
                    if kf != {"exported_vars"} and not (b.kind != "fn" and not kf and not any(l[0] == "const" for l in ks)):
                        R.violation("leak:%s" % short(P.bodies[x].name), where(b, t.line), "a shell variable that is not known to be exported is looked up for the child's environment")
                if sh in ("entry", "or_insert", "or_insert_with", "or_insert_with_key", "try_insert", "or_default") and any(l[0] == "field" and l[2] in ("variables", "exported_vars") for a in t.args for l in origins(P, b, a, i, Through(P))):
                    R.violation("override:%s" % short(P.bodies[x].name), where(b, t.line), "an exported variable does not replace an inherited one of the same name")
    for x in sorted(builders, key=str):
        b = P.bodies[x]
        # every exported variable that has a value is written

        class Written(Spec):
            cap = 40
            lost = leak = None
            gets = sets = 0

            def on_call(self, eng, st, body, bb, t, vals, stack):
                f = t.op.fn
                if f is None:
                    return None
                sh = f.name.rsplit("::", 1)[-1]
                if sh in ("get", "get_mut", "contains_key", "entry", "insert") and t.args and direct(body, t.args[0]) not in ("variables", "exported_vars") and "TERM" in const_strs(P, body, bb, t.args[1]):
                    st.facts = st.facts | {"term"}
                if sh in ("remove", "clear", "drain", "retain") and "HashMap" in f.full:
                    self.lost = self.lost or t
                if body is not b:
                    return None
                if sh in ("get", "get_key_value") and "HashMap" in f.full and direct(body, t.args[0]) == "variables":
                    self.gets += 1
                    s2 = st.copy()
                    st.facts = st.facts | {"value"}
                    s2.facts = s2.facts - {"due"}
                    return [(E("core::option::Option", "Some", None), st), (E("core::option::Option", "None"), s2)]
                if sh == "next" and re.search(r"hash::map::|hash_map|btree::map|btree_map", f.full) and any(l[0] == "field" and l[2] == "variables" for l in origins(P, body, t.args[0], bb, Through(P))):
                    if "due" in st.facts:
                        self.lost = self.lost or t
                    s2 = st.copy()
                    st.facts = st.facts | {"unknown"}
                    s2.facts = s2.facts - {"unknown"}
                    return [(E("core::option::Option", "Some", None), st), (E("core::option::Option", "None"), s2)]
                if sh == "contains" and direct(body, t.args[0]) == "exported_vars" and "unknown" in st.facts:
                    s2 = st.copy()
                    st.facts = (st.facts - {"unknown"}) | {"due"}
                    s2.facts = s2.facts
                    return [(C(True), st), (C(False), s2)]
                if sh == "insert" and "HashMap" in f.full:
                    if "unknown" in st.facts:
                        self.leak = self.leak or t
                    on = {l[2] for l in origins(P, body, t.args[2], bb, Through(P)) if l[0] == "field"}
                    if "variables" in on:
                        self.sets += 1
                        st.facts = (st.facts - {"due", "value"}) | {"written"}
                    return [(None, st)]
                if sh == "next" and re.search(r"hash::set::|hash_set|btree::set|btree_set", f.full):
                    if "due" in st.facts:
                        self.lost = self.lost or t
                    s2 = st.copy()
                    st.facts = st.facts | {"due"}
                    return [(E("core::option::Option", "Some", None), st), (E("core::option::Option", "None"), s2)]
                if sh == "extend" and "written" in st.facts:
                    on = {l[2] for a in t.args for l in origins(P, body, a, bb, Through(P)) if l[0] == "field"}
                    if "system_env_vars" in on:
                        self.lost = self.lost or t
                return None
        sp = Written(P)
        sp.interesting = {y for y in within(P, x) if P.bodies[y].kind == "fn" and y != x}
        en = Engine(P, sp)
        res = en.run(x, [None] * b.argc, State(), [])
        R.count("abstract_states", en.stats["states"])
        if sp.leak is not None:
            R.violation("leak:%s" % short(b.name), where(b, sp.leak.line), "a shell variable that is not known to be exported is put into the child's environment")
        if sp.lost is not None or any({"due", "value"} & set(facts) for rv, facts, know in res):
            R.violation("override:%s" % short(b.name), where(b, sp.lost.line if sp.lost is not None else None), "an exported variable with a value does not always reach the child's environment")
        if not all("term" in facts for rv, facts, know in res):
            R.violation("term:%s" % short(b.name), where(b), "the child's environment may be without TERM")
        rets = origins(P, b, Place(0), max(b.reachable), Through(P))
        if not any(l[0] == "field" and l[2] == "system_env_vars" for l in rets):
            R.violation("base:%s" % short(b.name), where(b), "the child's environment does not start from the process-visible variables")
    R.floor("variable_lookups", 1, "look-ups of exported variables")
    # ---- (4) it is the environment of the shell, under the names the user gave, and what was removed is gone
    removing = P.can_reach(lambda b, i, t: t.op.fn is not None and bool(t.args) and t.op.fn.name.rsplit("::", 1)[-1] in ("remove", "remove_entry", "retain", "entry") and direct(b, t.args[0]) == "system_env_vars")
    for b in P.bodies.values():
        if b.promoted is not None:
            continue
        if b.name.endswith("::unset_env_var") and "ShellProxy" in b.name and b.name.startswith(("doge_shell::", "<doge_shell::")):
            R.count("removals")
            if b.id not in removing:
                R.violation("unset:%s" % short(b.name), where(b), "removing a variable does not take it out of the process-visible variables")
        for i, t in b.calls:
            f = t.op.fn
            if f is None:
                continue
            if any(x in builders for x in P.targets(b, t)) and t.args:
                for l in origins(P, b, t.args[0], i, Through(P)):
                    if l[0] == "call" and re.search(r"environment::(.*::)?Environment>?::(new|default)$|impl Environment>::new$", l[1]):
                        R.violation("fresh:%s" % short(l[2].name), where(l[2], l[3].line), "a command gets the environment of a new shell instead of this one's")
            if f.name.endswith("::insert") and "HashSet" in f.full and len(t.args) > 1 and direct(b, t.args[0]) == "exported_vars":
                R.count("exports")
                pol = Through(P)
                pol.through_params = False
                origins(P, b, t.args[1], i, pol)
                for ob, ot, on in pol.odd[:1]:
                    R.violation("exported-name:%s" % short(b.name), where(ob, ot.line), "a variable is exported under another name than its own (%s)" % on)
