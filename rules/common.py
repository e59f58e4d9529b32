"""Helpers shared by the rules."""
import re
from vpa.paths import Engine, Spec, State, E, C, RES, OPT, base_ty


def dest_ty(body, t):
    return body.locals[t.dest.l] if not t.dest.p else ""


def where(body, line=None):
    return "%s:%s (%s)" % (body.file, line if line is not None else body.line, short(body.name))


def short(n):
    n = re.sub(r"doge_shell::|dsh_builtin::|alloc::|core::", "", n)
    return n


def stack_str(stack, body, line):
    return " -> ".join("%s:%s" % (short(b.name), l) for b, l in stack + [(body, line)])


SPAWN = re.compile(r"^(std::process::Command::(spawn|output|status)|tokio::process::Command::(spawn|output|status)|nix::unistd::(fork|execve?|execvpe?|execv)|std::os::unix::process::CommandExt::exec|.*CommandExt>::exec|nix::unistd::_::.*fork|libc::.*::(fork|execve|execvp|system|posix_spawnp?))$")


def is_spawn(t):
    return t.op.fn is not None and bool(SPAWN.match(t.op.fn.full))


FS_MUTATE = re.compile(r"^(std::fs::(write|create_dir|create_dir_all|remove_file|remove_dir|remove_dir_all|rename|copy|hard_link|soft_link|set_permissions)|std::fs::File::(create|create_new|set_len)|std::fs::OpenOptions::open|std::os::unix::fs::symlink|tokio::fs::.*::(write|create_dir|create_dir_all|remove_file|remove_dir|remove_dir_all|rename|copy|symlink|set_permissions|create|create_new)|tokio::fs::open_options::OpenOptions::open)$")


def is_fs_mutate(t):
    return t.op.fn is not None and bool(FS_MUTATE.match(t.op.fn.full))


def reaching_bodies(P, pred):
    """(ids of bodies containing a call satisfying pred, ids of bodies that can reach one)"""
    return P.can_reach(pred)


def gate_kind(body, t):
    """Type-driven recognition of the consent gates."""
    ty = dest_ty(body, t)
    f = t.op.fn
    if f is None or f.name.startswith("core::") or f.name.startswith("alloc::") or f.name.startswith("<core") or f.name.startswith("std::") or f.name.startswith("tokio::") or f.name.startswith("<"):
        # only calls to the workspace's own functions (resolved or through its traits)
        if not (f is not None and (f.full.startswith("<doge_shell") or f.full.startswith("<dsh_"))):
            return None
    if re.search(r"safety::SafetyResult$", ty):
        return "verdict"
    if re.search(r"ConfirmationAction, anyhow::Error>( as .*)?|ConfirmationAction\b", ty) and not ty.startswith("&"):
        if re.search(r"JoinHandle|Poll<|ControlFlow", ty):
            return None
        return "confirm"
    if ty.startswith("core::result::Result<bool") and re.search(r"confirm", f.name):
        return "consent"
    return None


def approved(know):
    """is the knowledge on this path an approval?"""
    v = know.get(("verdict",))
    if v is not None and v == frozenset(["Allowed"]):
        return "verdict Allowed"
    for k, p in know.items():
        if k[0] == "confirm" and p <= frozenset(["Yes", "AlwaysAllow"]) and k[-1] in (0, "confirm"):
            return "user confirmed"
        if k[0] == "consent" and p == frozenset([True]):
            return "user consented"
    return None


class ConsentSpec(Spec):
    """Every sink must be reached only after an approving verdict or the user's consent; an approval
    is consumed by the sink it authorises."""
    consume = True

    def __init__(self, P, sink, gates=("verdict", "confirm", "consent"), skip=None):
        super().__init__(P)
        self.sink = sink
        self.gates = gates
        self.skip = skip
        self.sink_pred = lambda b, i, t: sink(b, i, t) and not (skip and skip(b, i, t))
        self.interesting = P.can_reach(self.sink_pred)
        self.sites = {}
        self.bad = {}

    def on_call(self, eng, st, body, bb, t, vals, stack):
        if self.skip and self.skip(body, bb, t):
            return [(None, st)]
        if self.sink(body, bb, t):
            a = approved(st.know)
            key = (body.id, t.op.fn.full, bb)
            self.sites.setdefault(key, set()).add(a)
            if a is None:
                self.bad.setdefault(key, (body, t, list(stack)))
            elif self.consume:
                st.know = {k: v for k, v in st.know.items() if k[0] not in ("verdict", "confirm", "consent")}
            return [(None, st)]
        g = gate_kind(body, t)
        if g in self.gates:
            tg = eng.P.targets(body, t)
            # a wrapper defined here that itself contains a gate of another kind is still the gate (its type says so)
            y = eng.sym(st, g)
            # asking again invalidates an older answer of the other gates
            return [(y, st)]
        return None


def climb(P, make_spec, containers, max_up=6, within=None):
    """Decide every sink: run the spec on the function holding it; where a sink is not guarded there, its
    callers must guard it.  Functions are visited bottom-up, and one found to guard everything it reaches is
    opaque for its callers.  Returns (violations [(body, term, stack)], stats, sites)"""
    stats = {"functions": set(), "states": 0, "calls": 0, "entries": 0}
    sites, viol = {}, []
    guarded = set()
    size = {}
    pred = make_spec().sink_pred
    sinkterms = {id(t) for b in P.bodies.values() for i, t in b.calls if pred(b, i, t)}

    def height(b):
        if b not in size:
            size[b] = len(P.reach_from([b], skip=lambda e: id(e[3]) in sinkterms))
        return size[b]
    pending = {c: (0, set()) for c in containers}      # body -> (depth, sink keys to resolve here)
    done = {}

    def run(bid):
        sp = make_spec()
        sp.interesting = P.can_reach(sp.sink_pred, stop=guarded | {bid})
        # helpers that ask for the consent themselves
        sp.interesting |= {g for g in P.can_reach(lambda b, i, t: gate_kind(b, t) in sp.gates, stop=guarded | {bid}) if height(g) <= 80}
        en = Engine(P, sp)
        b = P.bodies[bid]
        sp.results = en.run(bid, [None] * (b.argc if b.kind != "coroutine" else 0), State(), [])
        stats["functions"] |= en.stats["functions"]
        stats["states"] += en.stats["states"]
        stats["calls"] += en.stats["calls"]
        stats["entries"] += 1
        for k, v in sp.sites.items():
            sites.setdefault(k, set()).update(v)
        return sp
    specs = {}
    while pending:
        bid = min(pending, key=lambda x: (height(x), str(x)))
        depth, need = pending.pop(bid)
        try:
            sp = run(bid)
        except RuntimeError as e:
            if depth == 0 or "budget" not in str(e):
                raise
            # undecidable this far up: the sites stay unguarded
            viol += [v for k, v in need]
            done[bid] = True
            continue
        specs[bid] = sp
        bad = dict(sp.bad)
        for k, v in need:
            if k not in sp.sites and k not in bad:
                bad[k] = v
        done[bid] = True
        if not bad:
            guarded.add(bid)
            continue
        cs = sorted({c[0] for c in P.callers.get(bid, []) if c[0] != bid and c[1] in ("call", "closure", "fnref")}, key=str)
        cs = [c for c in cs if c not in done and (within is None or within(P.bodies[c]))]
        if not cs or depth >= max_up:
            viol += list(bad.values())
            continue
        for c in cs:
            d, n = pending.get(c, (depth + 1, set()))
            pending[c] = (min(d, depth + 1) if c not in containers else d, n | FrozenItems(bad))
    stats["specs"] = specs
    return viol, stats, sites


class FrozenItems(set):
    def __init__(self, d):
        super().__init__()
        for k, v in d.items():
            self.add(_KV((k, v)))


class _KV(tuple):
    """(key, witness) compared by key"""
    def __hash__(self):
        return hash(self[0])

    def __eq__(self, o):
        return self[0] == o[0]


# ---------------------------------------------------------------- value provenance helpers
from vpa.flow import Flow, Policy

TRANSPARENT = frozenset("box_assume_init_into_vec_unsafe clone to_owned to_string deref deref_mut as_str as_ref as_mut as_path as_bytes borrow into from into_iter iter must_use as_slice unwrap expect unwrap_or_default ok map_err branch from_residual as_deref cloned copied into_owned to_path_buf as_os_str into_string into_future new_unchecked poll get_context context with_context as_mut_str into_boxed_str new pin to_vec".split())


class WholePolicy(Policy):
    """follow a value only through conversions that keep all of it; anything else is an origin"""
    def __init__(self, P, stop_at_workspace=True):
        self.P = P
        self.saw = stop_at_workspace

    def call(self, b, bb, t):
        if t.op.fn is None:
            return "leaf"
        tg = [x for x in self.P.targets(b, t) if x in self.P.bodies]
        if tg:
            return "leaf" if self.saw else None
        sh = t.op.fn.name.rsplit("::", 1)[-1]
        if sh in TRANSPARENT:
            return "args"
        return "leaf"


def flow_of(P):
    F = getattr(P, "_flow", None)
    if F is None:
        F = P._flow = Flow(P)
    return F


def origins(P, body, op, bb, policy, idx=None):
    return flow_of(P).origins(body, op, bb, len(body.bbs[bb].stmts) if idx is None else idx, policy)


def leaf_str(x):
    if x[0] == "call":
        return "call " + short(x[1])
    if x[0] == "field":
        return "field %s.%s" % (short(x[1]), x[2])
    if x[0] == "param":
        return "param %d of %s" % (x[2], short(x[1].name))
    return " ".join(str(y) for y in x[:2])


class LocalWhole(WholePolicy):
    """whole-value provenance inside one function"""
    through_params = False


def const_strs(P, body, bb, op):
    """string constants an operand may be (through references and conversions, this function only)"""
    return sorted({x[1] for x in origins(P, body, op, bb, LocalWhole(P)) if x[0] == "const" and isinstance(x[1], str)})
