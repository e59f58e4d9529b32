"""Text never becomes Lisp source."""
from rules.common import *
from rules.C07 import Text, TEXTY

WHOLE = re.compile(r"^(std::fs::read_to_string$|clap_builder::derive::Parser::parse$)")
SPLICE = re.compile(r"fmt::format$|push_str$|::push$|String as core::ops::(arith|collect)::.*add|Add.*>::add|AddAssign.*add_assign|::concat$|::join$|::replace$|::replacen$|write_fmt$|write_str$|insert_str$|::extend$|::collect$|::repeat$|::trim\w*$|::to_lowercase$|::to_uppercase$|from_utf8_lossy$|::from_iter$")


class Source(WholePolicy):
    """the source as a whole, through parameters up to where it is made"""
    max_nodes = 6000

    def __init__(self, P):
        WholePolicy.__init__(self, P, False)


ELEM = frozenset("next index get first last remove iter pop nth as_ref swap_remove next_back".split())


class Element(LocalWhole):
    """the collection an element was taken from, inside one function"""
    max_nodes = 2000

    def cut(self, b, l, path):
        # an element of a field of one of the shell's own structures
        return any(e[0] == "f" and e[3] in self.P.adts and self.P.adts[e[3]]["ws"] and not self.P.adts[e[3]]["enum"] for e in path)

    def call(self, b, bb, t):
        if t.op.fn is not None and t.op.fn.name.rsplit("::", 1)[-1] in ELEM and not [x for x in self.P.targets(b, t) if x in self.P.bodies]:
            return [0]
        return LocalWhole.call(self, b, bb, t)


def handler(b):
    """a builtin handler working on its argument vector"""
    return b.kind == "fn" and any(re.search(r"Vec<alloc::string::String", l) for l in b.locals[1:b.argc + 1])


def parsers(P):
    """workspace functions turning a &str into Lisp values"""
    return [b for b in P.bodies.values() if b.kind == "fn" and b.promoted is None and b.name.startswith("doge_shell::lisp::")
            and b.argc >= 1 and re.match(r"&('[a-z_0-9]+ )?str$", b.locals[1]) and b.argc == 1 and re.search(r"FromFn<|Iterator|Vec<.*Value|Result<.*Value", b.locals[0])
            and any("ParseError" in l for x in P.reach_from([b.id]) for l in P.bodies[x].locals)]


def run(P, R, tier):
    R.explanation = ("Interprocedural provenance over MIR of every text handed to the Lisp parser: a program of the user as a whole (configuration file, command-line option, argument of the lisp command, a struct-pipe expression, a configured function name) "
                     "or a constant; a text assembled from pieces may contain only constants, numbers and the configuration file.")
    ps = {b.id for b in parsers(P)}
    R.count("parsers", len(ps))
    R.floor("parsers", 1, "Lisp parsers")
    F = flow_of(P)
    seen = set()
    for b in P.bodies.values():
        for i, t in b.calls:
            disp = bool(t.op.fn and t.op.fn.name.endswith("ShellProxy::dispatch") and len(t.args) > 3 and "lisp" in const_strs(P, b, i, t.args[2]))
            if not disp and not any(x in ps for x in P.targets(b, t)):
                continue
            R.count("dispatch_sites" if disp else "parse_sites")
            for x in F.origins(b, t.args[3 if disp else 0], i, len(b.bbs[i].stmts), Source(P)):
                R.count("sources")
                if x[0] in ("const", "named"):
                    R.sample("constant %r" % (str(x[1])[:60],))
                    continue
                if x[0] == "field":
                    R.sample("configured/expression field %s.%s" % (short(x[1]), x[2]))
                    continue
                if x[0] == "param":
                    fb = x[1]
                    if handler(fb) and re.search(r"Vec<", fb.locals[x[2]]):
                        R.sample("argument of %s" % short(fb.name))
                        continue
                    if not [c for c in P.callers.get(fb.id, []) if c[1] == "call"]:
                        continue     # nobody calls it
                    R.violation("whole:%s" % short(fb.name), where(fb), "evaluates a text it was given as Lisp source")
                    continue
                if x[0] in ("call", "mutcall"):
                    fb, ft = x[2], x[3]
                    if WHOLE.search(x[1]):
                        R.sample("whole program: %s" % short(x[1]))
                        continue
                    if dead(P, fb):
                        continue
                    bi = [k for k, q in fb.calls if q is ft][0]
                    if SPLICE.search(x[1]):
                        R.count("assembled_sources")
                        if (fb.id, bi) in seen:
                            continue
                        seen.add((fb.id, bi))
                        bad = []
                        for a in ft.args:
                            for y in F.origins(fb, a, bi, len(fb.bbs[bi].stmts), Pieces(P, set())):
                                if y[0] in ("const", "named", "variant", "closure", "fn", "static"):
                                    continue
                                if y[0] in ("call", "mutcall") and (WHOLE.search(y[1]) or not TEXTY.search(dest_ty(y[2], y[3]))):
                                    continue
                                if y[0] == "param" and dead(P, y[1]):
                                    continue
                                bad.append(y)
                        R.sample("assembled in %s:%s %s: %s" % (fb.file, ft.line, short(fb.name), "splices text" if bad else "constants only"))
                        if bad:
                            R.violation("spliced:%s" % short(fb.name), where(fb, ft.line), "splices text into Lisp source: %s" % ", ".join(sorted({leaf_str(y) for y in bad})[:3]))
                    elif x[1].rsplit("::", 1)[-1].rstrip(">") in ELEM and all(given(P, y) for y in F.origins(fb, ft.args[0], bi, len(fb.bbs[bi].stmts), Element(P))):
                        R.sample("element of a list of programs or arguments in %s" % short(fb.name))
                    else:
                        R.violation("whole:%s" % short(fb.name), where(fb, ft.line), "Lisp source comes from %s" % short(x[1]))
                    continue
                R.violation("whole:%s" % leaf_str(x), where(b, t.line), "Lisp source of unknown origin: %s" % leaf_str(x))
    R.floor("sources", 6, "Lisp sources")
    R.floor("parse_sites", 1, "parse sites")
    R.assumptions += ["struct-pipe expressions and the lisp command's argument are Lisp programs the user wrote"]


def given(P, y):
    """a field of the shell's own data, or the argument vector of a builtin handler"""
    return y[0] == "field" or (y[0] == "param" and handler(y[1]) and "Vec<" in y[1].locals[y[2]]) or (y[0] == "mutcall" and False) or y[0] == "const"


def dead(P, b):
    while b.kind == "closure":
        s = flow_of(P).closure_sites.get(b.id)
        if not s:
            return True
        b = s[0][0]
    return b.kind == "fn" and not P.callers.get(b.id)


class Pieces(Text):
    max_nodes = 3000
    through_params = False

    def call(self, b, bb, t):
        if t.op.fn is not None and WHOLE.search(t.op.fn.full):
            return "leaf"
        if t.op.fn is not None and t.op.fn.name.rsplit("::", 1)[-1] in ("context", "with_context", "map_err", "ok_or", "ok_or_else"):
            return [0]
        return Text.call(self, b, bb, t)
