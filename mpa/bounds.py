"""Array-bounds analysis of compiled (numba) loops.  An access summary is (index terms, extents, loop nest, path condition) over symbolic
sizes and parameters; the index is out of bounds if some integer assignment of sizes, parameters and loop counters that satisfies
the path condition puts it outside -extent..extent-1.  Assignments are enumerated over small integers: index terms are affine in the
loop counters with ceil/floor divisions by small constants, so a violation at some size shows at a small one."""
from __future__ import annotations
import itertools
from fractions import Fraction

from . import terms as tm
from .terms import T, is_const, cval


class Unk(Exception):
    pass


OPS = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}


class Compiler:
    def __init__(self):
        self.names = {}
        self.memo = {}

    def var(self, a):
        if a not in self.names:
            self.names[a] = "v%d" % len(self.names)
        return self.names[a]

    def c(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.c0(t)
        return r

    def c0(self, t):
        if not isinstance(t, T):
            raise Unk("not a term")
        op = t.op
        if op == "const":
            v = cval(t)
            if isinstance(v, bool):
                return str(int(v))
            if isinstance(v, int):
                return "(%d)" % v
            if isinstance(v, Fraction):
                return "F(%d,%d)" % (v.numerator, v.denominator)
            if isinstance(v, float) and v == int(v):
                return "(%d)" % int(v)
            raise Unk("constant %r" % (v,))
        if op == "atom":
            if t.args[1] not in ("i", "n", "p"):
                raise Unk("value %s is not an integer" % t.args[0])
            return self.var(t)
        if op == "poly":
            parts = []
            for m, k in tm.poly(t).items():
                fs = ["F(%d,%d)" % (k.numerator, k.denominator) if isinstance(k, Fraction) else "(%d)" % k if isinstance(k, int) else None]
                if fs[0] is None:
                    if float(k) != int(k):
                        raise Unk("coefficient")
                    fs = ["(%d)" % int(k)]
                for f, p in m:
                    if not isinstance(p, int):
                        raise Unk("power")
                    fs.append("F(%s)**(%d)" % (self.c(f), p) if p < 0 else "*".join([self.c(f)] * p))
                parts.append("*".join(fs))
            return "(" + "+".join(parts) + ")"
        if op == "cmp":
            return "(%s%s%s)" % (self.c(t.args[1]), OPS[t.args[0]], self.c(t.args[2]))
        if op == "not":
            return "(not %s)" % self.c(t.args[0])
        if op in ("and", "or"):
            return "(" + (" %s " % op).join(self.c(x) for x in t.args[0]) + ")"
        if op == "ite":
            return "((%s) if %s else (%s))" % (self.c(t.args[1]), self.c(t.args[0]), self.c(t.args[2]))
        if op == "fn":
            n, a = t.args
            if n in ("mod", "floordiv", "ceildiv"):
                x, y = self.c(a[0]), self.c(a[1])
                return {"mod": "(%s%%%s)", "floordiv": "(%s//%s)", "ceildiv": "(-((-%s)//%s))"}[n] % (x, y)
            if n in ("abs",):
                return "abs(%s)" % self.c(a[0])
            if n in ("int", "trunc"):
                return "int(%s)" % self.c(a[0])
            if n in ("float", "truth", "bool", "nat"):
                return self.c(a[0])
            if n in ("max", "min", "maximum", "minimum", "vmax", "vmin"):
                return "%s(%s)" % (n.replace("imum", "").replace("v", ""), ",".join(self.c(x) for x in a))
            if n == "where":
                return "((%s) if %s else (%s))" % (self.c(a[1]), self.c(a[0]), self.c(a[2]))
            if n == "round" and len(a) == 1:
                return "round(F(%s))" % self.c(a[0])
            if n in ("floor", "ceil"):
                return "math.%s(%s)" % (n, self.c(a[0]))
            if n == "sign":
                return "((%s>0)-(%s<0))" % (self.c(a[0]), self.c(a[0]))
            raise Unk(n)
        raise Unk(op)


def leaves(t):
    return {x for x in tm.atoms(t) if x.op == "atom"}


class Access:
    def __init__(self, e):
        self.e = e
        self.loops = list(e["loops"])
        self.pc = list(e["pc"])


def values(a, big, fixed):
    if a in fixed:
        return fixed[a]
    k, name = a.args[1], str(a.args[0])
    if k == "p":
        return range(1, big + 1) if name in ("H", "W", "h", "w") else range(1, 5)
    if k == "n":
        return range(0, big + 1)
    return sorted(range(-big - 2, big + 3), key=lambda v: (abs(v), v))


def search(e, big=9, fixed=None, budget=300000):
    """list of (dimension, assignment) witnesses (at most one per dimension), number of assignments tried; raises Unk"""
    fixed = fixed or {}
    shape = e["shape"]
    if shape.op != "tuple":
        raise Unk("extents not known")
    ext = shape.args[0]
    out, tried = [], 0
    loopk = [(l.k, l.n) for l in e["loops"] if l.kind == "for"]
    for d, i in enumerate(e["idx"]):
        if d >= len(ext):
            raise Unk("more indices than dimensions")
        if not isinstance(i, T) or i.op == "sl" or i is tm.NONE:
            continue
        if tm.is_boolish(i) or (tm.ndim(i) or 0) > 0:
            raise Unk("index array")
        w, n = dim(i, ext[d], loopk, list(e["pc"]), big, fixed, budget)
        tried += n
        if w is not None:
            out.append((d, w))
    return out, tried


def dim(i, n, loopk, pc, big, fixed, budget):
    C = Compiler()
    need = leaves(i) | leaves(n)
    # loop counters pull in the atoms of their extents
    ch = True
    ldict = dict(loopk)
    while ch:
        ch = False
        for k, ext in loopk:
            if k in need and not leaves(ext) <= need:
                need |= leaves(ext)
                ch = True
        for p in pc:
            if any(x.args[0].startswith("kx") for x in leaves(p)) and leaves(p) & need and not leaves(p) <= need and len(leaves(p)) <= 4:
                need |= leaves(p)
                ch = True
    conds = [p for p in pc if leaves(p) <= need]
    rest = [p for p in pc if not leaves(p) <= need]
    counters = [k for k, _ in loopk if k in need]
    kx = [a for a in need if a.args[0].startswith("kx") and a not in counters]
    params = [a for a in need if a not in counters and a not in kx]
    ci, cn = C.c(i), C.c(n)
    cc = []
    for p in conds:
        try:
            cc.append(C.c(p))
        except Unk:
            rest.append(p)
    cl = {k: C.c(ldict[k]) for k in counters}
    order = params + kx
    # nested loops with conditions applied as soon as their atoms are bound
    lines = ["def run(values, F, math, budget):", " tried = 0"]
    ind = 1
    done = set()
    pend = list(zip([leaves(p) for p in conds if p not in rest], cc))

    def flush():
        nonlocal pend
        keep = []
        for ls, code in pend:
            if ls <= done:
                lines.append(" " * ind + "if not %s: continue" % code)
            else:
                keep.append((ls, code))
        pend = keep
    for a in order:
        lines.append(" " * ind + "for %s in values[%r]:" % (C.var(a), a.args[0]))
        ind += 1
        done.add(a)
        lines.append(" " * ind + "tried += 1")
        lines.append(" " * ind + "if tried > budget: return None, tried")
        flush()
    for k, _ in loopk:
        if k in counters:
            lines.append(" " * ind + "for %s in range(int(%s)):" % (C.var(k), cl[k]))
            ind += 1
            done.add(k)
            flush()
    if pend:
        raise Unk("condition over unbound values")
    if not order and not counters:
        lines.append(" for _ in (0,):")
        ind = 2
    lines.append(" " * ind + "tried += 1")
    lines.append(" " * ind + "if tried > budget: return None, tried")
    lines.append(" " * ind + "ix = %s" % ci)
    lines.append(" " * ind + "ex = %s" % cn)
    lines.append(" " * ind + "if ex < 0: continue")
    lines.append(" " * ind + "if ix >= ex or ix < -ex:")
    lines.append(" " * ind + " w = {%s}" % ", ".join("%r: %s" % (str(a.args[0]), C.var(a)) for a in order + counters))
    lines.append(" " * ind + " if possible(w): return dict(w, index=ix, extent=ex), tried")
    lines.append(" return None, tried")
    env = {}
    memo = {}

    def possible(w):
        """the conditions over other values can hold together with this assignment"""
        for p in rest:
            key = (p,) + tuple(w.get(str(a.args[0])) for a in leaves(p))
            if key not in memo:
                memo[key] = sat(p, w)
            if memo[key] is None:
                raise Unk("candidate %s, but a condition could not be decided" % w)
            if not memo[key]:
                return False
        return True
    exec("\n".join(lines), {"possible": possible, "abs": abs, "int": int, "min": min, "max": max, "range": range, "dict": dict, "round": round}, env)
    import math
    vals = {a.args[0]: list(values(a, big, fixed)) for a in order}
    try:
        w, n_ = env["run"](vals, Fraction, math, budget)
    except (ZeroDivisionError, TypeError, ValueError, OverflowError) as x:
        raise Unk(repr(x))
    return w, n_


def sat(p, w):
    """some assignment of the other atoms makes p true (conditions over other dimensions)"""
    C = Compiler()
    try:
        code = C.c(p)
    except Unk:
        return None
    free = [a for a in leaves(p) if str(a.args[0]) not in w]
    if len(free) > 4:
        return None
    f = eval("lambda %s: %s" % (",".join(C.var(a) for a in leaves(p)) or "_=0", code), {"F": Fraction, "abs": abs, "int": int, "min": min, "max": max, "round": round})
    names = list(leaves(p))
    for combo in itertools.product(*[values(a, 6, {}) for a in free]):
        asg = dict(zip(free, combo))
        try:
            if f(*[asg[a] if a in asg else w[str(a.args[0])] for a in names]):
                return True
        except Exception:
            return None
    return False
