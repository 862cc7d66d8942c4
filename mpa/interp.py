"""Abstract interpreter: flow-sensitive dataflow over the syntax tree with a value-numbering domain.

One abstract state per program point.  States are joined at control-flow merges with gated values
(ite(condition, a, b)); loops are summarised (induction variables, accumulators, store relations,
otherwise opaque); repo calls are inlined with a depth bound; external calls go through models.
Nothing of the analysed package is imported or executed.
"""
from __future__ import annotations
import ast
import builtins
import math
import sys
from fractions import Fraction
from pathlib import PurePosixPath

from . import terms as tm
from .terms import (T, mk, const, atom, fresh, NONE, TRUE, FALSE, ZERO, ONE, UNDEF, is_const, cval, is_num, num,
                    is_int_const, is_str, add, sub, mul, neg, cmp, and_, or_, not_, ite, sel, store, ndim, sl, FULL)
from .repo import Repo, loc, enclosing, AnalysisBroken

sys.setrecursionlimit(20000)
UNROLL = 64
MAXDEPTH = 24


class NoReturn(Exception):
    """control does not continue normally from here"""


class Unsupported(Exception):
    pass


class Obj:
    __slots__ = ("kind", "cls", "origin", "f")

    def __init__(self, kind, cls, origin, f):
        self.kind, self.cls, self.origin, self.f = kind, cls, origin, f


class State:
    __slots__ = ("heap", "pc")

    def __init__(self, heap=None, pc=()):
        self.heap = heap if heap is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.heap), self.pc)

    def become(self, o):
        self.heap, self.pc = o.heap, o.pc

    def assume(self, c):
        if c is TRUE or c in self.pc:
            return
        if c.op == "and":
            for x in c.args[0]:
                self.assume(x)
        else:
            self.pc = self.pc + (c,)


class Func:
    __slots__ = ("node", "env", "module", "defaults", "kwdefaults", "name", "flags", "qual", "locals", "cls", "globals", "isgen")


class ClassInfo:
    def __init__(self, name, module, node, bases, env):
        self.name, self.module, self.node, self.bases, self.env = name, module, node, bases, env
        self.qual = module + "." + name
        self.dataclass = False


class Event(dict):
    __getattr__ = dict.get


class Loop:
    __slots__ = ("k", "n", "lo", "step", "var", "node", "kind")

    def __init__(self, k, n, lo, step, node, kind="for"):
        self.k, self.n, self.lo, self.step, self.node, self.kind = k, n, lo, step, node, kind


def tup(*xs):
    return mk("tuple", tuple(xs))


def ref(oid):
    return mk("ref", oid)


FLOAT = mk("ext", "builtins.float")
FLOATOPS = {"div", "sqrt", "sin", "cos", "tan", "arctan", "arctan2", "exp", "log", "hypot", "deg2rad", "rad2deg"}


def rounded(name, args):
    """constant folding in double precision (one rounding per operation), None when an argument is not a number"""
    v = [math.pi if a is tm.PI else cval(a) if is_num(a) else None for a in args]
    if any(x is None for x in v):
        return None
    v = [x if isinstance(x, int) else float(x) for x in v]
    try:
        r = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b, "neg": lambda a: -a,
             "square": lambda a: a * a, "sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "deg2rad": lambda a: a * (math.pi / 180),
             "pow": lambda a, b: a ** b, "hypot": math.hypot, "floordiv": lambda a, b: a // b, "mod": lambda a, b: a % b}[name](*v)
    except (KeyError, ValueError, ZeroDivisionError, OverflowError, TypeError):
        return None
    if isinstance(r, float):
        return const(Fraction(r)) if math.isfinite(r) else None
    return const(r) if isinstance(r, int) else None


class Interp:
    def __init__(self, repo: Repo):
        from . import models
        self.models = models
        self.repo = repo
        self.oid = 0
        self.events = []
        self.funcs = {}
        self.classes = {}
        self.sinks = []
        self.stack = []
        self.loops = ()
        self.ctx = {}
        self.kernel = 0
        self.notes = []
        self.modenv = {}
        self.steps = 0
        self.handlers = []
        self.called = set()
        self.loading = True
        st = State()
        self.builtin_names = set(dir(builtins))
        for name, m in repo.modules.items():
            self.modenv[name] = self.alloc(st, "env", None, "module", {"__name__": const(name)})
        self.base = st
        self.cur_module = None
        for name in sorted(repo.modules):
            self._load(st, name)
        self.loading = False
        self.base = st
        self.load_events = self.events
        self.events = []
        self.sinks = []

    # ------------------------------------------------------------ heap
    def alloc(self, st, kind, cls=None, origin="fresh", f=None):
        self.oid += 1
        st.heap[self.oid] = Obj(kind, cls, origin, f or {})
        return self.oid

    def obj(self, st, v):
        return st.heap[v.args[0]]

    def setf(self, st, oid, name, v):
        o = st.heap[oid]
        f = dict(o.f)
        f[name] = v
        st.heap[oid] = Obj(o.kind, o.cls, o.origin, f)

    def new_arr(self, st, val, shape=NONE, dtype=NONE, origin="fresh"):
        return ref(self.alloc(st, "arr", None, origin, {"val": val, "shape": shape, "dtype": dtype}))

    def new_list(self, st, items, origin="fresh"):
        return ref(self.alloc(st, "list", None, origin, {"items": mk("tuple", tuple(items)) if not isinstance(items, T) else items}))

    def new_dict(self, st, items, base=NONE, origin="fresh", kind="dict"):
        return ref(self.alloc(st, kind, None, origin, {"items": mk("dictt", tuple(items)), "base": base}))

    # ------------------------------------------------------------ events
    def event(self, _ev, node=None, st=None, **kw):
        e = Event(kind=_ev, node=node, loops=self.loops, pc=st.pc if st is not None else (), stack=tuple(self.stack),
                  handlers=tuple(self.handlers), seq=len(self.events), **kw)
        if node is not None:
            e["loc"] = loc(node)
            e["fn"] = enclosing(node)
        self.events.append(e)
        return e

    def raise_exc(self, st, excname, node, implicit=False, val=None):
        self.event("raise", node, st, exc=excname, implicit=implicit)
        if self.sinks:
            self.sinks[-1].append((st.copy(), excname, node))
        raise NoReturn()

    # ------------------------------------------------------------ conditions
    def decide(self, st, c):
        if c.op == "const":
            return c
        pc = st.pc
        if c in pc:
            return TRUE
        if not_(c) in pc:
            return FALSE
        if c.op == "and":
            return and_(*[self.decide(st, x) for x in c.args[0]])
        if c.op == "or":
            return or_(*[self.decide(st, x) for x in c.args[0]])
        if c.op == "not":
            return not_(self.decide(st, c.args[0])) if self.decide(st, c.args[0]).op == "const" else c
        if c.op == "ite":
            d = self.decide(st, c.args[0])
            if d is TRUE:
                return self.decide(st, c.args[1])
            if d is FALSE:
                return self.decide(st, c.args[2])
            return c
        if c.op == "cmp":
            return self.decide_cmp(st, c)
        return c

    def decide_cmp(self, st, c):
        op, a, b = c.args
        if op in ("lt", "le") and tm.is_numeric_like(a) and tm.is_numeric_like(b):
            d = sub(b, a)
            if pos_ge(d, 1 if op == "lt" else 0):
                return TRUE
            if pos_ge(neg(d), 0 if op == "lt" else 1):
                return FALSE
        if op in ("eq", "ne") and tm.is_numeric_like(a) and tm.is_numeric_like(b):
            d = sub(b, a)
            if pos_ge(d, 1) or pos_ge(neg(d), 1):
                return const(op == "ne")
        lo, hi = None, None
        for p in st.pc:
            if p.op != "cmp":
                continue
            po, pa, pb = p.args
            if po == "eq" and op in ("eq", "ne"):
                if pa is a and pb is not b and pb.op == "const" and b.op == "const":
                    return const(op == "ne")
                if pa is b and pb is not a and pb.op == "const" and a.op == "const":
                    return const(op == "ne")
        if is_num(b) or is_num(a):
            x, k, left = (a, num(b), True) if is_num(b) else (b, num(a), False)
            lo = hi = None
            for p in st.pc:
                if p.op != "cmp":
                    continue
                po, pa, pb = p.args
                if pa is x and is_num(pb):
                    v = num(pb)
                    if po in ("lt", "le", "eq"):
                        hi = min([z for z in (hi, (v, po == "lt")) if z is not None], key=lambda z: (z[0], not z[1]))
                    if po == "eq":
                        lo = (v, False)
                elif pb is x and is_num(pa):
                    v = num(pa)
                    if po in ("lt", "le", "eq"):
                        lo = max([z for z in (lo, (v, po == "lt")) if z is not None], key=lambda z: (z[0], z[1]))
                    if po == "eq":
                        hi = (v, False)
            # x < k, x <= k (left) ; k < x, k <= x
            if op in ("lt", "le"):
                if left:
                    if hi is not None and (hi[0] < k or (hi[0] == k and (op == "le" or hi[1]))):
                        return TRUE
                    if lo is not None and (lo[0] > k or (lo[0] == k and (op == "lt" or lo[1]))):
                        return FALSE
                else:
                    if lo is not None and (lo[0] > k or (lo[0] == k and (op == "le" or lo[1]))):
                        return TRUE
                    if hi is not None and (hi[0] < k or (hi[0] == k and (op == "lt" or hi[1]))):
                        return FALSE
            else:
                if (hi is not None and (hi[0] < k or (hi[0] == k and hi[1]))) or (
                        lo is not None and (lo[0] > k or (lo[0] == k and lo[1]))):
                    return const(op == "ne")
        return c

    def simp(self, st, v):
        """resolve gated values under the path condition"""
        n = 0
        while v.op == "ite" and n < 40:
            d = self.decide(st, v.args[0])
            if d is TRUE:
                v = v.args[1]
            elif d is FALSE:
                v = v.args[2]
            else:
                break
            n += 1
        return v

    def truth(self, st, v):
        v = self.simp(st, v)
        if v.op == "ite":
            return ite(v.args[0], self.truth(st, v.args[1]), self.truth(st, v.args[2]))
        if v.op == "const":
            x = cval(v)
            return const(bool(x)) if not isinstance(x, PurePosixPath) else TRUE
        if tm.is_boolish(v):
            return v
        if v.op == "tuple":
            return const(len(v.args[0]) > 0)
        if v.op == "ref":
            o = self.obj(st, v)
            if o.kind in ("list", "set"):
                it = o.f["items"]
                return self.len_truth(st, it)
            if o.kind == "dict":
                it = o.f["items"]
                if it.op == "dictt" and o.f.get("base", NONE) is NONE:
                    return const(len(it.args[0]) > 0)
                return mk("fn", "truth", (v,))
            if o.kind in ("arr", "view"):
                return mk("fn", "truth", (self.content(st, v),))
            if o.kind == "inst":
                return TRUE
            return TRUE
        if v.op in ("func", "bound", "class", "module", "ext", "extm", "range"):
            return TRUE
        if v.op == "poly" or (v.op == "atom" and v.args[1] in ("s", "i", "n", "p", "r")) or (v.op == "fn" and v.args[0] in tm.NUMERIC_FN and ndim(v) == 0):
            return cmp("ne", v, ZERO)
        if v.op == "fn" and v.args[0] in ("mod", "floordiv", "int"):
            return cmp("ne", v, ZERO)
        if v.op == "other" or (v.op == "fn" and v.args[0] in ("rematch", "regex")):
            return TRUE
        if v is UNDEF:
            return fresh("u", "x")
        return mk("fn", "truth", (v,))

    def len_truth(self, st, it):
        if it.op == "tuple":
            return const(len(it.args[0]) > 0)
        if it.op == "ite":
            return ite(it.args[0], self.len_truth(st, it.args[1]), self.len_truth(st, it.args[2]))
        return mk("fn", "truth", (it,))

    # ------------------------------------------------------------ merge
    def merge(self, a: State, b: State, c=None) -> State:
        """join two states reached under disjoint path conditions; c: condition selecting a"""
        n = 0
        for x, y in zip(a.pc, b.pc):
            if x is not y:
                break
            n += 1
        pa, pb = and_(*a.pc[n:]) if a.pc[n:] else TRUE, and_(*b.pc[n:]) if b.pc[n:] else TRUE
        if c is None:
            if pa is TRUE and pb is TRUE:
                c = fresh("join", "x")
                c = mk("fn", "truth", (c,))
            else:
                # choose the more compact discriminating condition
                c = pa if pa is not TRUE else not_(pb)
                if pb is not TRUE and pa.op == "and" and pb.op != "and":
                    c = not_(pb)
        st = State(None, a.pc[:n])
        r = or_(pa, pb)
        if r is not TRUE and not (r.op == "or" and len(r.args[0]) > 6):
            st.assume(r)
        if a.heap is b.heap:
            st.heap = a.heap
            return st
        heap = dict(a.heap)
        for oid, ob in b.heap.items():
            oa = a.heap.get(oid)
            if oa is None:
                heap[oid] = ob
            elif oa is not ob:
                f = {}
                for k in list(oa.f) + [k for k in ob.f if k not in oa.f]:
                    f[k] = self.merge_val(c, oa.f.get(k, UNDEF), ob.f.get(k, UNDEF))
                heap[oid] = Obj(oa.kind, oa.cls, oa.origin, f)
        st.heap = heap
        return st

    def merge_val(self, c, x, y):
        if x is y:
            return x
        if x.op == "tuple" and y.op == "tuple" and len(x.args[0]) == len(y.args[0]):
            return mk("tuple", tuple(self.merge_val(c, p, q) for p, q in zip(x.args[0], y.args[0])))
        if x.op == "dictt" and y.op == "dictt":
            kx = [k for k, _ in x.args[0]]
            ky = [k for k, _ in y.args[0]]
            if kx == ky:
                return mk("dictt", tuple((k, self.merge_val(c, p, q)) for (k, p), (_, q) in zip(x.args[0], y.args[0])))
            dx, dy = dict(x.args[0]), dict(y.args[0])
            keys = kx + [k for k in ky if k not in dx]
            return mk("dictt", tuple((k, self.merge_val(c, dx.get(k, UNDEF), dy.get(k, UNDEF))) for k in keys))
        return ite(c, x, y)

    def join(self, outs):
        """merge list of (state, value)"""
        if not outs:
            return None
        s, v = outs[0]
        for s2, v2 in outs[1:]:
            n = 0
            for x, y in zip(s.pc, s2.pc):
                if x is not y:
                    break
                n += 1
            pa = and_(*s.pc[n:]) if s.pc[n:] else TRUE
            pb = and_(*s2.pc[n:]) if s2.pc[n:] else TRUE
            if pa is TRUE and pb is TRUE:
                c = mk("fn", "truth", (fresh("join", "x"),))
            elif pa is TRUE:
                c = not_(pb)
            elif pa.op == "and" and pb is not TRUE and pb.op != "and":
                c = not_(pb)
            else:
                c = pa
            m = self.merge(s, s2, c)
            v = self.merge_val(c, v, v2) if v is not None and v2 is not None else (v if v is not None else v2)
            s = m
        return s, v

    def branch(self, st, c, ft, ff):
        c = self.decide(st, c)
        if c is TRUE:
            return ft(st)
        if c is FALSE:
            return ff(st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(not_(c))
        outs = []
        try:
            outs.append((s1, ft(s1)))
        except NoReturn:
            pass
        try:
            outs.append((s2, ff(s2)))
        except NoReturn:
            pass
        if not outs:
            raise NoReturn()
        s, v = outs[0] if len(outs) == 1 else (self.merge(outs[0][0], outs[1][0], c), self.merge_val(c, outs[0][1], outs[1][1]))
        st.become(s)
        return v

    def cases(self, st, v, fn):
        """apply fn(st, leaf) over gated alternatives of v"""
        v = self.simp(st, v)
        if v.op != "ite":
            return fn(st, v)
        return self.branch(st, v.args[0], lambda s: self.cases(s, v.args[1], fn), lambda s: self.cases(s, v.args[2], fn))

    # ------------------------------------------------------------ content of arrays
    def content(self, st, v, depth=0):
        """the value term of v with references to arrays/lists replaced by their content"""
        if v.op == "ref":
            o = self.obj(st, v)
            if o.kind == "arr":
                return o.f["val"]
            if o.kind == "view":
                return sel(self.content(st, o.f["base"], depth + 1), o.f["idx"].args[0])
            if o.kind in ("list", "set"):
                it = o.f["items"]
                if it.op == "tuple":
                    return mk("stack", tuple(self.content(st, x, depth + 1) for x in it.args[0]))
                if it.op == "lmap":
                    return it
                return it
            if o.kind in ("dict", "hdr"):
                it = o.f["items"]
                if it.op == "dictt":
                    return mk("dictc", tuple((k, self.content(st, x, depth + 1)) for k, x in it.args[0]), o.f.get("base", NONE))
                return it
            return v
        if v.op == "ite":
            return ite(v.args[0], self.content(st, v.args[1], depth + 1), self.content(st, v.args[2], depth + 1))
        if v.op == "tuple":
            return mk("stack", tuple(self.content(st, x, depth + 1) for x in v.args[0]))
        return v

    def is_arr(self, st, v):
        if v.op == "ref":
            return self.obj(st, v).kind in ("arr", "view")
        if v.op == "ite":
            return self.is_arr(st, v.args[1]) or self.is_arr(st, v.args[2])
        return False

    def shape(self, st, v):
        v = self.simp(st, v)
        if v.op == "ref":
            o = self.obj(st, v)
            if o.kind in ("arr", "view"):
                s = o.f["shape"]
                if s.op == "tuple":
                    return s
                nd = ndim(self.content(st, v))
                if nd is not None:
                    c = self.content(st, v)
                    if c.op == "stack" or nd == 0:          # a constant fills an array of any shape
                        return NONE
                    return mk("tuple", tuple(mk("fn", "dim", (c, const(i))) for i in range(nd)))
                return NONE
            if o.kind == "list":
                it = o.f["items"]
                if it.op == "tuple":
                    xs = it.args[0]
                    if not xs:
                        return tup(ZERO)
                    s0 = self.shape(st, xs[0])
                    if s0.op == "tuple":
                        return mk("tuple", (const(len(xs)),) + s0.args[0])
                    return NONE
                return NONE
            return NONE
        if v.op == "tuple":
            xs = v.args[0]
            if not xs:
                return tup(ZERO)
            s0 = self.shape(st, xs[0])
            if s0.op == "tuple":
                return mk("tuple", (const(len(xs)),) + s0.args[0])
            return NONE
        if v.op == "ite":
            a, b = self.shape(st, v.args[1]), self.shape(st, v.args[2])
            return a if a is b else NONE
        nd = ndim(v)
        if nd == 0 or v.op == "const":
            return tup()
        if nd is not None:
            return mk("tuple", tuple(mk("fn", "dim", (v, const(i))) for i in range(nd)))
        return NONE

    def dtype(self, st, v):
        if v.op == "ref":
            o = self.obj(st, v)
            if o.kind in ("arr", "view"):
                return o.f.get("dtype", NONE)
        return NONE

    def root(self, st, v):
        """base buffer oid of an array value"""
        while v.op == "ref":
            o = self.obj(st, v)
            if o.kind == "view":
                v = o.f["base"]
                continue
            return v.args[0]
        return None

    def write_content(self, st, v, new, node, full=True):
        """replace the content of array v (in place)"""
        o = self.obj(st, v)
        if o.kind == "view":
            b = o.f["base"]
            base = self.content(st, b)
            self.write_content(st, b, store(base, o.f["idx"].args[0], new, self.lead(st, b)), node)
            return
        self.event("mutate", node, st, oid=v.args[0], origin=o.origin)
        self.setf(st, v.args[0], "val", new)

    def lead(self, st, v):
        s = self.shape(st, v)
        if s.op != "tuple":
            return None
        return tuple(num(x) if is_int_const(x) and num(x) <= UNROLL else None for x in s.args[0])

    # ------------------------------------------------------------ modules
    def _load(self, st, name):
        m = self.repo.modules[name]
        self.cur_module = name
        env = self.modenv[name]
        self.sinks.append([])
        for s in m.tree.body:
            if isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and s.test.left.id == "__name__":
                continue
            try:
                self.exec_stmt(s, st, env)
            except NoReturn:
                pass
        self.sinks.pop()

    def resolve_module(self, name):
        return name if name in self.repo.modules else None

    def resolve_import(self, mod, name, st):
        """value of attribute `name` of repo module `mod` (lazily)"""
        sub_ = mod + "." + name
        env = st.heap[self.modenv[mod]]
        v = env.f.get(name)
        if v is not None:
            return v
        if sub_ in self.repo.modules:
            return mk("module", sub_)
        return mk("lazy", mod, name)

    def force(self, st, v, node=None):
        n = 0
        while v.op == "lazy" and n < 20:
            mod, name = v.args
            env = st.heap[self.modenv[mod]]
            nv = env.f.get(name)
            if nv is None:
                if mod + "." + name in self.repo.modules:
                    return mk("module", mod + "." + name)
                self.event("nameerror", node, st, name=mod + "." + name)
                return fresh("missing." + name, "x")
            v = nv
            n += 1
        return v

    # ------------------------------------------------------------ environments
    def lookup(self, st, name, env, node):
        e = env
        first = True
        while e is not None:
            o = st.heap[e]
            v = o.f.get(name)
            if v is not None:
                v = self.force(st, v, node)
                if v.op == "ite" or v is UNDEF:
                    v = self.simp(st, v)
                    v = self.strip_undef(st, v, name, node, e)
                return v
            if o.origin == "frame" and o.kind == "env":
                fn = self.frame_fn.get(e)
                if fn is not None and name in fn.locals and name not in fn.globals:
                    # declared local, never assigned on any path reaching here
                    self.event("unbound", node, st, name=name, definite=True, fnname=fn.qual)
                    self.raise_exc(st, "UnboundLocalError", node, implicit=True)
            e = o.cls
        if name in self.builtin_names:
            return mk("ext", "builtins." + name)
        if name == "__file__":
            return const("/repo/file.py")
        self.event("nameerror", node, st, name=name)
        self.raise_exc(st, "NameError", node, implicit=True)

    frame_fn = {}

    def strip_undef(self, st, v, name, node, env):
        if v is UNDEF:
            fn = self.frame_fn.get(env)
            self.event("unbound", node, st, name=name, definite=True, fnname=fn.qual if fn else "<module>")
            self.raise_exc(st, "UnboundLocalError", node, implicit=True)
        if v.op == "ite":
            conds = []

            def rec(x, cs):
                x0 = x
                if x is UNDEF:
                    conds.append(cs)
                    return None
                if x.op == "ite":
                    d = self.decide(st, x.args[0])
                    if d is TRUE:
                        return rec(x.args[1], cs)
                    if d is FALSE:
                        return rec(x.args[2], cs)
                    a = rec(x.args[1], cs + (x.args[0],))
                    b = rec(x.args[2], cs + (not_(x.args[0]),))
                    if a is None:
                        return b
                    if b is None:
                        return a
                    return self.merge_val(x.args[0], a, b)
                return x0
            r = rec(v, ())
            if conds:
                fn = self.frame_fn.get(env)
                self.event("unbound", node, st, name=name, definite=False, conds=conds, fnname=fn.qual if fn else "<module>")
                if self.sinks:
                    s2 = st.copy()
                    for c in conds[0]:
                        s2.assume(c)
                    self.event("raise", node, s2, exc="UnboundLocalError", implicit=True)
                    self.sinks[-1].append((s2, "UnboundLocalError", node))
                if len(conds) == 1:
                    st.assume(not_(and_(*conds[0])))
            if r is None:
                self.raise_exc(st, "UnboundLocalError", node, implicit=True)
            return r
        return v

    def assign_name(self, st, name, v, env):
        fn = self.frame_fn.get(env)
        if fn is not None and name in fn.globals:
            g = fn.globals[name]
            if g == "global":
                e = self.modenv[fn.module]
                self.event("globalwrite", None, st, name=fn.module + "." + name, value=v)
                self.setf(st, e, name, v)
                return
            e = st.heap[env].cls
            while e is not None:
                if name in st.heap[e].f or (self.frame_fn.get(e) is not None and name in self.frame_fn[e].locals):
                    self.setf(st, e, name, v)
                    return
                e = st.heap[e].cls
        self.setf(st, env, name, v)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, env):
        """returns dict kind -> list of (state, value); kinds: normal, return, break, continue"""
        outs = {}
        cur = st
        for s in stmts:
            try:
                o = self.exec_stmt(s, cur, env)
            except NoReturn:
                cur = None
                break
            if o is None:
                continue
            for k, lst in o.items():
                if k != "normal":
                    outs.setdefault(k, []).extend(lst)
            nn = o.get("normal")
            if not nn:
                cur = None
                break
            s2, _ = self.join(nn)
            cur = s2
        if cur is not None:
            outs.setdefault("normal", []).append((cur, None))
        return outs

    def exec_stmt(self, s, st, env):
        self.steps += 1
        if self.steps & 31 == 0:
            tm.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note("unsupported statement %s at %s" % (type(s).__name__, loc(s)))
            self.havoc_targets(s, st, env)
            return None
        try:
            return m(s, st, env)
        except Unsupported as e:
            self.note("unsupported %s at %s" % (e, loc(s)))
            self.havoc_targets(s, st, env)
            return None

    def note(self, msg):
        if len(self.notes) < 500 and msg not in self.notes:
            self.notes.append(msg)

    def havoc_targets(self, s, st, env):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.assign_name(st, n.id, fresh("havoc." + n.id, "x"), env)

    def s_Pass(self, s, st, env):
        return None

    def s_Expr(self, s, st, env):
        if isinstance(s.value, ast.Constant):
            return None
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.ev(s.value, st, env)
            return None
        self.ev(s.value, st, env)

    def s_Import(self, s, st, env):
        for a in s.names:
            root_ = a.name.split(".")[0]
            if root_ == self.repo.pkg:
                v = mk("module", a.name if a.asname else root_) if (a.name if a.asname else root_) in self.repo.modules else None
                if v is None:
                    self.event("nameerror", s, st, name=a.name)
                    continue
            else:
                v = mk("ext", a.name if a.asname else root_)
            self.assign_name(st, a.asname or root_, v, env)

    def s_ImportFrom(self, s, st, env):
        mod = s.module or ""
        if s.level:
            m = s._mod
            parts = m.name.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            mod = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            if a.name == "*":
                if mod in self.repo.modules:
                    for k, v in st.heap[self.modenv[mod]].f.items():
                        if not k.startswith("_"):
                            self.assign_name(st, k, v, env)
                continue
            if mod == self.repo.pkg or mod.startswith(self.repo.pkg + "."):
                if mod not in self.repo.modules:
                    self.event("nameerror", s, st, name=mod)
                    continue
                v = self.resolve_import(mod, a.name, st)
            else:
                v = mk("ext", mod + "." + a.name)
                v = self.models.ext_const(v.args[0]) or v
                self.event("extattr", s, st, name=mod + "." + a.name)
            self.assign_name(st, a.asname or a.name, v, env)

    def s_Global(self, s, st, env):
        return None

    s_Nonlocal = s_Global

    def s_FunctionDef(self, s, st, env):
        fv = self.make_func(s, st, env)
        v = fv
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, st, env, s)
        self.assign_name(st, s.name, v, env)

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, node, st, env, cls=None):
        f = Func()
        f.node = node
        f.env = env
        f.module = node._mod.name if hasattr(node, "_mod") else self.cur_module
        a = node.args
        pos = a.posonlyargs + a.args
        f.defaults = {}
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            f.defaults[p.arg] = self.mark_default(st, self.ev(d, st, env))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                f.defaults[p.arg] = self.mark_default(st, self.ev(d, st, env))
        f.name = getattr(node, "name", "<lambda>")
        f.flags = set()
        f.cls = cls
        f.qual = (enclosing(node) + "." if enclosing(node) != "<module>" else "") + f.name
        f.locals, f.globals, f.isgen = scan_locals(node)
        fid = "%s:%s#%d" % (f.module, f.qual, tm.uid())
        self.funcs[fid] = f
        return mk("func", fid)

    def mark_default(self, st, v):
        if v.op == "ref":
            o = self.obj(st, v)
            st.heap[v.args[0]] = Obj(o.kind, o.cls, "default", o.f)
        return v

    def decorate(self, d, v, st, env, s):
        try:
            dv = self.ev(d, st, env)
        except NoReturn:
            return v
        name = None
        if dv.op == "ext":
            name = dv.args[0]
        elif dv.op == "fn" and dv.args[0] == "decor":
            name = dv.args[1][0]
        if name is not None:
            last = name.split(".")[-1]
            if name.startswith("numba"):
                self.funcs[v.args[0]].flags.add("kernel")
                return v
            if last in ("lru_cache", "cache"):
                self.funcs[v.args[0]].flags.add("cached")
                return v
            if name == "builtins.property" or last == "cached_property":
                return mk("property", v, NONE)
            if name == "builtins.staticmethod":
                return mk("static", v)
            if name == "builtins.classmethod":
                return mk("clsm", v)
            if last in ("wraps", "contextmanager", "abstractmethod", "vectorize"):
                return v
            return v
        if dv.op == "extm" and dv.args[0].op == "property" and dv.args[1] in ("setter", "getter", "deleter"):
            p = dv.args[0]
            if dv.args[1] == "setter":
                return mk("property", p.args[0], v)
            return p
        return self.call(st, dv, [v], {}, d)

    def s_ClassDef(self, s, st, env):
        bases = [self.ev(b, st, env) for b in s.bases]
        cenv = self.alloc(st, "env", env, "classenv", {})
        ci = ClassInfo(s.name, s._mod.name, s, bases, cenv)
        self.classes[ci.qual] = ci
        cv = mk("class", ci.qual)
        for b in s.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fv = self.make_func(b, st, env, cls=ci.qual)
                v = fv
                for d in reversed(b.decorator_list):
                    v = self.decorate(d, v, st, cenv, b)
                self.setf(st, cenv, b.name, v)
            else:
                try:
                    self.exec_stmt(b, st, cenv)
                except NoReturn:
                    pass
        for d in s.decorator_list:
            t = ast.unparse(d)
            if "dataclass" in t:
                ci.dataclass = True
                ci.fields = [(x.target.id, x.value is not None) for x in s.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
        self.assign_name(st, s.name, cv, env)

    def s_Return(self, s, st, env):
        v = self.ev(s.value, st, env) if s.value is not None else NONE
        return {"return": [(st, v)]}

    def s_Break(self, s, st, env):
        return {"break": [(st, None)]}

    def s_Continue(self, s, st, env):
        return {"continue": [(st, None)]}

    def s_Assert(self, s, st, env):
        c = self.decide(st, self.truth(st, self.ev(s.test, st, env)))
        if c is TRUE:
            return
        s2 = st.copy()
        s2.assume(not_(c))
        self.event("raise", s, s2, exc="AssertionError")
        if self.sinks:
            self.sinks[-1].append((s2, "AssertionError", s))
        if c is FALSE:
            raise NoReturn()
        st.assume(c)

    def s_Delete(self, s, st, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setf(st, env, t.id, UNDEF)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, env)
                k = self.ev_index(t.slice, st, env)
                self.models.delitem(self, st, b, k, s)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st, env)
                if b.op == "ref":
                    self.setf(st, b.args[0], "." + t.attr, UNDEF)

    def s_Assign(self, s, st, env):
        v = self.ev(s.value, st, env)
        for t in s.targets:
            self.assign(t, v, st, env)

    def s_AnnAssign(self, s, st, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, env), st, env)

    def s_AugAssign(self, s, st, env):
        t = s.target
        op = BINOPS[type(s.op).__name__]
        if isinstance(t, ast.Name):
            cur = self.lookup(st, t.id, env, t)
            rhs = self.ev(s.value, st, env)
            nv = self.inplace(st, op, cur, rhs, s)
            self.assign_name(st, t.id, nv, env)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, env)
            cur = self.getattr(st, b, t.attr, t)
            rhs = self.ev(s.value, st, env)
            self.setattr(st, b, t.attr, self.inplace(st, op, cur, rhs, s), t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, env)
            i = self.ev_index(t.slice, st, env)
            cur = self.getitem(st, b, i, t)
            rhs = self.ev(s.value, st, env)
            if self.is_arr(st, b):
                nv = self.binop(st, op, cur, rhs, s)
                self.setitem(st, b, i, nv, t, aug=(op, rhs))
            else:
                nv = self.inplace(st, op, cur, rhs, s)
                self.setitem(st, b, i, nv, t)

    def inplace(self, st, op, cur, rhs, node):
        def leaf(st, cur):
            if cur.op == "ref":
                o = self.obj(st, cur)
                if o.kind in ("arr", "view"):
                    r = self.binop(st, op, cur, rhs, node)
                    if self.floats(st, [r]):
                        self.truncates(st, cur, self.content(st, r), node, "raises")
                    self.write_content(st, cur, self.content(st, r), node)
                    return cur
                if o.kind == "list" and op == "add":
                    self.models.method(self, st, cur, "extend", [rhs], {}, node)
                    return cur
                if o.kind == "inst":
                    m = {"add": "__iadd__", "sub": "__isub__", "mul": "__imul__", "div": "__itruediv__"}.get(op)
                    f = self.class_attr(st, o.cls, m) if m else None
                    if f is not None:
                        return self.call(st, f, [cur, rhs], {}, node)
            return self.binop(st, op, cur, rhs, node)
        return self.cases(st, cur, leaf)

    def assign(self, t, v, st, env):
        if isinstance(t, ast.Name):
            self.assign_name(st, t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(st, v, t)
            for x, y in zip(t.elts, vals):
                if isinstance(x, ast.Starred):
                    x = x.value
                self.assign(x, y, st, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(st, self.ev(t.value, st, env), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, env)
            i = self.ev_index(t.slice, st, env)
            self.setitem(st, b, i, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, env)
        else:
            raise Unsupported("assign target")

    def unpack(self, st, v, t):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        v = self.simp(st, v)
        it = self.iter_items(st, v)
        if it is not None:
            if star:
                k = star[0]
                tail = n - k - 1
                return it[:k] + [self.new_list(st, it[k:len(it) - tail])] + it[len(it) - tail:]
            if len(it) != n:
                self.event("arity", t, st, what="cannot unpack %d values into %d" % (len(it), n))
                self.raise_exc(st, "ValueError", t, implicit=True)
            return it
        if v is NONE:
            self.event("typeerror", t, st, what="cannot unpack None")
            self.raise_exc(st, "TypeError", t, implicit=True)
        if v.op == "ite":
            a, b = self.iter_items(st, v.args[1]), self.iter_items(st, v.args[2])
            if a is not None and b is not None and len(a) == len(b) == n:
                return [self.merge_val(v.args[0], x, y) for x, y in zip(a, b)]
            if v.args[2] is NONE or v.args[1] is NONE:
                return self.cases_list(st, v, t)
        return [self.getitem(st, v, const(i), t) for i in range(n)]

    def cases_list(self, st, v, t):
        r = self.cases(st, v, lambda s, x: mk("tuple", tuple(self.unpack(s, x, t))))
        return list(r.args[0]) if r.op == "tuple" else [self.getitem(st, r, const(i), t) for i in range(len(t.elts))]

    def s_If(self, s, st, env):
        c = self.decide(st, self.truth(st, self.ev(s.test, st, env)))
        if c is TRUE:
            return self.exec_block(s.body, st, env)
        if c is FALSE:
            return self.exec_block(s.orelse, st, env)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(not_(c))
        o1 = self.exec_block(s.body, s1, env)
        o2 = self.exec_block(s.orelse, s2, env)
        outs = {}
        for o in (o1, o2):
            for k, l in o.items():
                outs.setdefault(k, []).extend(l)
        n1, n2 = o1.get("normal"), o2.get("normal")
        if n1 and n2:
            outs["normal"] = [(self.merge(n1[0][0], n2[0][0], c if len(o1) == 1 and len(o2) == 1 else None), None)]
        return outs

    def s_With(self, s, st, env):
        opened = []
        for it in s.items:
            v = self.ev(it.context_expr, st, env)
            r = self.models.enter(self, st, v, it.context_expr)
            opened.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, st, env)
        outs = self.exec_block(s.body, st, env)
        for v in opened:
            for k, l in outs.items():
                for (s2, _) in l:
                    self.models.exit(self, s2, v, s)
        return outs

    s_AsyncWith = s_With

    def s_Raise(self, s, st, env):
        name = "Exception"
        if s.exc is None:
            name = "<reraise>"
        else:
            e = s.exc
            f = e.func if isinstance(e, ast.Call) else e
            fv = self.ev(f, st, env) if isinstance(f, (ast.Name, ast.Attribute)) else None
            if isinstance(e, ast.Call):
                for a in e.args:
                    if not isinstance(a, (ast.JoinedStr, ast.Constant)):
                        self.ev(a, st, env)
            if fv is not None and fv.op == "ext":
                name = fv.args[0].split(".")[-1]
            elif fv is not None and fv.op == "class":
                name = fv.args[0].split(".")[-1]
            elif isinstance(f, ast.Name):
                name = f.id
        self.raise_exc(st, name, s)

    def s_Try(self, s, st, env):
        pre = st.copy()
        self.sinks.append([])
        self.handlers.append(s)
        snaps = []
        outs = {}
        cur = st
        # the state an exception can be seen in: before the try, and after each completed statement
        n_ev0 = len(self.events)
        for b in s.body:
            snaps.append(cur.copy())
            try:
                o = self.exec_stmt(b, cur, env)
            except NoReturn:
                cur = None
                break
            if o is None:
                continue
            for k, l in o.items():
                if k != "normal":
                    outs.setdefault(k, []).extend(l)
            if not o.get("normal"):
                cur = None
                break
            cur = self.join(o["normal"])[0]
        self.handlers.pop()
        raised = self.sinks.pop()
        body_calls = any(isinstance(n, (ast.Call, ast.Subscript, ast.BinOp, ast.Attribute)) for b in s.body for n in ast.walk(b))
        definite = all(ev.kind != "mayraise" for ev in self.events[n_ev0:])
        entry = []
        if not self.ctx.get("exact") and not self.models.only_modelled(self, s.body):   # exact: the faults are chosen by the check
            for i, sn in enumerate(snaps):
                sn = sn.copy()
                sn.assume(mk("fn", "truth", (fresh("exc", "x"),)))
                entry.append((sn, None))
        if s.handlers:
            houts = []
            caught_all = False
            for h in s.handlers:
                names = handler_names(h)
                e = []
                for (rs, rn, node) in list(raised):
                    if exc_matches(rn, names):
                        raised.remove((rs, rn, node))
                        e.append((rs, None))
                ent = e + [(x.copy(), None) for x, _ in entry]
                if not ent:
                    continue
                hs, _ = self.join(ent)
                if h.name:
                    self.assign_name(hs, h.name, fresh("exc." + h.name, "x"), env)
                self.event("handler", h, hs, names=names)
                ho = self.exec_block(h.body, hs, env)
                houts.append(ho)
            for ho in houts:
                for k, l in ho.items():
                    if k == "normal":
                        outs.setdefault("hnormal", []).extend(l)
                    else:
                        outs.setdefault(k, []).extend(l)
        if cur is not None:
            eo = self.exec_block(s.orelse, cur, env) if s.orelse else {"normal": [(cur, None)]}
            for k, l in eo.items():
                outs.setdefault(k, []).extend(l)
        hn = outs.pop("hnormal", [])
        if hn:
            outs.setdefault("normal", []).extend(hn)
        if len(outs.get("normal", [])) > 1:
            outs["normal"] = [self.join(outs["normal"])]
        for r in raised:
            if self.sinks:
                if s.finalbody:
                    self.exec_block(s.finalbody, r[0], env)
                self.sinks[-1].append(r)
        if s.finalbody:
            res = {}
            for k, l in outs.items():
                for (s2, v) in l:
                    fo = self.exec_block(s.finalbody, s2, env)
                    for k2, l2 in fo.items():
                        for (s3, v3) in l2:
                            if k2 == "normal":
                                res.setdefault(k, []).append((s3, v))
                            else:
                                res.setdefault(k2, []).append((s3, v3))
            outs = res
        return outs

    s_TryStar = s_Try

    def s_Match(self, s, st, env):
        subj = self.ev(s.subject, st, env)
        # translate to an if-chain for value patterns
        def rec(cases, st):
            if not cases:
                return {"normal": [(st, None)]}
            c0 = cases[0]
            p = c0.pattern

            def cond(p, st):
                if isinstance(p, ast.MatchValue):
                    return self.compare(st, ast.Eq(), subj, self.ev(p.value, st, env), s)
                if isinstance(p, ast.MatchSingleton):
                    return self.compare(st, ast.Is(), subj, const(p.value), s)
                if isinstance(p, ast.MatchOr):
                    return or_(*[cond(q, st) for q in p.patterns])
                if isinstance(p, ast.MatchAs) and p.pattern is None:
                    if p.name:
                        self.assign_name(st, p.name, subj, env)
                    return TRUE
                raise Unsupported("match pattern")
            c = cond(p, st)
            if c0.guard is not None:
                c = and_(c, self.truth(st, self.ev(c0.guard, st, env)))
            c = self.decide(st, c)
            if c is TRUE:
                return self.exec_block(c0.body, st, env)
            if c is FALSE:
                return rec(cases[1:], st)
            s1, s2 = st.copy(), st.copy()
            s1.assume(c)
            s2.assume(not_(c))
            o1 = self.exec_block(c0.body, s1, env)
            o2 = rec(cases[1:], s2)
            outs = {}
            for o in (o1, o2):
                for k, l in o.items():
                    outs.setdefault(k, []).extend(l)
            if len(outs.get("normal", [])) > 1:
                outs["normal"] = [self.join(outs["normal"])]
            return outs
        return rec(s.cases, st)

    # ------------------------------------------------------------ loops
    def iter_items(self, st, v):
        """python list of the values an iterable of known length yields, or None"""
        v = self.simp(st, v)
        if v.op == "tuple":
            return list(v.args[0])
        if v.op == "const" and isinstance(cval(v), str) and len(cval(v)) <= 256:
            return [const(ch) for ch in cval(v)]
        if v.op == "const" and isinstance(cval(v), tuple) and len(cval(v)) <= 256:
            return [const(x) for x in cval(v)]
        if v.op == "range":
            lo, hi, step = v.args
            if is_int_const(lo) and is_int_const(hi) and is_int_const(step) and num(step) != 0:
                r = range(num(lo), num(hi), num(step))
                if len(r) <= UNROLL:
                    return [const(i) for i in r]
            return None
        if v.op == "ref":
            o = self.obj(st, v)
            if o.kind in ("list", "set"):
                it = o.f["items"]
                it = self.simp(st, it)
                return list(it.args[0]) if it.op == "tuple" else None
            if o.kind == "dict" and o.f["items"].op == "dictt" and o.f.get("base", NONE) is NONE:
                return [k for k, _ in o.f["items"].args[0]]
            if o.kind in ("arr", "view"):
                s = self.shape(st, v)
                if s.op == "tuple" and s.args[0] and is_int_const(s.args[0][0]) and num(s.args[0][0]) <= UNROLL:
                    return [self.getitem(st, v, const(i), None) for i in range(num(s.args[0][0]))]
                return None
            if o.kind == "inst":
                c = self.content(st, v)
                return None
            if o.kind == "iter":
                return self.iter_items(st, o.f["src"])
            return None
        if v.op == "enum":
            it = self.iter_items(st, v.args[0])
            return None if it is None else [tup(add(const(i), v.args[1]), x) for i, x in enumerate(it)]
        if v.op == "zip":
            its = [self.iter_items(st, x) for x in v.args[0]]
            if any(i is None for i in its):
                known = [len(i) for i in its if i is not None]
                if not known:
                    return None
                n = min(known)
                its = [i if i is not None else [self.getitem(st, x, const(k), None) for k in range(n)] for i, x in zip(its, v.args[0])]
            return [mk("tuple", t) for t in zip(*its)]
        if v.op == "stack":
            return list(v.args[0])
        if v.op == "rev":
            it = self.iter_items(st, v.args[0])
            return None if it is None else list(reversed(it))
        if v.op == "ite":
            a, b = self.iter_items(st, v.args[1]), self.iter_items(st, v.args[2])
            if a is not None and b is not None and len(a) == len(b):
                return [self.merge_val(v.args[0], x, y) for x, y in zip(a, b)]
        return None

    def sym_iter(self, st, v):
        """(count, fn(st,k)->value, lo, step) for iterables of symbolic length"""
        v = self.simp(st, v)
        if v.op == "range":
            lo, hi, step = v.args
            if step is ONE:
                n = sub(hi, lo)
            else:
                n = mk("fn", "ceildiv", (sub(hi, lo), step))
                q = tm.exact_div(sub(hi, lo), step)
                if q is not None:
                    n = q
            return n, (lambda st, k: add(lo, mul(step, k))), lo, step
        if v.op == "enum":
            n, f, lo, step = self.sym_iter(st, v.args[0])
            return n, (lambda st, k: tup(add(k, v.args[1]), f(st, k))), ZERO, ONE
        if v.op == "zip":
            subs = [self.sym_iter(st, x) for x in v.args[0]]
            return subs[0][0], (lambda st, k: mk("tuple", tuple(f(st, k) for _, f, _, _ in subs))), ZERO, ONE
        if v.op == "ref":
            o = self.obj(st, v)
            if o.kind in ("list", "set"):
                it = o.f["items"]
                if it.op == "lmap":
                    return it.args[2], (lambda st, k: tm.subst(it.args[0], {it.args[1]: k})), ZERO, ONE
                return mk("fn", "len", (it,)), (lambda st, k: sel(it, (k,)) if it.op != "atom" else mk("fn", "elem", (it, k))), ZERO, ONE
            if o.kind in ("arr", "view"):
                s = self.shape(st, v)
                n = s.args[0][0] if s.op == "tuple" and s.args[0] else mk("fn", "len", (self.content(st, v),))
                return n, (lambda st, k: self.getitem(st, v, k, None)), ZERO, ONE
            if o.kind == "iter":
                return self.sym_iter(st, o.f["src"])
        if v.op == "lmap":
            return v.args[2], (lambda st, k: tm.subst(v.args[0], {v.args[1]: k})), ZERO, ONE
        c = self.content(st, v)
        return mk("fn", "len", (c,)), (lambda st, k: mk("fn", "elem", (c, k))), ZERO, ONE

    def s_For(self, s, st, env):
        itv = self.ev(s.iter, st, env)
        itv = self.models.unwrap_iter(self, st, itv)
        items = self.iter_items(st, itv)
        if items is not None and len(items) <= 256:
            return self.for_const(s, items, st, env)
        n, f, lo, step = self.sym_iter(st, itv)
        k = atom("k%d" % tm.uid(), "n")

        def bind(s2, kk):
            self.assign(s.target, f(s2, kk), s2, env)
        return self.sym_loop(s, st, env, k, n, bind, None, lo, step)

    s_AsyncFor = s_For

    def for_const(self, s, items, st, env):
        outs = {}
        brk = []
        cur = st
        for x in items:
            try:
                self.assign(s.target, x, cur, env)
                o = self.exec_block(s.body, cur, env)
            except NoReturn:
                cur = None
                break
            for k, l in o.items():
                if k == "return":
                    outs.setdefault(k, []).extend(l)
                elif k == "break":
                    brk.extend(l)
            nxt = o.get("normal", []) + o.get("continue", [])
            if not nxt:
                cur = None
                break
            cur = self.join(nxt)[0]
        norm = []
        if cur is not None:
            eo = self.exec_block(s.orelse, cur, env) if s.orelse else {"normal": [(cur, None)]}
            for k, l in eo.items():
                if k == "normal":
                    norm.extend(l)
                else:
                    outs.setdefault(k, []).extend(l)
        norm.extend(brk)
        if norm:
            outs["normal"] = [self.join(norm)]
        return outs

    def s_While(self, s, st, env):
        # bounded unrolling when the condition folds to constants
        cur = st.copy()
        mark = len(self.events)
        outs = {}
        brk = []
        n = 0
        ok = False
        s_sinks = len(self.sinks[-1]) if self.sinks else 0
        while n < 70:
            try:
                c = self.decide(cur, self.truth(cur, self.ev(s.test, cur, env)))
            except NoReturn:
                ok = bool(n and (brk or outs))
                if not ok:
                    return {}
                cur = None
                break
            if c is FALSE:
                ok = True
                break
            if c is not TRUE:
                break
            o = self.exec_block(s.body, cur, env)
            outs.setdefault("return", []).extend(o.get("return", []))
            brk.extend(o.get("break", []))
            nx = o.get("normal", []) + o.get("continue", [])
            if not nx:
                ok = bool(brk or outs["return"])
                cur = None
                break
            cur = self.join(nx)[0]
            n += 1
        if ok:
            outs = {kk: l for kk, l in outs.items() if l}
            norm = []
            if cur is not None:
                eo = self.exec_block(s.orelse, cur, env) if s.orelse else {"normal": [(cur, None)]}
                for kk, l in eo.items():
                    if kk == "normal":
                        norm.extend(l)
                    else:
                        outs.setdefault(kk, []).extend(l)
            norm.extend(brk)
            if norm:
                outs["normal"] = [self.join(norm)]
            return outs
        del self.events[mark:]
        if self.sinks:
            del self.sinks[-1][s_sinks:]
        k = atom("w%d" % tm.uid(), "n")
        return self.sym_loop(s, st, env, k, None, None, s.test, ZERO, ONE)

    def sym_loop(self, s, st, env, k, n, bind, test, lo, step):
        """summarise a loop with a symbolic number of iterations"""
        mark = len(self.events)
        sink = self.sinks[-1] if self.sinks else []
        smark = len(sink)
        old_loops = self.loops
        L = Loop(k, n, lo, step, s, "while" if test is not None else "for")
        phis = {}   # (oid, field) -> phi term used
        ivs = {}    # (oid, field) -> increment term

        def run(phimap):
            del self.events[mark:]
            del sink[smark:]
            s2 = st.copy()
            for (oid, fld), v in phimap.items():
                self.setf(s2, oid, fld, v)
            self.loops = old_loops + (L,)
            try:
                c = None
                if test is not None:
                    c = self.truth(s2, self.ev(test, s2, env))
                    c = self.decide(s2, c)
                    if c is FALSE:
                        return None, {}, c, s2.copy()
                    pre = s2.copy()
                    s2.assume(c)
                else:
                    pre = s2.copy()
                    s2.assume(cmp("le", ZERO, k))
                    if n is not None:
                        s2.assume(cmp("lt", k, n))
                    bind(s2, k)
                o = self.exec_block(s.body, s2, env)
            except NoReturn:
                o = {}
                c = None
                pre = s2
            finally:
                self.loops = old_loops
            nx = o.get("normal", []) + o.get("continue", [])
            end = self.join(nx)[0] if nx else None
            return end, o, c, pre

        end, o, c, pre = run({})
        if end is None and not o:
            # never completes an iteration (always raises) or never entered
            if test is not None and c is FALSE:
                return {"normal": [(st, None)]}
            return {"normal": [(st, None)]}
        outs = {}
        init = {}
        vals = {}
        for round_ in range(6):
            changed = set()
            base = st.heap
            ends = [end] if end is not None else []
            for e in ends:
                for oid, ob in e.heap.items():
                    b = base.get(oid)
                    if b is None or b is ob:
                        continue
                    for fld, v in ob.f.items():
                        iv_ = b.f.get(fld, UNDEF)
                        cur = phis.get((oid, fld), iv_)
                        if v is not cur and v is not iv_ or (oid, fld) in phis:
                            changed.add((oid, fld))
            newphi = dict(phis)
            for key in changed:
                if key not in newphi:
                    oid, fld = key
                    iv0 = base[oid].f.get(fld, UNDEF)
                    init[key] = iv0
                    newphi[key] = self.make_phi(st, iv0, end.heap[oid].f.get(fld), fld)
            # induction variables
            redo = set(newphi) != set(phis)
            for key, p in list(newphi.items()):
                if key in ivs or key not in phis:
                    continue
                oid, fld = key
                v = end.heap[oid].f.get(fld, UNDEF) if end is not None else UNDEF
                i0 = init[key]
                if v is not UNDEF and tm.is_numeric_like(v) and tm.is_numeric_like(p) and tm.is_numeric_like(i0) and p.op == "atom":
                    d = sub(v, p)
                    phiset = set(x for x in newphi.values())
                    if not tm.contains(d, lambda t: t in phiset or t is k) and ndim(d) == 0 and d is not ZERO:
                        ivs[key] = d
                        newphi[key] = add(i0, mul(d, k))
                        redo = True
            phis = newphi
            if not redo:
                break
            end, o, c, pre = run(phis)
            if end is None:
                break
        # ---- exit state
        if end is None:
            # iteration always leaves the loop
            ex = st.copy()
        else:
            ex = st.copy()
            phiset = {p for key, p in phis.items() if key not in ivs}
            self.loop_env = []
            if test is None and not (set(o) & {"break", "return"}):
                for key, p in phis.items():
                    if key in ivs:
                        continue
                    v = end.heap[key[0]].f.get(key[1], UNDEF)
                    i0 = init[key]
                    if p.op == "ref" and v.op == "ref" and i0.op == "ref" and p.args[0] in end.heap and i0.args[0] in end.heap:
                        try:
                            self.loop_env.append((end.heap[p.args[0]].f.get("val"), self.content(end, i0), self.content(end, v),
                                                  self.shape(end, v)))
                        except Exception:
                            pass
                    elif p.op == "atom" and v is not UNDEF and i0 is not UNDEF and v.op != "ref" and i0.op != "ref":
                        ob = end.heap[key[0]]
                        self.loop_env.append((p, i0, v, ob.f.get("shape") if key[1] == "val" and ob.kind == "arr" else None))
            kx = atom("kx%d" % tm.uid(), "n") if test is not None else None
            for key, p in phis.items():
                oid, fld = key
                v = end.heap[oid].f.get(fld, UNDEF)
                if key in ivs:
                    cnt = n if n is not None else kx
                    self.setf(ex, oid, fld, add(init[key], mul(ivs[key], cnt)))
                    continue
                r = self.summary(ex, end, init[key], p, v, phiset, k, n if n is not None else kx, fld, test is not None)
                if fld == "val" and r.op in ("loopst", "iter") and ex.heap[oid].kind == "arr":
                    reg_shape(r, ex.heap[oid].f.get("shape"))
                self.setf(ex, oid, fld, r)
            # objects created by the loop body and reachable from the exit state
            for oid, ob in end.heap.items():
                if oid not in ex.heap:
                    ex.heap[oid] = ob
            if test is not None:
                mark2 = len(self.events)
                sm2 = len(sink)
                try:
                    ce = self.truth(ex, self.ev(test, ex, env))
                    ex.assume(not_(ce))
                    self.event("whileloop", s, st, cond=c, cond_exit=ce, ivs={("%s" % (f,)): (init[(oo, f)], d) for (oo, f), d in ivs.items()},
                               k=k, kx=kx, changed=[f for _, f in phis])
                except NoReturn:
                    pass
        outs = {}
        norm = []
        if test is None or c is not TRUE:
            if s.orelse:
                eo = self.exec_block(s.orelse, ex, env)
                for kk, l in eo.items():
                    if kk == "normal":
                        norm.extend(l)
                    else:
                        outs.setdefault(kk, []).extend(l)
            else:
                norm.append((ex, None))
        for kk, l in o.items():
            if kk == "break":
                bs, _ = self.join(l)
                bs = bs.copy()
                bs.pc = st.pc + (mk("fn", "truth", (fresh("brk", "x"),)),) + tuple(x for x in bs.pc[len(st.pc):])
                norm.append((bs, None))
            elif kk == "return":
                outs.setdefault(kk, []).extend(l)
        if norm:
            outs["normal"] = [self.join(norm)] if len(norm) > 1 else norm
        return outs

    def make_phi(self, st, iv, endv, fld):
        nm = "phi%d" % tm.uid()
        if iv is UNDEF:
            # a temporary first assigned inside the loop
            return UNDEF
        if fld == "items":
            return atom(nm, "seq", 1)
        if iv.op == "ref":
            o = self.obj(st, iv)
            if o.kind in ("arr", "view"):
                shp = self.shape(st, iv)
                nd0 = len(shp.args[0]) if shp.op == "tuple" else ndim(self.content(st, iv))
                r = self.new_arr(st, atom(nm, "a", nd0), self.shape(st, iv), self.dtype(st, iv), "loop")
                return r
            if o.kind == "list":
                return ref(self.alloc(st, "list", None, "loop", {"items": atom(nm, "seq", 1)}))
            return atom(nm, "x")
        if iv.op == "const":
            v = cval(iv)
            if isinstance(v, bool):
                return mk("fn", "truth", (atom(nm, "x"),))
            if isinstance(v, int):
                if endv is not None and tm.is_int_valued(endv):
                    return atom(nm, "i")
                return atom(nm, "s")
            if isinstance(v, Fraction):
                return atom(nm, "s")
            return atom(nm, "x")
        nd = ndim(iv)
        if tm.is_int_valued(iv):
            return atom(nm, "i")
        if nd == 0 and tm.is_numeric_like(iv):
            return atom(nm, "s")
        if tm.is_numeric_like(iv) or nd is not None:
            return atom(nm, "a", nd)
        return atom(nm, "x")

    def summary(self, ex, end, iv, p, v, phiset, k, n, fld, is_while):
        if v is p:
            return iv
        if iv is UNDEF:
            # temporary: value of the last iteration
            if v.op == "ref":
                return v
            return tm.subst(v, {k: sub(n, ONE)}) if not tm.contains(v, lambda t: t in phiset) else fresh("last", kind_of(v), ndim(v))
        free = lambda t: tm.contains(t, lambda z: z in phiset)
        if v.op == "ref":
            cv = self.content(end, v)
            cp = self.content(ex, p) if p.op == "ref" and p.args[0] in ex.heap else (
                end.heap[p.args[0]].f.get("val") if p.op == "ref" and p.args[0] in end.heap and end.heap[p.args[0]].kind == "arr" else None)
            if cp is None:
                return v
            ci = self.content(ex, iv)
            phis2 = set(phiset) | {cp}
            r = self.loop_value(ci, cp, cv, phis2, k, n)
            o = end.heap[v.args[0]]
            if o.kind in ("arr", "view"):
                if r.op in ("loopst", "iter"):
                    reg_shape(r, self.shape(end, v))
                return self.new_arr(ex, r, self.shape(end, v), self.dtype(end, v), "fresh")
            return v
        if v.op == "cat" and v.args[0][0] is p and len(v.args[0]) == 2 and fld == "items":
            x = v.args[0][1]
            if x.op == "tuple" and len(x.args[0]) == 1 and not free(x):
                e = x.args[0][0]
                if e.op == "ref":
                    e = self.content(end, e)
                if iv.op == "tuple" and not iv.args[0]:
                    kb = bvar(e)
                    return mk("lmap", bound(e, k, kb), kb, n)
        return self.loop_value(iv, p, v, phiset, k, n)

    def loop_value(self, iv, p, v, phiset, k, n):
        has_phi = lambda t: tm.contains(t, lambda z: z in phiset)
        if v is p:
            return iv
        if not has_phi(v) and not tm.contains(v, lambda z: z is k) and False:
            return v
        if tm.is_numeric_like(v) and tm.is_numeric_like(p):
            d = sub(v, p)
            if not has_phi(d):
                if not tm.contains(d, lambda z: z is k):
                    return add(iv, mul(d, n))
                kb = bvar(d)
                return add(iv, mk("fn", "lsum", (bound(d, k, kb), kb, n)))
        # stores
        recs = []
        x = v
        while x.op == "store":
            recs.append((x.args[1], x.args[2]))
            x = x.args[0]
        if x is p and recs and not any(has_phi(a) for idx, val in recs for a in idx):
            out = []
            for idx, val in reversed(recs):
                mode = "set"
                if has_phi(val):
                    val = sub(val, sel(p, idx)) if tm.is_numeric_like(val) else val
                    mode = "acc"
                    if has_phi(val):
                        out = None
                        break
                out.append((idx, val, mode))
            if out:
                kb = bvar(*[a for idx, val, _ in out for a in idx + (val,)])
                return mk("loopst", iv, tuple((mk("tuple", tuple(bound(i, k, kb) for i in idx)), bound(val, k, kb), const(mode)) for idx, val, mode in out),
                          ((kb, n),))
        if v.op == "loopst" and v.args[0] is p and not any(has_phi(r) for rec in v.args[1] for r in rec) and not any(
                has_phi(m) or tm.contains(m, lambda z: z is k) for _, m in v.args[2]):
            kb = bvar(*[r for rec in v.args[1] for r in rec])
            return mk("loopst", iv, tuple((bound(i, k, kb), bound(val, k, kb), mode) for i, val, mode in v.args[1]), ((kb, n),) + v.args[2])
        it = self.iteration(p, v, phiset, k, n)
        if it is not None:
            return it
        m = {k: bvar(v)}
        for i, z in enumerate(sorted(phiset, key=lambda z: z.id)):
            if z.op == "atom":
                m[z] = atom("phib%d" % i, z.args[1], z.args[2])
        return mk("loop", tm.subst(v, m), iv, n)

    def iteration(self, p, v, phiset, k, n):
        """exact functional recurrence over the variables the value depends on"""
        env = {q: (i0, e, s) for q, i0, e, s in getattr(self, "loop_env", ()) if q is not None}
        need, todo = [], [p]
        while todo:
            q = todo.pop()
            if q in need:
                continue
            if q not in env:
                return None
            need.append(q)
            todo.extend(z for z in tm.atoms(env[q][1]) if (z in phiset or z in env) and z not in need)
        if n is None or any(tm.contains(env[q][1], lambda z: z.op == "loop" or z.op == "ref") for q in need):
            return None
        if any(tm.contains(env[q][1], lambda z: z in phiset and z not in env) for q in need):
            return None
        if env[p][1] is not v:
            return None
        kb = bvar(*[env[q][1] for q in need])
        m = {k: kb}
        pbs = []
        for i, q in enumerate(need):
            pbs.append(atom("pb%s_%d" % (kb.args[0][2:], i), q.args[1], q.args[2]))
            m[q] = pbs[-1]
        for q in need:
            if env[q][2] is not None and ndim(env[q][0]) == 0 and ndim(q) not in (0, None):
                reg_shape(env[q][0], env[q][2])
        return mk("iter", const(0), tuple(tm.subst(env[q][1], m) for q in need), tuple(pbs), kb, tuple(env[q][0] for q in need), n)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(type(e).__name__)
        return m(e, st, env)

    def e_Constant(self, e, st, env):
        return const(e.value) if not isinstance(e.value, complex) else fresh("complex", "s")

    def e_Name(self, e, st, env):
        return self.lookup(st, e.id, env, e)

    def e_NamedExpr(self, e, st, env):
        v = self.ev(e.value, st, env)
        self.assign_name(st, e.target.id, v, env)
        return v

    def e_Tuple(self, e, st, env):
        return mk("tuple", tuple(self.elts(e.elts, st, env)))

    def e_List(self, e, st, env):
        return self.new_list(st, self.elts(e.elts, st, env))

    def e_Set(self, e, st, env):
        return ref(self.alloc(st, "set", None, "fresh", {"items": mk("tuple", tuple(dict.fromkeys(self.elts(e.elts, st, env))))}))

    def elts(self, es, st, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, env)
                it = self.iter_items(st, v)
                if it is None:
                    s = self.content(st, v)
                    raise Unsupported("starred of unknown length")
                out.extend(it)
            else:
                out.append(self.ev(x, st, env))
        return out

    def e_Dict(self, e, st, env):
        items = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, st, env)
                if d.op == "ref" and self.obj(st, d).kind == "dict" and self.obj(st, d).f["items"].op == "dictt":
                    for kk, vv in self.obj(st, d).f["items"].args[0]:
                        items[kk] = vv
                    continue
                return fresh("dict", "x")
            kv = self.ev(k, st, env)
            items[kv] = self.ev(v, st, env)
        return self.new_dict(st, items.items())

    def e_JoinedStr(self, e, st, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(str(v.value)))
            else:
                parts.append(self.e_FormattedValue(v, st, env))
        return strcat(*parts)

    def e_FormattedValue(self, e, st, env):
        x = self.simp(st, self.ev(e.value, st, env))
        spec = self.ev(e.format_spec, st, env) if e.format_spec is not None else const("")
        if x.op == "const" and is_const(spec):
            pv = cval(x)
            try:
                if isinstance(pv, Fraction):
                    pv = float(pv)
                s = {114: repr, 115: str, 97: ascii}.get(e.conversion, lambda z: z)(pv)
                return const(format(s, cval(spec)))
            except Exception:
                pass
        return mk("fn", "str", (self.content(st, x), spec)) if not (spec.op == "const" and cval(spec) == "") else to_str(self.content(st, x))

    def e_UnaryOp(self, e, st, env):
        v = self.ev(e.operand, st, env)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(st, v))
        if isinstance(e.op, ast.USub):
            return self.elementwise(st, "neg", [v], e)
        if isinstance(e.op, ast.Invert):
            c = self.content(st, v)
            if tm.is_boolish(c):
                return self.elementwise(st, "not", [v], e)
            return self.elementwise(st, "invert", [v], e)
        return v

    def e_BinOp(self, e, st, env):
        a = self.ev(e.left, st, env)
        b = self.ev(e.right, st, env)
        return self.binop(st, BINOPS[type(e.op).__name__], a, b, e)

    def e_BoolOp(self, e, st, env):
        isand = isinstance(e.op, ast.And)

        def rec(i, st):
            v = self.ev(e.values[i], st, env)
            if i == len(e.values) - 1:
                return v
            c = self.truth(st, v)
            if tm.is_boolish(v) and pure_expr(e.values[i + 1:]):
                d = self.decide(st, c)
                if d is (FALSE if isand else TRUE):
                    return v if d is v or v.op == "const" else d
                if d is (TRUE if isand else FALSE):
                    return rec(i + 1, st)
                s2 = st.copy()
                s2.assume(c if isand else not_(c))
                m = len(self.events)
                try:
                    w = rec(i + 1, s2)
                except NoReturn:
                    return v
                if s2.heap == st.heap:
                    pass
                if tm.is_boolish(w):
                    return and_(c, w) if isand else or_(c, w)
                st2 = s2.copy()
                st2.pc = st.pc
                return ite(c, w, v) if isand else ite(c, v, w)
            if isand:
                return self.branch(st, c, lambda s: rec(i + 1, s), lambda s: v)
            return self.branch(st, c, lambda s: v, lambda s: rec(i + 1, s))
        return rec(0, st)

    def e_Compare(self, e, st, env):
        left = self.ev(e.left, st, env)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, env)
            res.append(self.compare(st, op, left, right, e))
            left = right
        if len(res) == 1:
            return res[0]
        return and_(*[self.truth(st, r) for r in res])

    def compare(self, st, op, a, b, node):
        a, b = self.simp(st, a), self.simp(st, b)
        o = type(op).__name__
        if o in ("Is", "IsNot"):
            r = self.identity(st, a, b)
            return not_(r) if o == "IsNot" else r
        if o in ("In", "NotIn"):
            r = self.models.contains(self, st, b, a, node)
            return not_(r) if o == "NotIn" else r
        name = {"Eq": "eq", "NotEq": "ne", "Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge"}[o]
        if self.is_arr(st, a) or self.is_arr(st, b):
            return self.elementwise(st, name, [a, b], node)
        if name in ("eq", "ne"):
            r = self.equals(st, a, b)
            if r is not None:
                return not_(r) if name == "ne" else r
        ca, cb = self.content(st, a), self.content(st, b)
        if ca.op == "ite" or cb.op == "ite":
            return tm.apply_cases(ca, lambda x: tm.apply_cases(cb, lambda y: cmp(name, x, y)))
        if ca.op == "const" and cb.op == "const" and not (is_num(ca) and is_num(cb)):
            import operator
            try:
                return const(bool(getattr(operator, name)(cval(ca), cval(cb))))
            except TypeError:
                pass
        return cmp(name, ca, cb)

    def equals(self, st, a, b):
        """structural equality of python values: term or None when left to cmp()"""
        if a.op == "ite":
            x, y = self.equals(st, a.args[1], b), self.equals(st, a.args[2], b)
            if x is None or y is None:
                return None
            return ite(a.args[0], x, y)
        if b.op == "ite":
            return self.equals(st, b, a)

        def items(v):
            if v.op == "tuple":
                return "tuple", list(v.args[0])
            if v.op == "ref" and self.obj(st, v).kind == "list":
                it = self.simp(st, self.obj(st, v).f["items"])
                if it.op == "tuple":
                    return "list", list(it.args[0])
            return None
        ia, ib = items(a), items(b)
        if ia and ib:
            if ia[0] != ib[0] or len(ia[1]) != len(ib[1]):
                return FALSE
            rs = []
            for x, y in zip(ia[1], ib[1]):
                r = self.equals(st, x, y)
                rs.append(r if r is not None else cmp("eq", x, y))
            return and_(*rs)
        if (ia and b.op == "const") or (ib and a.op == "const"):
            return FALSE
        if a.op in ("class", "ext", "func", "module") and b.op in ("class", "ext", "func", "module"):
            return const(a is b)
        if a.op == "ref" and b.op == "ref" and self.obj(st, a).kind == "inst":
            f = self.class_attr(st, self.obj(st, a).cls, "__eq__")
            if f is None:
                return const(a is b)
        if (a is NONE) != (b is NONE):
            r = self.identity(st, a, b)
            return r
        return None

    def identity(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == "ite":
                return ite(x.args[0], self.identity(st, x.args[1], y), self.identity(st, x.args[2], y))
        if a is b:
            return TRUE if a.op != "atom" or True else FALSE
        if a.op in ("ref", "class", "func", "ext", "module", "bound", "tuple", "range", "stack", "inter") or \
                b.op in ("ref", "class", "func", "ext", "module", "bound", "tuple", "range", "stack", "inter"):
            if (a.op == "atom" and a.args[1] == "x") or (b.op == "atom" and b.args[1] == "x") or "fn" in (a.op, b.op):
                if a is NONE or b is NONE:
                    return FALSE
                return mk("fn", "truth", (mk("fn", "is", tuple(sorted((a, b), key=lambda t: t.id))),))
            return FALSE
        if a.op == "const" and b.op == "const":
            return const(cval(a) == cval(b) and type(cval(a)) is type(cval(b)))
        other = b if a is NONE else (a if b is NONE else None)
        if other is not None:
            if tm.is_numeric_like(other) or other.op in ("other", "fn") and other.args[0] in ("str", "cat", "truth", "path", "rematch", "regex"):
                return FALSE
            if other.op == "atom" and other.args[1] in ("str", "seq", "a"):
                return FALSE
            if tm.is_boolish(other):
                return FALSE
        return cmp("eq", a, b)

    def e_IfExp(self, e, st, env):
        c = self.truth(st, self.ev(e.test, st, env))
        return self.branch(st, c, lambda s: self.ev(e.body, s, env), lambda s: self.ev(e.orelse, s, env))

    def e_Lambda(self, e, st, env):
        return self.make_func(e, st, env)

    def e_Attribute(self, e, st, env):
        b = self.ev(e.value, st, env)
        return self.getattr(st, b, e.attr, e)

    def e_Subscript(self, e, st, env):
        b = self.ev(e.value, st, env)
        i = self.ev_index(e.slice, st, env)
        return self.getitem(st, b, i, e)

    def ev_index(self, sx, st, env):
        if isinstance(sx, ast.Tuple):
            xs = []
            for x in sx.elts:
                if isinstance(x, ast.Starred):
                    it = self.iter_items(st, self.ev(x.value, st, env))
                    if it is None:
                        raise Unsupported("starred index")
                    xs.extend(it)
                else:
                    xs.append(self.ev_index(x, st, env))
            return mk("tuple", tuple(xs))
        if isinstance(sx, ast.Slice):
            g = lambda x: self.ev(x, st, env) if x is not None else NONE
            return sl(g(sx.lower), g(sx.upper), g(sx.step))
        return self.ev(sx, st, env)

    def e_Slice(self, e, st, env):
        return self.ev_index(e, st, env)

    def e_Starred(self, e, st, env):
        raise Unsupported("starred")

    def e_Await(self, e, st, env):
        return self.ev(e.value, st, env)

    def e_Yield(self, e, st, env):
        v = self.ev(e.value, st, env) if e.value is not None else NONE
        g = st.heap[env].f.get("#yield")
        if g is not None:
            it = self.obj(st, g).f["items"]
            self.setf(st, g.args[0], "items", mk("tuple", it.args[0] + (v,)) if it.op == "tuple" else mk("cat", (it, tup(v))))
        return NONE

    def e_YieldFrom(self, e, st, env):
        raise Unsupported("yield from")

    # comprehensions
    def e_ListComp(self, e, st, env):
        r = self.comp(e.generators, lambda s, en: self.ev(e.elt, s, en), st, env, e)
        return self.new_list(st, r)

    def e_GeneratorExp(self, e, st, env):
        return self.e_ListComp(e, st, env)

    def e_SetComp(self, e, st, env):
        r = self.comp(e.generators, lambda s, en: self.ev(e.elt, s, en), st, env, e)
        if isinstance(r, list):
            r = list(dict.fromkeys(r))
        return ref(self.alloc(st, "set", None, "fresh", {"items": mk("tuple", tuple(r)) if isinstance(r, list) else r}))

    def e_DictComp(self, e, st, env):
        r = self.comp(e.generators, lambda s, en: tup(self.ev(e.key, s, en), self.ev(e.value, s, en)), st, env, e)
        if isinstance(r, list):
            d = {}
            for t in r:
                d[t.args[0][0]] = t.args[0][1]
            return self.new_dict(st, d.items())
        return self.new_dict(st, (), base=mk("fn", "dictcomp", (r,)))

    def comp(self, gens, leaf, st, env, node):
        cenv = self.alloc(st, "env", env, "comp", {})

        def rec(i, st):
            """list of values or a symbolic sequence term"""
            if i == len(gens):
                return [leaf(st, cenv)]
            g = gens[i]
            itv = self.models.unwrap_iter(self, st, self.ev(g.iter, st, cenv if i else env))
            items = self.iter_items(st, itv)
            if items is not None:
                out = []
                for x in items:
                    self.assign(g.target, x, st, cenv)
                    cs = [self.decide(st, self.truth(st, self.ev(c, st, cenv))) for c in g.ifs]
                    c = and_(*cs)
                    if c is FALSE:
                        continue
                    if c is not TRUE:
                        # membership unknown: opaque sequence
                        s2 = st.copy()
                        s2.assume(c)
                        r = rec(i + 1, s2)
                        out.append(mk("fn", "maybe", (c,) + tuple(r if isinstance(r, list) else [r])))
                        continue
                    r = rec(i + 1, st)
                    if not isinstance(r, list):
                        return mk("fn", "seqcat", (r,))
                    out.extend(r)
                if any(x.op == "fn" and x.args[0] == "maybe" for x in out):
                    return mk("fn", "filtered", tuple(out))
                return out
            n, f, lo, step = self.sym_iter(st, itv)
            k = atom("k%d" % tm.uid(), "n")
            L = Loop(k, n, lo, step, node, "comp")
            old = self.loops
            self.loops = old + (L,)
            s2 = st.copy()
            s2.assume(cmp("le", ZERO, k))
            s2.assume(cmp("lt", k, n))
            try:
                self.assign(g.target, f(s2, k), s2, cenv)
                cs = [self.truth(s2, self.ev(c, s2, cenv)) for c in g.ifs]
                r = rec(i + 1, s2)
                if isinstance(r, list) and len(r) == 1 and not g.ifs:
                    x = self.content(s2, r[0]) if r[0].op == "ref" else r[0]
                    if x.op == "ref":
                        for oid in s2.heap:
                            if oid not in st.heap:
                                st.heap[oid] = s2.heap[oid]
                    kb = bvar(x)
                    return mk("lmap", bound(x, k, kb), kb, n)
                return mk("fn", "comp", (fresh("comp", "x"),))
            finally:
                self.loops = old
                # effects of the generic iteration on pre-existing objects
                for oid, ob in s2.heap.items():
                    b = st.heap.get(oid)
                    if b is None:
                        st.heap[oid] = ob
                    elif b is not ob and oid != cenv:
                        st.heap[oid] = Obj(ob.kind, ob.cls, ob.origin, {
                            kf: (v if b.f.get(kf) is v else (fresh("lc", kind_of(v), ndim(v)) if v.op != "ref" else v))
                            for kf, v in ob.f.items()})
        return rec(0, st)

    # ------------------------------------------------------------ operators
    def elementwise(self, st, name, args, node, out=None, where=None, dtype=NONE):
        args = [self.simp(st, a) for a in args]
        conts = self.align(st, args, [self.content(st, a) for a in args])
        arrs = [a for a in args if self.is_arr(st, a) or (a.op == "ref" and self.obj(st, a).kind == "list")]
        if self.ctx.get("ieee") and not arrs and out is None:
            r = rounded(name, conts)
            if r is not None:
                return r
        if any(c.op == "ite" for c in conts) and sum(c.op == "ite" for c in conts) <= 2:
            def rec(i, acc):
                if i == len(conts):
                    return tm.ew(name, *acc)
                return tm.apply_cases(conts[i], lambda x: rec(i + 1, acc + [x]))
            r = rec(0, [])
        else:
            r = tm.ew(name, *conts)
        if not arrs and out is None:
            return r
        shape = NONE
        for a in args:
            s = self.shape(st, a)
            if s.op == "tuple":
                shape = s if shape is NONE else self.bshape(st, shape, s, node)
            elif a in arrs:
                shape = NONE
                break
        if shape is NONE:
            for a in args:
                s = self.shape(st, a)
        if name in ("add", "sub", "mul") and dtype is NONE and arrs:
            ds = [self.narrow(st, a) if a in arrs else ("int" if is_int_const(a) else None) for a in args]
            if all(ds):
                if not (is_int_const(r) and -128 <= num(r) < 128):        # a constant fill in range does not wrap
                    self.event("narrow", node, st, op=name, dtype=[d for d in ds if d != "int"][0])
                dtype = const([d for d in ds if d != "int"][0])
                if cval(dtype) in ("uint8", "u1", "B") and not is_num(r) and tm.contains(r, lambda z: z.op == "fn" and z.args[0] in ("rawdata", "bytestream")):
                    r = mk("fn", "astype", (r, dtype))          # bytes of a file
        if dtype is NONE and arrs and (name in FLOATOPS or (name in ("add", "sub", "mul", "pow", "max", "min", "neg", "abs", "square") and self.floats(st, args))):
            dtype = FLOAT
        if where is not None:
            w = self.content(st, where)
            base = self.content(st, out) if out is not None else mk("fn", "uninit", (const("%s@%s" % (name, loc(node) if node is not None else "?")),))
            if w is TRUE:
                pass
            else:
                r = tm.ew("where", w, r, base)
        if out is not None:
            if dtype is FLOAT:
                self.truncates(st, out, r, node, "raises")
            self.write_content(st, out, r, node)
            return out
        return self.new_arr(st, r, shape, dtype)

    def truncates(self, st, arr, value, node, how):
        """a floating point value written to an integer array"""
        from . import npmodel
        d = self.dtype(st, arr)
        if npmodel.dkind(d) == "i" and not tm.is_int_valued(value):
            self.event("truncate", node, st, dtype=npmodel.dname(d), how=how)

    def align(self, st, args, conts):
        """explicit lists of different rank are aligned at the last axis, as broadcasting does"""
        if sum(c.op == "stack" for c in conts) < 2:
            return conts
        shs = [self.shape(st, a) for a in args]
        top = max((s for s in shs if s.op == "tuple"), key=lambda s: len(s.args[0]), default=None)
        if top is None:
            return conts
        out = []
        for c, s in zip(conts, shs):
            if c.op == "stack" and s.op == "tuple" and len(s.args[0]) < len(top.args[0]):
                for d in reversed(top.args[0][:len(top.args[0]) - len(s.args[0])]):
                    if not is_int_const(d) or not 0 < num(d) <= 64:
                        return conts
                    c = mk("stack", (c,) * num(d))
            out.append(c)
        return out

    def floats(self, st, args):
        """a floating point operand makes the result floating point"""
        from . import npmodel
        return any((self.is_arr(st, a) and npmodel.dkind(self.dtype(st, a)) == "f") or (a.op == "const" and isinstance(cval(a), Fraction)) for a in args)

    def narrow(self, st, v):
        """name of the 8/16-bit integer type of an array, or None"""
        if v.op != "ref":
            return None
        o = self.obj(st, v)
        if o.kind == "view":
            return self.narrow(st, o.f["base"])
        d = o.f.get("dtype", NONE) if o.kind == "arr" else NONE
        if d is NONE or not isinstance(d, T):
            return None
        from . import npmodel
        n = npmodel.dname(d).lstrip("<>=|")
        return n if n in ("uint16", "int16", "uint8", "int8", "u2", "i2", "u1", "i1", "B", "b") else None

    def bshape(self, st, a, b, node):
        if a is b:
            return a
        x, y = list(a.args[0]), list(b.args[0])
        if len(x) < len(y):
            x, y = y, x
        off = len(x) - len(y)
        for i, d in enumerate(y):
            e = x[off + i]
            if e is d:
                continue
            if e is ONE:
                x[off + i] = d
            elif d is ONE:
                pass
            else:
                df = sub(e, d)
                if (is_num(df) and num(df) != 0) or pos_ge(df, 1) or pos_ge(neg(df), 1):
                    # certain broadcast failure unless one of them is 1
                    self.event("broadcast", node, st, a=a, b=b)
                    if is_int_const(e) and is_int_const(d):
                        self.raise_exc(st, "ValueError", node, implicit=True)
        return mk("tuple", tuple(x))

    def binop(self, st, op, a, b, node):
        a, b = self.simp(st, a), self.simp(st, b)
        for x, y, left in ((a, b, True), (b, a, False)):
            if x.op == "ref" and self.obj(st, x).kind == "inst":
                dn = DUNDER.get(op)
                if dn:
                    f = self.class_attr(st, self.obj(st, x).cls, ("__%s__" if left else "__r%s__") % dn)
                    if f is not None:
                        return self.call(st, self.bind(f, x), [y], {}, node)
                break_ = self.models.inst_binop(self, st, op, a, b, node)
                if break_ is not None:
                    return break_
        if a.op == "ite" and any_ref(a):
            return self.cases(st, a, lambda s, v: self.binop(s, op, v, b, node))
        if b.op == "ite" and any_ref(b):
            return self.cases(st, b, lambda s, v: self.binop(s, op, a, v, node))
        for x, y in ((a, b), (b, a)):
            if x.op == "ref" and self.obj(st, x).kind in ("arr", "view") and (
                    y is NONE or y.op == "other" or (y.op == "const" and isinstance(cval(y), str))) and not (y is a and op == "mod") and op not in ("eq", "ne"):
                self.raise_exc(st, "TypeError", node)
        if op == "add":
            # sequences / strings
            ia = self.seq_items(st, a)
            ib = self.seq_items(st, b)
            if ia is not None and ib is not None:
                r = list(ia) + list(ib) if isinstance(ia, (list, tuple)) and isinstance(ib, (list, tuple)) else mk("cat", (ia if isinstance(ia, T) else mk("tuple", tuple(ia)), ib if isinstance(ib, T) else mk("tuple", tuple(ib))))
                if a.op == "tuple":
                    return mk("tuple", tuple(r)) if not isinstance(r, T) else r
                return self.new_list(st, r)
            if is_stringish(a) or is_stringish(b):
                return strcat(a, b)
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                ix = self.seq_items(st, x)
                if ix is not None and isinstance(ix, (list, tuple)) and is_int_const(y):
                    r = list(ix) * num(y)
                    return mk("tuple", tuple(r)) if x.op == "tuple" else self.new_list(st, r)
                if ix is not None and isinstance(ix, (list, tuple)) and not self.is_arr(st, y) and len(ix) == 1:
                    e = ix[0]
                    return self.new_list(st, mk("lmap", e, bvar(e), self.content(st, y)))
                if ix is not None and isinstance(ix, T):
                    return self.new_list(st, fresh("seqmul", "seq", 1))
            if is_str(a) and is_int_const(b):
                return const(cval(a) * num(b))
        if op == "mod" and is_stringish(a):
            return mk("fn", "str", (a, self.content(st, b)))
        if op == "div" and (self.models.is_pathlike(a) or self.models.is_pathlike(b)):
            return self.models.path_join(a, b)
        if op == "sub" and a.op == "ref" and b.op == "ref" and self.obj(st, a).kind == "set" and self.obj(st, b).kind == "set":
            ia, ib = self.iter_items(st, a), self.iter_items(st, b)
            if ia is not None and ib is not None and all(is_const(x) for x in ia + ib):
                return ref(self.alloc(st, "set", None, "fresh", {"items": mk("tuple", tuple(x for x in ia if x not in ib))}))
            return ref(self.alloc(st, "set", None, "fresh", {"items": fresh("setdiff", "seq", 1)}))
        if op == "matmul":
            return self.models.np_matmul(self, st, [a, b], {}, node)
        if op in ("bitand", "bitor", "bitxor"):
            ca, cb = self.content(st, a), self.content(st, b)
            if tm.is_boolnest(ca) and tm.is_boolnest(cb):
                return self.elementwise(st, "and" if op == "bitand" else "or", [a, b], node) if op != "bitxor" else self.elementwise(st, "ne", [a, b], node)
            if not self.is_arr(st, a) and not self.is_arr(st, b) or True:
                r = self.models.bitop(op, ca, cb)
                if r is not None:
                    if self.is_arr(st, a) or self.is_arr(st, b):
                        ds = [self.narrow(st, x) if self.is_arr(st, x) else "int" if is_int_const(x) else None for x in (a, b)]
                        d = [x for x in ds if x != "int"]
                        return self.new_arr(st, r, self.shape(st, a if self.is_arr(st, a) else b), const(d[0]) if None not in ds and len(set(d)) == 1 else NONE)
                    return r
        if op in ("lshift", "rshift"):
            r = self.models.bitop(op, self.content(st, a), self.content(st, b))
            if self.is_arr(st, a) or self.is_arr(st, b):
                d = self.narrow(st, a)
                if d is not None and (is_int_const(b) or self.narrow(st, b) == d):
                    if op == "lshift":
                        r = mk("fn", "astype", (r, const(d)))
                    return self.new_arr(st, r, self.shape(st, a), const(d))
                return self.new_arr(st, r, self.shape(st, a if self.is_arr(st, a) else b))
            return r
        if op in ("div", "mod", "floordiv") and is_num(b) and num(b) == 0 and is_num(a):
            self.raise_exc(st, "ZeroDivisionError", node, implicit=True)
        if op == "floordiv" or op == "mod":
            cb = self.models.bitop_div(op, self.content(st, a), self.content(st, b))
            if cb is not None and not self.is_arr(st, a):
                return cb
        return self.elementwise(st, op, [a, b], node)

    def seq_items(self, st, v):
        if v.op == "tuple":
            return v.args[0]
        if v.op == "ref" and self.obj(st, v).kind == "list":
            it = self.simp(st, self.obj(st, v).f["items"])
            return it.args[0] if it.op == "tuple" else it
        return None

    # ------------------------------------------------------------ attributes
    def mro(self, qual):
        out = [qual]
        ci = self.classes.get(qual)
        if ci is None:
            return out
        for b in ci.bases:
            b = self.force(self.base, b)
            if b.op == "class":
                for q in self.mro(b.args[0]):
                    if q not in out:
                        out.append(q)
            elif b.op == "ext":
                out.append(b.args[0])
        return out

    def class_attr(self, st, qual, name, skip=None):
        seen_skip = skip is None
        for q in self.mro(qual):
            if not seen_skip:
                if q == skip:
                    seen_skip = True
                continue
            ci = self.classes.get(q)
            if ci is None:
                continue
            v = st.heap[ci.env].f.get(name)
            if v is not None:
                return v
        return None

    def bind(self, f, selfv):
        if f.op == "func":
            return mk("bound", selfv, f)
        if f.op == "static":
            return f.args[0]
        if f.op == "clsm":
            return mk("bound", selfv, f.args[0])
        return f

    def has_ext_base(self, qual):
        return any(q not in self.classes for q in self.mro(qual))

    def getattr(self, st, b, name, node, quiet=False):
        b = self.force(st, b, node)
        b = self.simp(st, b)
        if b.op == "ite":
            return self.cases(st, b, lambda s, v: self.getattr(s, v, name, node, quiet))
        if b.op == "ref":
            o = self.obj(st, b)
            if o.kind == "inst":
                if o.cls in self.classes:
                    p = self.class_attr(st, o.cls, name)
                    if p is not None and p.op == "property":
                        return self.call(st, p.args[0], [b], {}, node)
                    v = o.f.get("." + name)
                    if v is not None:
                        v = self.simp(st, v)
                        if v is UNDEF or (v.op == "ite" and has_undef(v)):
                            return self.undef_attr(st, b, name, v, node)
                        return v
                    if p is not None:
                        return self.bind(p, b)
                    if name == "__class__":
                        return mk("class", o.cls)
                    if name == "__dict__":
                        return self.new_dict(st, [(const(k[1:]), v) for k, v in o.f.items() if k.startswith(".")])
                    ga = self.class_attr(st, o.cls, "__getattr__")
                    if ga is not None:
                        return self.call(st, ga, [b, const(name)], {}, node)
                    if self.has_ext_base(o.cls):
                        return mk("extm", b, name)
                    self.event("attrerror", node, st, name=name, cls=o.cls)
                    self.raise_exc(st, "AttributeError", node, implicit=True)
                v = o.f.get("." + name)
                if v is not None:
                    return v
                return self.models.ext_inst_attr(self, st, b, name, node)
            return self.models.obj_attr(self, st, b, name, node)
        if b.op == "module":
            mod = b.args[0]
            v = st.heap[self.modenv[mod]].f.get(name)
            if v is not None:
                return self.force(st, v, node)
            if mod + "." + name in self.repo.modules:
                return mk("module", mod + "." + name)
            if name in ("__name__",):
                return const(mod)
            self.event("nameerror", node, st, name=mod + "." + name)
            self.raise_exc(st, "AttributeError", node, implicit=True)
        if b.op == "ext":
            self.event("extattr", node, st, name=b.args[0] + "." + name)
            c = self.models.ext_const(b.args[0] + "." + name)
            return c if c is not None else mk("ext", b.args[0] + "." + name)
        if b.op == "class":
            v = self.class_attr(st, b.args[0], name)
            if v is not None:
                return v.args[0] if v.op == "static" else (mk("bound", b, v.args[0]) if v.op == "clsm" else v)
            if name == "__name__":
                return const(b.args[0].split(".")[-1])
            if self.has_ext_base(b.args[0]):
                return mk("extm", b, name)
            self.event("attrerror", node, st, name=name, cls=b.args[0])
            self.raise_exc(st, "AttributeError", node, implicit=True)
        if b.op == "super":
            cls, sv = b.args
            o = self.obj(st, sv) if sv.op == "ref" else None
            q = o.cls if o is not None else cls
            v = self.class_attr(st, q, name, skip=cls)
            if v is None:
                return mk("ext", "builtins.object." + name)
            if v.op == "property":
                return self.call(st, v.args[0], [sv], {}, node)
            return self.bind(v, sv)
        if b.op == "func":
            if name == "py_func":
                return b
            if name == "__name__":
                return const(self.funcs[b.args[0]].name)
            return mk("extm", b, name)
        if b is NONE:
            self.event("attrerror", node, st, name=name, cls="NoneType")
            self.raise_exc(st, "AttributeError", node, implicit=True)
        return self.models.term_attr(self, st, b, name, node)

    def undef_attr(self, st, b, name, v, node):
        if v is UNDEF:
            p = self.class_attr(st, self.obj(st, b).cls, name)
            if p is not None:
                return self.bind(p, b)
            self.event("attrerror", node, st, name=name, cls=self.obj(st, b).cls)
            self.raise_exc(st, "AttributeError", node, implicit=True)
        return self.branch(st, v.args[0], lambda s: self.undef_attr(s, b, name, self.simp(s, v.args[1]), node) if has_undef(v.args[1]) else v.args[1],
                           lambda s: self.undef_attr(s, b, name, self.simp(s, v.args[2]), node) if has_undef(v.args[2]) else v.args[2])

    def setattr(self, st, b, name, v, node):
        b = self.simp(st, b)
        if b.op == "ite":
            self.cases(st, b, lambda s, x: (self.setattr(s, x, name, v, node), NONE)[1])
            return
        if b.op == "ref":
            o = self.obj(st, b)
            if o.kind == "inst":
                if o.cls in self.classes:
                    p = self.class_attr(st, o.cls, name)
                    if p is not None and p.op == "property":
                        if p.args[1] is NONE:
                            self.event("attrerror", node, st, name=name + " (no setter)", cls=o.cls)
                            self.raise_exc(st, "AttributeError", node, implicit=True)
                        self.call(st, p.args[1], [b, v], {}, node)
                        return
                self.event("setattr", node, st, oid=b.args[0], name=name, origin=o.origin, value=v)
                self.setf(st, b.args[0], "." + name, v)
                return
            if o.kind in ("arr", "view") and name in ("shape", "dtype"):
                self.setf(st, b.args[0], name, v)
                return
            self.setf(st, b.args[0], "." + name, v)
            return
        if b.op == "class":
            ci = self.classes[b.args[0]]
            self.event("globalwrite", node, st, name=b.args[0] + "." + name, value=v)
            self.setf(st, ci.env, name, v)
            return
        if b.op == "module":
            self.event("globalwrite", node, st, name=b.args[0] + "." + name, value=v)
            self.setf(st, self.modenv[b.args[0]], name, v)
            return

    # ------------------------------------------------------------ subscripts
    def getitem(self, st, b, i, node):
        b, i = self.simp(st, b), self.simp(st, i)
        if b.op == "ite":
            return self.cases(st, b, lambda s, v: self.getitem(s, v, i, node))
        if i.op == "ite" and not self.is_arr(st, b):
            return self.cases(st, i, lambda s, v: self.getitem(s, b, v, node))
        return self.models.getitem(self, st, b, i, node)

    def setitem(self, st, b, i, v, node, aug=None):
        b, i = self.simp(st, b), self.simp(st, i)
        if b.op == "ite":
            self.cases(st, b, lambda s, x: (self.setitem(s, x, i, v, node, aug), NONE)[1])
            return
        self.models.setitem(self, st, b, i, v, node, aug)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = env
            while fr is not None and self.frame_fn.get(fr) is None:
                fr = st.heap[fr].cls
            fn = self.frame_fn[fr]
            first = (fn.node.args.posonlyargs + fn.node.args.args)[0].arg
            return mk("super", fn.cls, st.heap[fr].f[first])
        fv = self.ev(e.func, st, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, env)
                it = self.iter_items(st, v)
                if it is None:
                    if fv.op == "ext" and fv.args[0] == "builtins.zip":
                        args.append(mk("fn", "star", (self.content(st, v),)))
                        continue
                    if fv.op in ("func", "bound"):
                        it = self.spread(st, fv, args, v)
                    else:
                        it = [mk("fn", "star", (self.content(st, v),))]
                args.extend(it)
            else:
                args.append(self.ev(a, st, env))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st, env)
            if k.arg is None:
                if v.op == "ref" and self.obj(st, v).kind == "dict" and self.obj(st, v).f["items"].op == "dictt":
                    for kk, vv in self.obj(st, v).f["items"].args[0]:
                        if is_str(kk):
                            kw[cval(kk)] = vv
                continue
            kw[k.arg] = v
        return self.call(st, fv, args, kw, e)

    def spread(self, st, fv, args, v):
        """*v with unknown length passed to a repo function: fill the remaining positional parameters"""
        f = self.funcs[(fv if fv.op == "func" else fv.args[1]).args[0]]
        pos = f.node.args.posonlyargs + f.node.args.args
        n = len(pos) - len(args) - (1 if fv.op == "bound" else 0)
        n = min(n, 8)
        # mandatory ones only
        need = len([p for p in pos if p.arg not in f.defaults]) - len(args) - (1 if fv.op == "bound" else 0)
        return [self.getitem(st, v, const(i), None) for i in range(max(need, 0))]

    def call(self, st, fv, args, kw, node):
        fv = self.simp(st, self.force(st, fv, node))
        if fv.op == "ite":
            return self.cases(st, fv, lambda s, f: self.call(s, f, args, kw, node))
        if fv.op == "func":
            return self.call_func(st, fv, args, kw, node)
        if fv.op == "bound":
            return self.call_func(st, fv.args[1], [fv.args[0]] + list(args), kw, node)
        if fv.op == "class":
            return self.instantiate(st, fv.args[0], args, kw, node)
        if fv.op == "ext":
            return self.models.ext_call(self, st, fv.args[0], args, kw, node)
        if fv.op == "extm":
            return self.models.method(self, st, fv.args[0], fv.args[1], args, kw, node)
        if fv.op == "partial":
            k2 = dict(fv.args[2])
            k2.update(kw)
            return self.call(st, fv.args[0], list(fv.args[1]) + list(args), k2, node)
        if fv.op == "ref" and self.obj(st, fv).kind == "inst" and self.obj(st, fv).cls in self.classes:
            f = self.class_attr(st, self.obj(st, fv).cls, "__call__")
            if f is not None:
                return self.call(st, self.bind(f, fv), args, kw, node)
        if fv.op == "fn" and fv.args[0] == "interp1d" and len(args) == 1 and not kw:
            x, y, sx, sy, kind, fill = fv.args[1]
            xi, si = self.content(st, args[0]), self.shape(st, args[0])
            if si.op == "tuple" and len(si.args[0]) == 1 and sy.op == "tuple" and sx.op == "tuple" and len(sx.args[0]) == 1:
                return self.new_arr(st, mk("fn", "interp1", (x, y, xi, sx.args[0][0], si.args[0][0], kind, fill)),
                                    mk("tuple", sy.args[0][:-1] + (si.args[0][0],)))
        if fv is NONE or fv.op in ("tuple",) or (fv.op == "const"):
            self.event("typeerror", node, st, what="object is not callable")
            self.raise_exc(st, "TypeError", node, implicit=True)
        return mk("fn", "call", (fv,) + tuple(self.content(st, a) for a in args) + tuple(
            mk("tuple", (const(k), self.content(st, v))) for k, v in sorted(kw.items())))

    def instantiate(self, st, qual, args, kw, node):
        ci = self.classes[qual]
        oid = self.alloc(st, "inst", qual, "fresh", {})
        r = ref(oid)
        init = self.class_attr(st, qual, "__init__")
        if init is not None:
            self.call(st, self.bind(init, r), args, kw, node)
        elif ci.dataclass or any(getattr(self.classes.get(q), "dataclass", False) for q in self.mro(qual)):
            fields = []
            for q in reversed(self.mro(qual)):
                c = self.classes.get(q)
                if c is not None and c.dataclass:
                    fields += [f for f in c.fields if f[0] not in [x[0] for x in fields]]
            vals = dict(zip([f[0] for f in fields], args))
            vals.update(kw)
            for fname, hasdef in fields:
                if fname not in vals:
                    d = self.class_attr(st, qual, fname)
                    if d is None:
                        self.event("arity", node, st, what="missing argument %s for %s" % (fname, qual))
                        self.raise_exc(st, "TypeError", node, implicit=True)
                    vals[fname] = d
            for fname, v in vals.items():
                self.setf(st, oid, "." + fname, v)
            pi = self.class_attr(st, qual, "__post_init__")
            if pi is not None:
                self.call(st, self.bind(pi, r), [], {}, node)
        elif self.has_ext_base(qual):
            pass
        return r

    def call_func(self, st, fv, args, kw, node):
        f = self.funcs[fv.args[0]]
        if len(self.stack) > MAXDEPTH or sum(1 for x in self.stack if x == f.qual) > 3:
            self.note("call depth bound at %s" % f.qual)
            return fresh("call." + f.name, "x")
        env = self.alloc(st, "env", f.env, "frame", {})
        self.bind_args(st, f, env, args, kw, node)
        self.called.add(f.module + ":" + f.qual)
        memo = None
        if "cached" in f.flags:
            key = (fv,) + tuple(self.content(st, v) for k, v in sorted(st.heap[env].f.items()))
            memo = mk("memo", *key)
            c = self.cache_obj(st)
            hit = st.heap[c].f.get(memo.id)
            if hit is not None and hit is not UNDEF:
                return hit
        self.frame_fn[env] = f
        if f.isgen:
            g = self.new_list(st, [])
            self.setf(st, env, "#yield", g)
        self.stack.append(f.qual)
        k0 = self.kernel
        if "kernel" in f.flags:
            self.kernel += 1
            self.event("kernelcall", node, st, fn=f.qual, args=[(k, v) for k, v in st.heap[env].f.items()])
        self.event("enter", node, st, qual=f.module + ":" + f.qual)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, st, env)
                return v
            outs = self.exec_block(f.node.body, st.copy(), env)
        finally:
            self.stack.pop()
            self.kernel = k0
        rets = list(outs.get("return", []))
        for s2, _ in outs.get("normal", []):
            rets.append((s2, NONE))
        if not rets:
            raise NoReturn()
        s, v = self.join(rets)
        st.become(s)
        if f.isgen:
            return g
        if memo is not None:
            self.mark_cached(st, v)
            self.setf(st, self.cache_obj(st), memo.id, v)
        return v

    def cache_obj(self, st):
        if not hasattr(self, "_cacheoid"):
            self._cacheoid = self.alloc(self.base, "env", None, "cache", {})
        if self._cacheoid not in st.heap:
            st.heap[self._cacheoid] = Obj("env", None, "cache", {})
        return self._cacheoid

    def mark_cached(self, st, v):
        if v.op == "ref":
            o = self.obj(st, v)
            self.event("cached", None, st, oid=v.args[0])
            st.heap[v.args[0]] = Obj(o.kind, o.cls, "cache", o.f)
            if o.kind == "view":
                self.mark_cached(st, o.f["base"])
            if o.kind == "list" and o.f["items"].op == "tuple":
                for x in o.f["items"].args[0]:
                    self.mark_cached(st, x)
        elif v.op == "tuple":
            for x in v.args[0]:
                self.mark_cached(st, x)
        elif v.op == "ite":
            self.mark_cached(st, v.args[1])
            self.mark_cached(st, v.args[2])

    def bind_args(self, st, f, env, args, kw, node):
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        kw = dict(kw)
        for n, v in zip(pos, args):
            vals[n] = v
        extra = list(args[len(pos):])
        if a.vararg is not None:
            vals[a.vararg.arg] = mk("tuple", tuple(extra))
        elif extra:
            self.event("arity", node, st, what="too many positional arguments for %s" % f.qual)
            self.raise_exc(st, "TypeError", node, implicit=True)
        names = pos + [p.arg for p in a.kwonlyargs]
        rest = []
        for k, v in kw.items():
            if k in names:
                if k in vals and k in pos[:len(args)]:
                    self.event("arity", node, st, what="multiple values for %s of %s" % (k, f.qual))
                    self.raise_exc(st, "TypeError", node, implicit=True)
                vals[k] = v
            elif a.kwarg is not None:
                rest.append((const(k), v))
            else:
                self.event("arity", node, st, what="unexpected keyword %s for %s" % (k, f.qual))
                self.raise_exc(st, "TypeError", node, implicit=True)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.new_dict(st, rest)
        for n in names:
            if n not in vals:
                if n in f.defaults:
                    vals[n] = f.defaults[n]
                else:
                    self.event("arity", node, st, what="missing argument %s of %s" % (n, f.qual))
                    self.raise_exc(st, "TypeError", node, implicit=True)
        o = st.heap[env]
        st.heap[env] = Obj(o.kind, o.cls, o.origin, vals)

    # ------------------------------------------------------------ entry points for the checks
    def fresh_state(self):
        return self.base.copy()

    def get(self, st, dotted):
        """resolve a dotted public name to a value (function / class / module)"""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            m = ".".join(parts[:i])
            if m in self.repo.modules:
                v = mk("module", m)
                for p in parts[i:]:
                    nv = None
                    if v.op == "module":
                        nv = st.heap[self.modenv[v.args[0]]].f.get(p)
                        if nv is not None:
                            nv = self.force(st, nv)
                    elif v.op == "class":
                        nv = self.class_attr(st, v.args[0], p)
                    if nv is None:
                        raise AnalysisBroken("public name %s not found" % dotted)
                    v = nv
                return v
        raise AnalysisBroken("module of %s not found" % dotted)

    def run(self, st, fv, args=(), kw=None, ctx=None):
        """analyse a call in a context; returns Result"""
        self.events = []
        self.loops = ()
        self.stack = []
        self.handlers = []
        self.kernel = 0
        self.sinks = [[]]
        old = self.ctx
        if ctx is not None:
            self.ctx = ctx
        try:
            try:
                v = self.call(st, fv, list(args), kw or {}, None)
                ok = True
            except NoReturn:
                v, ok = None, False
        finally:
            self.ctx = old
        r = Result(st, v, ok, self.sinks[0], self.events)
        self.sinks = []
        self.events = []
        return r


class Result:
    def __init__(self, st, v, ok, raised, events):
        self.st, self.v, self.ok, self.raised, self.events = st, v, ok, raised, events

    def evs(self, *kinds):
        return [e for e in self.events if e["kind"] in kinds]


# ---------------------------------------------------------------- helpers
BINOPS = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "Mod": "mod", "FloorDiv": "floordiv", "Pow": "pow",
          "BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor", "LShift": "lshift", "RShift": "rshift", "MatMult": "matmul"}
DUNDER = {"add": "add", "sub": "sub", "mul": "mul", "div": "truediv", "floordiv": "floordiv", "mod": "mod", "pow": "pow"}


SHAPES = tm.SHAPES


def reg_shape(t, shp):
    """remember the extents of an array value whose term does not determine them (None: ambiguous)"""
    if t.op == "const" or shp is None or shp.op != "tuple":
        return
    s = tuple(shp.args[0])
    old = SHAPES.get(t, s)
    SHAPES[t] = s if old == s else None


def bvar(*ts):
    """a bound variable of a level above every bound variable inside ts (inner loops get lower levels)"""
    lv = -1
    for t in ts:
        for z in tm.atoms(t):
            if z.op == "atom" and z.args[0].startswith("kb") and z.args[0][2:].isdigit():
                lv = max(lv, int(z.args[0][2:]))
    return atom("kb%d" % (lv + 1), "n")


def bound(t, k, kb):
    return tm.subst(t, {k: kb})


def kind_of(v):
    if v.op == "ref":
        return "x"
    if tm.is_int_valued(v):
        return "i"
    if tm.is_numeric_like(v):
        return "s" if ndim(v) == 0 else "a"
    return "x"


def any_ref(v):
    if v.op == "ite":
        return any_ref(v.args[1]) or any_ref(v.args[2])
    return v.op in ("ref", "tuple") or v is NONE


def has_undef(v):
    if v.op == "ite":
        return has_undef(v.args[1]) or has_undef(v.args[2])
    return v is UNDEF


def is_stringish(v):
    return is_str(v) or v.op == "other" or (v.op == "atom" and v.args[1] == "str") or (v.op == "fn" and v.args[0] in ("str", "strcat", "bits", "fnamestr"))


def to_str(v):
    if v.op == "const":
        x = cval(v)
        if isinstance(x, Fraction):
            x = float(x)
        return const(str(x))
    if is_stringish(v):
        return v
    return mk("fn", "str", (v, const("")))


def strcat(*parts):
    out = []
    for p in parts:
        p = p if is_stringish(p) or p.op == "ite" else (to_str(p) if p.op == "const" else p)
        if p.op == "fn" and p.args[0] == "strcat":
            out.extend(p.args[1])
        else:
            out.append(p)
    res = []
    for p in out:
        if is_str(p) and res and is_str(res[-1]):
            res[-1] = const(cval(res[-1]) + cval(p))
        elif is_str(p) and cval(p) == "":
            continue
        else:
            res.append(p)
    if not res:
        return const("")
    if len(res) == 1:
        return res[0]
    if any(p.op == "fn" and p.args[0] == "bits" for p in res) and all(p.op == "fn" and p.args[0] == "bits" for p in res):
        bs = ()
        for p in res:
            bs += p.args[1]
        return mk("fn", "bits", bs)
    # distribute over a gated part
    for i, p in enumerate(res):
        if p.op == "ite":
            return ite(p.args[0], strcat(*(res[:i] + [p.args[1]] + res[i + 1:])), strcat(*(res[:i] + [p.args[2]] + res[i + 1:])))
    return mk("fn", "strcat", tuple(res))


def pos_ge(d, c):
    """d >= c provable from the signs of the atoms ('p' atoms >= 1, 'n' atoms >= 0)"""
    if is_num(d):
        return num(d) >= c
    if d.op not in ("poly", "atom", "fn"):
        return False
    ps = [x for x in tm.atoms(d) if x.op == "atom" and x.args[1] == "p"]
    if ps and d.op in ("poly", "atom"):
        d = tm.subst(d, {x: add(atom(x.args[0] + "'", "n"), ONE) for x in ps})
    return tm.is_nonneg(sub(d, const(c)))


def pure_expr(es):
    for e in es:
        for n in ast.walk(e):
            if isinstance(n, (ast.Call, ast.NamedExpr, ast.Yield)):
                f = n.func if isinstance(n, ast.Call) else None
                if isinstance(f, ast.Attribute) and f.attr in ("any", "all", "isin", "abs", "sqrt", "max", "min", "startswith", "endswith", "isnan", "lower"):
                    continue
                if isinstance(f, ast.Name) and f.id in ("len", "isinstance", "type", "str", "int", "float", "abs", "max", "min", "any", "all"):
                    continue
                return False
    return True


def handler_names(h):
    if h.type is None:
        return None
    if isinstance(h.type, ast.Tuple):
        return [ast.unparse(x).split(".")[-1] for x in h.type.elts]
    return [ast.unparse(h.type).split(".")[-1]]


def exc_matches(name, names):
    if names is None:
        return True
    cls = getattr(builtins, name, None)
    for n in names:
        if n == name:
            return True
        c = getattr(builtins, n, None)
        if isinstance(cls, type) and isinstance(c, type) and issubclass(cls, c):
            return True
        if cls is None and n in ("Exception", "BaseException"):
            return True
    return False


_locals_cache = {}


def scan_locals(node):
    key = id(node)
    if key in _locals_cache and _locals_cache[key][0] is node:
        return _locals_cache[key][1]
    loc_, glob = set(), {}
    isgen = [False]
    if isinstance(node, ast.Lambda):
        r = ({a.arg for a in node.args.args}, {}, False)
        _locals_cache[key] = (node, r)
        return r

    def targets(t):
        if isinstance(t, ast.Name):
            loc_.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                targets(x)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc_.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    loc_.add(c.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            isgen[0] = True
        if isinstance(n, ast.Global):
            for x in n.names:
                glob[x] = "global"
        if isinstance(n, ast.Nonlocal):
            for x in n.names:
                glob[x] = "nonlocal"
        if isinstance(n, (ast.Assign,)):
            for t in n.targets:
                targets(t)
        elif isinstance(n, (ast.AnnAssign, ast.AugAssign, ast.For, ast.AsyncFor, ast.NamedExpr)):
            targets(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    targets(i.optional_vars)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc_.add(a.asname or a.name.split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc_.add(n.name)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                targets(t)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for b in node.body:
        visit(b)
    loc_ -= set(glob)
    r = (loc_, glob, isgen[0])
    _locals_cache[key] = (node, r)
    return r
