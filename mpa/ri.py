"""Random interpretation of value terms (Gulwani & Necula): the interpretation of two value-numbering terms over
random field/array values.  Used only to *suppress* reports: two extracted terms whose normal forms differ are
reported as different only when a random interpretation also separates them.  Operates on terms extracted from the
source; nothing of the analysed program is executed."""
from __future__ import annotations
import hashlib
import math
import re
import random
import warnings
from fractions import Fraction
import numpy as np
from . import terms as tm
from .terms import T, NONE, is_const, cval

np.seterr(all="ignore")
warnings.filterwarnings("ignore", category=RuntimeWarning)      # seterr does not reach other threads


class Undet(Exception):
    pass


SHAPES = tm.SHAPES  # atom/term -> tuple of terms


# styles of valuations besides False (moderate values) and True (small integers): large values of both signs, outliers
WIDE, TAILS = 2, 3


class Env:
    def __init__(self, seed, small=False):
        self.seed = seed
        self.small = small
        self.rng = random.Random(seed)
        self.b = {}
        self.memo = {}
        self.heads = set()
        self.fixed = {}
        self.arange = []
        self.cov = None       # comparison -> outcomes seen
        self.top = None       # (term, extents): extents of the compared array, for values initialised with a scalar

    def h(self, *xs):
        return int.from_bytes(hashlib.sha256(repr((self.seed,) + xs).encode()).digest()[:8], "big")

    def scalar(self, key):
        x = self.h("s", key)
        if self.small == WIDE:
            return ((x % 100003) / 7919.0 + 0.37) * 2500.0 * (-1 if x % 7 == 3 else 1)
        if self.small == TAILS:
            return ((x % 100003) / 7919.0 + 0.37) * (40.0 if x % 4 == 1 else 1.0)
        if self.small:
            return float(x % 5 - 1)
        return (x % 100003) / 7919.0 + 0.37

    def array(self, key, shape):
        r = np.random.RandomState(self.h("a", key) % (2 ** 31))
        if self.small == WIDE:
            return 2500.0 * r.uniform(0.3, 9.7, size=shape) * np.where(r.uniform(size=shape) < 0.1, -1.0, 1.0)
        if self.small == TAILS:
            return r.uniform(0.3, 9.7, size=shape) * np.where(r.uniform(size=shape) < 0.2, 40.0, 1.0)
        if self.small:
            return r.randint(-1, 4, size=shape).astype(float)
        return r.uniform(0.3, 9.7, size=shape)


BOUNDVARS = ("kb",)


def digest(v):
    if isinstance(v, np.ndarray):
        return ("arr", v.shape, tuple(np.round(v.astype(float), 6).ravel().tolist()))
    if isinstance(v, (float, np.floating)):
        return ("f", round(float(v), 6))
    if isinstance(v, (tuple, list)):
        return tuple(digest(x) for x in v)
    return repr(v)


LOOPVAR = re.compile(r"[kw]\d+$")     # a loop counter outside its loop: an unknown position


def ev(t, e: Env):
    bound = None
    if e.b and tm.contains(t, lambda z: z in e.b):
        key = None
    else:
        key = t
        if t in e.memo:
            return e.memo[t]
    r = _ev(t, e)
    if key is not None:
        e.memo[key] = r
    return r


def ev_nomemo(t, e):
    memo, e.memo = e.memo, {}
    try:
        return ev(t, e)
    finally:
        e.memo = memo


def show_(x):
    return tm.show(x, 6)


def shape_of_atom(t, e):
    s = SHAPES.get(t)
    if s is None:
        raise Undet("shape of %s" % tm.show(t, 2))
    return tuple(int(ev(x, e)) for x in s)


def idx_of(t, e):
    if t.op == "sl":
        f = lambda x: None if x is NONE else _int(ev(x, e))
        return slice(f(t.args[0]), f(t.args[1]), f(t.args[2]))
    if t is NONE:
        return None
    if is_const(t) and cval(t) is Ellipsis:
        return Ellipsis
    if t.op in ("tuple",):
        return [_int(ev(x, e)) for x in t.args[0]]
    v = ev(t, e)
    if isinstance(v, np.ndarray):
        if v.dtype == bool:
            return v
        return v.astype(int)
    return _int(v)


def _int(v):
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if float(v) != int(float(v)):
        raise Undet("non-integer index")
    return int(float(v))


def get(a, idx):
    if not isinstance(a, np.ndarray):
        raise Undet("index of scalar")
    for d, i in zip(a.shape, [x for x in idx if x is not None]):
        if isinstance(i, int) and not (-d <= i < d):
            raise Undet("index out of range")
    return a[tuple(idx)]


def num(x):
    if isinstance(x, np.ndarray):
        return x.astype(float) if x.dtype == bool else x
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return x
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, list):
        return np.array([num(y) for y in x], dtype=float)
    raise Undet("not a number: %r" % (x,))


def pw(b, x):
    b = num(b)
    if isinstance(x, int):
        if x < 0:
            with np.errstate(all="ignore"):
                return np.power(np.asarray(b, dtype=float), x) if isinstance(b, np.ndarray) else (
                    float(b) ** x if b != 0 else float("inf"))
        return b ** x
    return np.power(np.asarray(b, dtype=float), float(x))


EWF = {"cos": np.cos, "sin": np.sin, "tan": np.tan, "arctan": np.arctan, "arctan2": np.arctan2, "exp": np.exp,
       "log": np.log, "abs": np.abs, "hypot": np.hypot, "floor": np.floor, "ceil": np.ceil, "round": np.round, "single": lambda x: np.where(np.rint(x) == x, x, x * (1 + 2.0 ** -12)),
       "isnan": np.isnan, "sign": np.sign, "arcsin": np.arcsin, "arccos": np.arccos, "isfinite": np.isfinite,
       "max": np.maximum, "min": np.minimum, "mod": np.mod, "floordiv": np.floor_divide, "sqrt": np.sqrt}
RED = {"mean": np.mean, "std": np.std, "median": np.median, "reduce_max": np.max, "reduce_min": np.min, "var": np.var,
       "any": np.any, "all": np.all}
REDAX = {"mean": np.mean, "std": np.std, "median": np.median, "max": np.max, "min": np.min, "var": np.var, "sum": np.sum, "prod": np.prod,
         "reduce_max": np.max, "reduce_min": np.min, "reduce_sum": np.sum}
SAMESHAPE = {"mfilter", "median_filter"}
GRID = []       # extents of the coordinate grid, set by checks that compare coordinate maps


def linmap(key, e, n):
    """a random n x n matrix (an uninterpreted linear operation)"""
    r = np.random.RandomState(e.h("lin", key, n) % (2 ** 31))
    return r.uniform(-1, 1, size=(n, n))


def interp1(x, y, xi, kind, fill):
    """piecewise linear interpolation along the last axis (scipy.interpolate.interp1d semantics)"""
    if kind != "linear":
        raise Undet("interpolation kind")
    x, y, xi = np.asarray(x, float), np.asarray(y, float), np.asarray(xi, float)
    if x.ndim == 1 and len(x) == y.shape[-1] == 1 and fill == "extrapolate":
        return np.full(y.shape[:-1] + xi.shape, np.nan)             # no slope
    if x.ndim != 1 or len(x) != y.shape[-1] or len(x) < 2:
        raise Undet("interpolation nodes")
    j = np.clip(np.searchsorted(x, xi), 1, len(x) - 1)
    lo, hi = j - 1, j
    t = (xi - x[lo]) / (x[hi] - x[lo])
    r = y[..., lo] + (y[..., hi] - y[..., lo]) * t
    if fill != "extrapolate" and np.any((xi < x[0]) | (xi > x[-1])):
        raise Undet("interpolation outside of the nodes")
    return r


def is_array(t):
    """does the term denote an array updated element by element?"""
    while t.op == "ite":
        t = t.args[1]
    return t.op in ("store", "loopst") or (t.op == "iter" and is_array(t.args[1][cval(t.args[0])]))


def evbase(t, e):
    """value of the array a store/loop starts from; the extents of the compared array carry over to it"""
    old = e.top
    if old is not None and old[0] is t:
        e.top = (t.args[0], old[1])
    try:
        return ev(t.args[0], e)
    finally:
        e.top = old


def _ev(t, e):
    op = t.op
    if t in e.b:
        return e.b[t]
    if t in e.fixed:
        return e.fixed[t]
    if op == "const":
        v = cval(t)
        if isinstance(v, Fraction):
            return float(v)
        return v
    if op == "atom":
        name, kind, nd = t.args[:3]
        if t is tm.PI:
            return math.pi
        if "#" in name or name.startswith(("kx", "phi")) or LOOPVAR.match(name):
            raise Undet("unknown value %s" % name)
        if name in ("coordX", "coordY"):
            if not GRID or GRID[-1] is None:
                raise Undet("coordinate grid")
            H, W = [int(num(ev(x, e)) if isinstance(x, T) else x) for x in GRID[-1]]
            return np.arange(W)[None, :] + np.zeros((H, 1)) if name == "coordX" else np.arange(H)[:, None] + np.zeros((1, W))
        if kind == "p":
            return 2 + e.h("p", name) % 3
        if kind == "r":
            return (2 + e.h("r", name) % 1021) / 64.0
        if kind == "n":
            return e.h("n", name) % 4
        if kind == "i":
            return e.h("i", name) % 5 - 2
        if kind == "s":
            return e.scalar(name)
        if kind == "a":
            if nd == 0:
                return e.scalar(name)
            return e.array(name, shape_of_atom(t, e))
        if kind in ("x", "str", "seq"):
            if t in SHAPES:
                return e.array(name, shape_of_atom(t, e))
            if kind == "x":
                e.heads.add(("atom", name))
                return e.scalar(name)
        raise Undet("atom %s" % name)
    if op == "poly":
        r = 0
        for m, c in t.args[0]:
            x = float(c) if isinstance(c, Fraction) else c
            for b, p in m:
                x = x * pw(ev(b, e), p)
            r = r + x
        return r
    if op == "cmp":
        a, b = ev(t.args[1], e), ev(t.args[2], e)
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            if t.args[0] in ("eq", "ne"):
                return (a == b) == (t.args[0] == "eq")
            raise Undet("cmp str")
        a, b = num(a), num(b)
        r = {"lt": np.less, "le": np.less_equal, "eq": np.equal, "ne": np.not_equal}[t.args[0]](a, b)
        if e.cov is not None:
            seen = e.cov.setdefault(t, set())
            if len(seen) < 2:
                if np.any(r):
                    seen.add(True)
                if not np.all(r):
                    seen.add(False)
        return r
    if op in ("and", "or"):
        r = None
        for x in t.args[0]:
            v = ev(x, e)
            r = v if r is None else (np.logical_and if op == "and" else np.logical_or)(r, v)
        return r
    if op == "not":
        return np.logical_not(ev(t.args[0], e))
    if op == "ite":
        c = ev(t.args[0], e)
        if isinstance(c, np.ndarray) and c.ndim:
            raise Undet("ite over array")
        return ev(t.args[1] if c else t.args[2], e)
    if op == "sel":
        if GRID:
            GRID.append(None)     # extents of a part are not those of the whole
            try:
                return get(ev(t.args[0], e), [idx_of(i, e) for i in t.args[1]])
            finally:
                GRID.pop()
        return get(ev(t.args[0], e), [idx_of(i, e) for i in t.args[1]])
    if op == "stack":
        top, vs = e.top, []
        for x in t.args[0]:
            e.top = (x, top[1][1:]) if top is not None and top[0] is t and top[1] is not None else None
            vs.append(ev(x, e))
        e.top = top
        truth = bool(vs) and all(np.asarray(v).dtype == bool for v in vs)
        vs = [v if truth else num(v) for v in vs]
        shp = np.broadcast_shapes(*[np.shape(v) for v in vs])
        if truth:
            return np.stack([np.broadcast_to(np.asarray(v), shp) for v in vs])
        return np.stack([np.broadcast_to(np.asarray(v, dtype=float), shp) for v in vs])
    if op == "inter":
        if GRID:
            g = GRID[-1]
            GRID.append(None if g is None else tuple(int(num(ev(x, e)) if isinstance(x, T) else x) // 2 for x in g))
        try:
            vs = [ev(x, e) for x in t.args[0]]
            truth = all(np.asarray(v).dtype == bool for v in vs)
            vs = [num(v) for v in vs]
        finally:
            if GRID:
                GRID.pop()
        shp = np.broadcast_shapes(*[np.shape(v) for v in vs])
        if len(shp) != 2:
            raise Undet("interleave of non images")
        r = np.zeros((2 * shp[0], 2 * shp[1]))
        for k, v in enumerate(vs):
            r[k // 2::2, k % 2::2] = v
        return r.astype(bool) if truth else r
    if op == "store":
        a = evbase(t, e)
        if (not isinstance(a, np.ndarray) or a.ndim == 0) and e.top is not None and e.top[0] is t and e.top[1] is not None:
            a = np.full(tuple(int(ev(x, e)) for x in e.top[1]), float(a))
        if not isinstance(a, np.ndarray) or a.ndim == 0:
            raise Undet("store into scalar")
        a = np.array(a, dtype=float)
        idx = tuple(idx_of(i, e) for i in t.args[1])
        try:
            a[idx] = num(ev(t.args[2], e))
        except (IndexError, ValueError):
            raise Undet("store shape")
        return a
    if op == "loopst":
        a = evbase(t, e)
        if not isinstance(a, np.ndarray) or a.ndim == 0:
            s = SHAPES.get(t)
            if s is None and e.top is not None and e.top[0] is t:
                s = e.top[1]
            if s is None:
                raise Undet("loop into scalar")
            a = np.full(tuple(int(ev(x, e)) for x in s), float(a))
        a = np.array(a, dtype=float)

        def run(ns):
            if not ns:
                for idx, val, mode in t.args[1]:
                    i = tuple(idx_of(x, e) for x in idx.args[0])
                    for d, q in zip(a.shape, i):
                        if isinstance(q, int) and not -d <= q < d:
                            raise Undet("store out of range")
                    v = num(ev(val, e))
                    try:
                        if cval(mode) == "acc":
                            a[i] += v
                        else:
                            a[i] = v
                    except (ValueError, IndexError):
                        raise Undet("store shape")
                return
            (kb, n), rest = ns[0], ns[1:]
            cnt = _int(ev(n, e))
            if cnt > 200:
                raise Undet("long loop")
            old = e.b.get(kb)
            for q in range(max(cnt, 0)):
                e.b[kb] = q
                run(rest)
            if old is None:
                e.b.pop(kb, None)
            else:
                e.b[kb] = old
        run(t.args[2])
        return a
    if op == "iter":
        which, bodies, pbs, kb, ivs, n = t.args
        cnt = _int(ev(n, e))
        if cnt > 200:
            raise Undet("long loop")
        cur = []
        for i, (iv, pb) in enumerate(zip(ivs, pbs)):
            v = ev(iv, e)
            if not (isinstance(v, np.ndarray) and v.ndim) and is_array(bodies[i]):
                s = SHAPES.get(t) if i == cval(which) else SHAPES.get(iv)
                if s is None and i == cval(which) and e.top is not None and t is e.top[0]:
                    s = e.top[1]
                if s is None:
                    raise Undet("loop into scalar")
                v = np.full(tuple(int(ev(x, e)) for x in s), float(v))
            cur.append(v)
        old = {q: e.b[q] for q in (kb,) + tuple(pbs) if q in e.b}
        try:
            for q in range(max(cnt, 0)):
                e.b[kb] = q
                for pb, v in zip(pbs, cur):
                    e.b[pb] = v
                cur = [ev(x, e) for x in bodies]
        finally:
            for q in (kb,) + tuple(pbs):
                e.b.pop(q, None)
            e.b.update(old)
        return cur[cval(which)]
    if op == "lmap":
        body, kb, n = t.args
        out = []
        old = e.b.get(kb)
        cnt = _int(ev(n, e))
        if cnt > 200:
            raise Undet("long loop")
        for q in range(max(cnt, 0)):
            e.b[kb] = q
            out.append(ev(body, e))
        if old is None:
            e.b.pop(kb, None)
        else:
            e.b[kb] = old
        return np.array([num(x) for x in out], dtype=float)
    if op in ("tuple",):
        return [ev(x, e) for x in t.args[0]]
    if op == "fn":
        name, args = t.args
        if name == "lsum":
            body, kb, n = args
            r = 0
            old = e.b.get(kb)
            cnt = _int(ev(n, e))
            if cnt > 200:
                raise Undet("long loop")
            for q in range(max(cnt, 0)):
                e.b[kb] = q
                r = r + num(ev(body, e))
            if old is None:
                e.b.pop(kb, None)
            else:
                e.b[kb] = old
            return r
        if name == "where" and len(args) == 3:
            return np.where(ev(args[0], e), num(ev(args[1], e)), num(ev(args[2], e)))
        if name in EWF:
            vs = [num(ev(x, e)) for x in args]
            return EWF[name](*vs)
        if name == "int":
            v = num(ev(args[0], e))
            return np.trunc(v) if isinstance(v, np.ndarray) else int(v)
        if name == "ceildiv":
            return -((-num(ev(args[0], e))) // num(ev(args[1], e)))
        if name == "pow":
            return np.power(np.asarray(num(ev(args[0], e)), dtype=float), num(ev(args[1], e)))
        if name in ("bigadd", "bigmul"):
            vs = [num(ev(x, e)) for x in args]
            r = vs[0]
            for v in vs[1:]:
                r = r + v if name == "bigadd" else r * v
            return r
        if name == "inf":
            return float("inf")
        if name == "nan":
            return float("nan")
        if name in RED and len(args) == 1 and isinstance(args[0], T):
            return RED[name](num(ev(args[0], e)))
        if name == "uninit":
            s = SHAPES.get(t)
            if s is not None:
                return e.array(tm.show(t), tuple(int(ev(x, e)) for x in s))
            return e.scalar(("uninit", t.id))
        if name == "truth":
            v = ev(args[0], e)
            return bool(e.h("truth", digest(v)) % 2)
        if t in SHAPES:
            return e.array(("fn", name) + tuple(digest(ev(x, e)) if isinstance(x, T) and x.op not in ("ref", "ext") else repr(x) for x in args),
                           tuple(int(ev(x, e)) for x in SHAPES[t]))
        if name == "interp1":
            x, y, xi, nx, ni, kind, fill = args
            e.arange.append(_int(ev(nx, e)))
            xv = ev_nomemo(x, e)
            e.arange[-1] = _int(ev(ni, e))
            xiv = ev_nomemo(xi, e)
            e.arange.pop()
            return interp1(xv, ev(y, e), xiv, cval(kind) if is_const(kind) else None, cval(fill) if is_const(fill) else None)
        if name == "arange":
            if not e.arange:
                raise Undet("arange length")
            lo, stp = num(ev(args[0], e)), num(ev(args[1], e))
            return lo + stp * np.arange(e.arange[-1])
        if name == "concat":
            return np.concatenate([np.asarray(num(ev(x, e))) for x in args[1:]], axis=_int(ev(args[0], e)))
        if name in ("reshape", "reshapeF") and len(args) == 2 and args[1].op == "tuple":
            v = np.asarray(ev(args[0], e))
            return np.reshape(v, [_int(ev(x, e)) for x in args[1].args[0]], order="F" if name == "reshapeF" else "C")
        if name == "pinv" and len(args) == 1:
            return np.linalg.pinv(np.asarray(ev(args[0], e), dtype=float))
        if name == "pinv" and len(args) == 2:
            return np.linalg.pinv(np.asarray(ev(args[0], e), dtype=float), rcond=float(num(ev(args[1], e))))
        if name == "T" and len(args) == 1:
            return np.transpose(ev(args[0], e))
        if name == "T" and len(args) == 2:
            return np.transpose(ev(args[0], e), [_int(x) for x in ev(args[1], e)])
        if name == "rot90" and len(args) == 2:
            return np.rot90(np.asarray(ev(args[0], e)), _int(ev(args[1], e)))
        if name == "flip" and len(args) == 2 and not isinstance(args[1], str):
            ax = ev(args[1], e)
            return np.flip(np.asarray(ev(args[0], e)), None if ax is None else tuple(_int(x) for x in ax) if isinstance(ax, (tuple, list)) else _int(ax))
        if name == "repeat" and len(args) == 3 and is_const(args[2]) and isinstance(cval(args[2]), int):
            return np.repeat(np.asarray(num(ev(args[0], e))), _int(ev(args[1], e)), axis=cval(args[2]))
        if name.endswith("_axis") and name[:-5] in REDAX and len(args) == 2:
            ax = ev(args[1], e)
            return REDAX[name[:-5]](np.asarray(num(ev(args[0], e)), dtype=float), axis=tuple(_int(x) for x in ax) if isinstance(ax, (tuple, list)) else _int(ax))
        if name == "tile" and len(args) == 2:
            a, reps = np.asarray(num(ev(args[0], e))), ev(args[1], e)
            if a.ndim == 0:
                raise Undet("extents of a tiled array")
            return np.tile(a, tuple(_int(x) for x in reps) if isinstance(reps, (tuple, list, np.ndarray)) else _int(reps))
        if name == "rep":
            return np.repeat(np.asarray(ev(args[0], e)), _int(ev(args[1], e)), axis=_int(ev(args[2], e)))
        if name == "pilrotate":
            a = np.asarray(ev(args[0], e), float)
            if a.ndim != 2:
                raise Undet("rotation of a non-image")
            m = linmap(("rot",) + tuple(digest(ev(x, e)) if x.op != "tuple" else show_(x) for x in args[1:]) + a.shape, e, a.size)
            return (m @ a.ravel()).reshape(a.shape)
        if name in SAMESHAPE:
            vs = [ev(x, e) if isinstance(x, T) else x for x in args]
            e.heads.add(name)
            return e.array((name,) + tuple(digest(v) for v in vs), np.shape(vs[0]))
        if name in ("sum",) and len(args) == 1:
            return np.sum(num(ev(args[0], e)))
        if tm.ndim(t) == 0 or name in ("fitparam",):
            try:
                vs = tuple(digest(ev(x, e)) if isinstance(x, T) else repr(x) for x in args)
            except Undet:
                vs = (t.id,)
            e.heads.add((name, len(args)))
            return e.scalar((name,) + vs)
        raise Undet("function %s" % name)
    raise Undet("op %s" % op)


def differs(a, b):
    """structural/number comparison of interpreted values"""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        try:
            a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except (TypeError, ValueError):
            raise Undet("list")
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        return a != b
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        if a.ndim == 0 or b.ndim == 0 or a.ndim == b.ndim:
            try:
                a, b = np.broadcast_arrays(a, b)
            except ValueError:
                return True
        else:
            return True
    ok = np.isclose(a, b, rtol=1e-7, atol=1e-9) | ((~np.isfinite(a)) & (~np.isfinite(b)))
    return not bool(np.all(ok))


def compare(a: T, b: T, seeds=(1, 2, 3), assume=(), strict_heads=True, shape=None, grid=None):
    """'eq' (same normal form / never separated), 'ne' (separated, with witness seed) or 'unk'; grid: extents of the
    coordinate maps in the two terms"""
    if grid is not None:
        GRID.append(tuple(grid))
        try:
            return compare(a, b, seeds, assume, strict_heads, shape)
        finally:
            GRID.pop()
    if a is b or (tm.is_numeric_like(a) and tm.is_numeric_like(b) and tm.num_equal(a, b)):
        return "eq", None
    seen = 0
    why = None
    tries = [(s, sm) for s in seeds for sm in (False, True)] + [(s, sm) for s in seeds[:3] for sm in (WIDE, TAILS)]
    more = 10 if assume else 0
    for k in range(more):
        tries.append((100 + k, k % 2 == 0))
    cov = {}
    n = -1
    while n + 1 < len(tries):
        n += 1
        if n == len(tries) - 1 and seen >= 2 and len(tries[n]) == 2:    # every valuation agreed so far: the outcomes of conditions not seen yet
            tries += [(seeds[0], sm, fix) for fix in uncovered(cov) for sm in (False, WIDE)]
        s, small = tries[n][:2]
        e = Env(s, small)
        e.cov = cov
        if len(tries[n]) > 2:
            e.fixed = dict(tries[n][2])
        try:
            if not all(bool(np.all(ev(c, e))) for c in assume):
                continue
            e.heads = set()
            e.top = (a, shape)
            va = ev(a, e)
            ha = set(e.heads)
            e.heads = set()
            e.top = (b, shape)
            vb = ev(b, e)
            e.top = None
            hb = set(e.heads)
        except Undet as x:
            why = str(x)
            continue
        except (ZeroDivisionError, OverflowError, ValueError, TypeError, IndexError, FloatingPointError, RecursionError) as x:
            why = repr(x)
            continue
        try:
            d = differs(va, vb)
        except Undet as x:
            why = str(x)
            continue
        seen += 1
        if d:
            if strict_heads and ha ^ hb and (ha - hb) and (hb - ha):
                return "unk", "different uninterpreted functions %s / %s" % (sorted(map(str, ha)), sorted(map(str, hb)))
            return "ne", s
    if seen >= 2:
        return "eq", None
    return "unk", why


def uncovered(cov):
    """assignments of a single variable that lead to outcomes of comparisons that were not seen (comparisons of one variable only)"""
    out = []
    for t, seen in cov.items():
        if len(seen) == 2 or len(out) > 8:
            continue
        d = tm.sub(t.args[1], t.args[2])
        x = c1 = None
        c0 = Fraction(0)
        if d.op == "atom":
            x, c1 = d, Fraction(1)
        elif d.op == "poly":
            ok = True
            for m, c in d.args[0]:
                if not m:
                    c0 = Fraction(c)
                elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == "atom" and x is None:
                    x, c1 = m[0][0], Fraction(c)
                else:
                    ok = False
            if not ok or x is None:
                continue
        else:
            continue
        kind = x.args[1]
        if kind not in ("p", "n", "i", "s", "r") or "#" in x.args[0] or x is tm.PI:
            continue
        z = -c0 / c1
        f = math.floor(z)
        for v in (f - 1, f, f + 1, f + 2):
            if kind == "p" and v < 1 or kind in ("n",) and v < 0 or kind == "r" and v <= 0 or (kind in ("p", "n") and v > 2500):
                continue
            val = c1 * v + c0
            truth = {"lt": val < 0, "le": val <= 0, "eq": val == 0, "ne": val != 0}[t.args[0]]
            if truth not in seen:
                out.append(((x, v if kind in ("p", "n", "i") else float(v)),))
                break
    return out


def constant(t):
    try:
        v = ev(t, Env(0))
        return float(v) if np.ndim(v) == 0 and np.isfinite(v) else None
    except (Undet, ZeroDivisionError, OverflowError, ValueError, TypeError, IndexError, FloatingPointError, np.linalg.LinAlgError):
        return None


tm.CLOSED_EVAL[0] = constant
