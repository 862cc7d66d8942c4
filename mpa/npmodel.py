"""Transfer functions for numpy: array creation, indexing (views alias their base), reductions, products.

Everything returns abstract values; nothing is computed with numpy.
"""
from __future__ import annotations
from fractions import Fraction
from . import terms as tm
from .terms import (mk, const, atom, fresh, NONE, TRUE, FALSE, ZERO, ONE, add, sub, mul, div, neg, cmp, and_, or_, not_, ite, ndim, is_num,
                    num, is_int_const, is_const, cval, is_str, sl, FULL, ew, sel, store, where, T)


def tup(*xs):
    return mk("tuple", tuple(xs))


def ceildiv(a, b):
    return tm.floordiv(sub(add(a, b), ONE), b)


UF = {"add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div", "negative": "neg", "sqrt": "sqrt",
      "square": "square", "abs": "abs", "absolute": "abs", "fabs": "abs", "hypot": "hypot", "power": "pow", "float_power": "pow",
      "deg2rad": "deg2rad", "radians": "deg2rad", "rad2deg": "rad2deg", "degrees": "rad2deg", "less": "lt", "less_equal": "le",
      "greater": "gt", "greater_equal": "ge", "equal": "eq", "not_equal": "ne", "logical_and": "and", "logical_or": "or",
      "logical_not": "not", "maximum": "max", "minimum": "min", "fmax": "max", "fmin": "min", "mod": "mod", "remainder": "mod",
      "floor_divide": "floordiv", "cos": "cos", "sin": "sin", "tan": "tan", "arctan2": "arctan2", "arctan": "arctan", "exp": "exp",
      "log": "log", "isnan": "isnan", "isfinite": "isfinite", "sign": "sign", "floor": "floor", "ceil": "ceil", "round": "round",
      "around": "round", "rint": "round", "arcsin": "arcsin", "arccos": "arccos", "positive": "pos"}
BITS = {"bitwise_and": "bitand", "bitwise_or": "bitor", "bitwise_xor": "bitxor", "left_shift": "lshift", "right_shift": "rshift"}
ARR_METHODS = {"copy", "astype", "reshape", "sum", "mean", "std", "var", "min", "max", "any", "all", "repeat", "transpose", "flatten",
               "ravel", "tofile", "tobytes", "fill", "item", "tolist", "clip", "dot", "round", "squeeze", "swapaxes", "view", "take",
               "argmax", "argmin", "argsort", "sort", "nonzero", "cumsum", "prod", "byteswap", "newbyteorder", "median", "conj"}


def boolish(t):
    return t if tm.is_boolish(t) or t.op == "stack" or t.op == "inter" else cmp("ne", t, ZERO)


def dkind(t):
    """'f','i','b','o' or None for unspecified/unknown"""
    if t is NONE:
        return None
    s = None
    if t.op == "ext":
        s = t.args[0].split(".")[-1]
    elif is_str(t):
        s = cval(t)
    elif t.op == "class":
        s = str(t.args[0])
    if s is None:
        return None
    s = s.lstrip("<>=|")
    if s in ("float", "float64", "float32", "d", "f", "f8", "f4", "double", "float_", "float16", "single", "half", "f2", "e", "f16", "longdouble"):
        return "f"
    if s in ("int", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", "i", "i2", "i4", "i8", "u1", "u2", "u4", "u8",
             "H", "h", "intp", "uint", "short", "ushort"):
        return "i"
    if s in ("bool", "bool_", "?"):
        return "b"
    if s in ("object", "O", "object_"):
        return "o"
    return None


def dname(t):
    if t.op == "ext":
        s = t.args[0].split(".")[-1]
    elif is_str(t):
        s = cval(t)
    else:
        return tm.show(t)
    return {"<u2": "uint16", "=u2": "uint16", "u2": "uint16", "H": "uint16", "ushort": "uint16", "<H": "uint16", "<i2": "int16", "i2": "int16",
            "h": "int16", "short": "int16", ">u2": ">u2", ">i2": ">i2"}.get(s, s)


NARROW = ("uint8", "int8", "uint16", "int16", "u1", "i1", "B", "b", "short", "ushort", ">u2", ">i2")


def filled(I, st, v, dt, node):
    """fill value of an array of a given element type"""
    if dkind(dt) == "i" and not tm.is_int_valued(v):
        I.event("truncate", node, st, dtype=dname(dt), how="truncates")
        return mk("fn", "trunc", (v,))
    return v


def convert(c, dt):
    k = dkind(dt)
    if k == "i":
        if dname(dt) in NARROW and not is_num(c) and c.op not in ("stack", "inter", "const"):
            return mk("fn", "astype", (c, const(dname(dt))))
        if tm.is_int_valued(c):
            return c
        if c.op == "stack":
            return mk("stack", tuple(convert(x, dt) for x in c.args[0]))
        if is_num(c):
            return const(int(num(c)))
        if c.op in ("poly", "fn") and ndim(c) == 0 and tm.is_numeric_like(c):
            return tm.to_int(c)
        return mk("fn", "astype", (c, const(dname(dt))))
    if k == "b":
        return c if tm.is_boolish(c) else cmp("ne", c, ZERO)
    if k == "f" and narrow_float(dt):
        return single(c)
    return c


def narrow_float(dt):
    """floating point types in which a number of double precision is rounded"""
    return dt is not NONE and dname(dt).lstrip("<>=|") in ("float32", "float16", "f4", "f2", "f", "e", "single", "half")


def single(c):
    if c.op == "stack":
        return mk("stack", tuple(single(x) for x in c.args[0]))
    if is_const(c) or tm.is_boolish(c) or tm.is_int_valued(c):
        return c
    return mk("fn", "single", (c,))


def arg(args, kw, i, name, default=NONE):
    if i is not None and i < len(args):
        return args[i]
    return kw.get(name, default)


def shape_arg(I, st, v):
    v = I.simp(st, v)
    items = I.iter_items(st, v)
    if items is not None:
        return mk("tuple", tuple(I.simp(st, x) for x in items))
    if tm.is_numeric_like(v) and ndim(v) == 0:
        return tup(v)
    if v.op == "fn" and v.args[0] == "shape":
        return NONE
    return NONE


def is_seq(I, st, v):
    return v.op == "tuple" or (v.op == "ref" and I.obj(st, v).kind in ("list", "set"))


# ------------------------------------------------------------------ indexing
def dim_len(d, s):
    a, b, c = s.args
    step = ONE if c is NONE else c
    if is_num(step) and num(step) < 0:
        if a is NONE and b is NONE:
            return ceildiv(d, neg(step))
        return mk("fn", "slicelen", (d, s))
    def norm(x, dflt):
        if x is NONE:
            return dflt
        if is_num(x) and num(x) < 0:
            return add(d, x)
        return x
    lo, hi = norm(a, ZERO), norm(b, d)
    if is_int_const(hi) and is_int_const(d):
        hi = const(min(num(hi), num(d)))
    n = sub(hi, lo)
    if is_num(n) and num(n) < 0:
        n = ZERO
    return n if step is ONE else ceildiv(n, step)


def norm_index(I, st, b, i, node):
    """-> (idx tuple of terms, advanced flag)"""
    comps = list(i.args[0]) if i.op == "tuple" else [i]
    out = []
    adv = False
    for x in comps:
        x = I.simp(st, x)
        if x.op == "sl":
            a, bb, c = [I.content(st, y) if y is not NONE else y for y in x.args]
            out.append(sl(a, bb, c))
        elif x is NONE or (is_const(x) and cval(x) is Ellipsis):
            out.append(x)
        elif x.op == "ref" or x.op == "tuple":
            out.append(I.content(st, x))
            sh = I.shape(st, x)
            if not (sh.op == "tuple" and not sh.args[0]):
                adv = True
        else:
            nd = ndim(x)
            if nd is None and (tm.is_boolish(x) or x.op == "stack"):
                adv = True
            elif nd is not None and nd > 0:
                adv = True
            out.append(x)
    return out, adv


def expand(out, rank):
    n = sum(1 for x in out if x is not NONE)
    if any(is_const(x) and cval(x) is Ellipsis for x in out):
        k = [j for j, x in enumerate(out) if is_const(x) and cval(x) is Ellipsis][0]
        if rank is None:
            if k == len(out) - 1:
                return out[:k]
            return None
        out = out[:k] + [FULL] * (rank - (n - 1)) + out[k + 1:]
    return out


def resolve(I, st, b, out, shape, node):
    """normalise constant negative indices with the known shape; detect certain out-of-range constants"""
    j = 0
    res = []
    for x in out:
        if x is NONE:
            res.append(x)
            continue
        d = shape.args[0][j] if shape.op == "tuple" and j < len(shape.args[0]) else None
        j += 1
        if x.op != "sl" and is_int_const(x) and not isinstance(cval(x), bool) and d is not None:
            k = num(x)
            if is_int_const(d) and not -num(d) <= k < num(d):
                I.event("indexerror", node, st, what="index %d is out of range for an axis of length %d" % (k, num(d)))
                I.raise_exc(st, "IndexError", node, implicit=True)
            if k < 0:
                x = add(d, x)
        elif x.op == "sl" and d is not None:
            a, bb, c = x.args
            if c is NONE or (is_num(c) and num(c) > 0):
                if is_num(a) and num(a) < 0 and not is_num(d):
                    a = add(d, a)
                elif is_num(a) and num(a) < 0:
                    a = const(max(0, num(a) + num(d)))
                if is_num(bb) and num(bb) < 0:
                    bb = add(d, bb)
                if bb is d or (bb is not NONE and sub(bb, d) is ZERO):
                    bb = NONE
                x = sl(a, bb, c)
        res.append(x)
    if shape.op == "tuple" and j > len(shape.args[0]):
        I.event("indexerror", node, st, what="too many indices: array is %d-dimensional, but %d were indexed" % (len(shape.args[0]), j))
        I.raise_exc(st, "IndexError", node, implicit=True)
    return res


def result_shape(shape, idx):
    if shape.op != "tuple":
        return NONE
    out = []
    j = 0
    dims = shape.args[0]
    for x in idx:
        if x is NONE:
            out.append(ONE)
            continue
        if j >= len(dims):
            return NONE
        d = dims[j]
        j += 1
        if x.op == "sl":
            out.append(d if x is FULL else dim_len(d, x))
    out.extend(dims[j:])
    return mk("tuple", tuple(out))


def coord_index(c, idx):
    """arange(n)[None, :] / arange(n)[:, None] are column / row coordinate grids"""
    if c.op == "fn" and c.args[0] == "arange" and len(idx) == 2:
        lo, step = c.args[1]
        if idx[0] is NONE and idx[1] is FULL:
            return add(lo, mul(step, COORDX))
        if idx[1] is NONE and idx[0] is FULL:
            return add(lo, mul(step, COORDY))
    return None


COORDX = atom("coordX", "a", 2)
COORDY = atom("coordY", "a", 2)


def arr_getitem(I, st, b, i, node):
    if is_str(i):
        return mk("fn", "item", (I.content(st, b), i))
    shape = I.shape(st, b)
    out, adv = norm_index(I, st, b, i, node)
    c = I.content(st, b)
    rank = len(shape.args[0]) if shape.op == "tuple" else ndim(c)
    out = expand(out, rank)
    if out is None:
        return I.new_arr(st, mk("fn", "item", (c, I.content(st, i))))
    nfull = sum(1 for x in out if x is not NONE)
    if adv:
        ci = tuple(out)
        sh = NONE
        if len(ci) == 1:
            s0 = I.shape(st, i.args[0][0] if i.op == "tuple" and len(i.args[0]) == 1 else i)
            if not tm.is_boolish(ci[0]) and s0.op == "tuple" and shape.op == "tuple":
                sh = mk("tuple", s0.args[0] + shape.args[0][1:])
        d0 = cdims(shape)
        if len(ci) == 1 and d0 and len(d0) == 1 and d0[0] <= 400:
            ms = nested(I, ci[0], d0) if ci[0].op == "stack" and len(ci[0].args[0]) == d0[0] else None
            if ms and all(m is TRUE or m is FALSE for m in ms):
                xs = [x for m, x in zip(ms, nested(I, c, d0)) if m is TRUE]
                return I.new_arr(st, mk("stack", tuple(xs)), tup(const(len(xs))))
        pick = mask_list(I, st, i, ci, shape)
        if pick is not None:
            xs = [x for m, x in zip(pick, nested(I, c, d0)) if m is TRUE]
            return I.new_arr(st, mk("stack", tuple(xs)), tup(const(len(xs))), I.dtype(st, b))
        if len(ci) > 1 and rank == len(ci) and all(k.op == "stack" and k.args[0] and len(k.args[0]) == len(ci[0].args[0]) and all(
                ndim(x) == 0 and tm.is_int_valued(x) and not tm.is_boolish(x) for x in k.args[0]) for k in ci) and len(ci[0].args[0]) <= 400:
            xs = []
            for n in range(len(ci[0].args[0])):
                ix = tuple(resolve(I, st, b, [k.args[0][n] for k in ci], shape, node))
                ev_access(I, st, "load", b, ix, shape, node)
                xs.append(sel(c, ix))
            return I.new_arr(st, mk("stack", tuple(xs)), tup(const(len(xs))), I.dtype(st, b))
        if len(ci) == 1 and ci[0].op == "stack" and c.op == "stack" and all(is_int_const(k) for k in ci[0].args[0]):
            n = len(c.args[0])
            if all(-n <= num(k) < n for k in ci[0].args[0]):
                return I.new_arr(st, mk("stack", tuple(c.args[0][num(k)] for k in ci[0].args[0])), sh)
        ev_access(I, st, "load", b, ci, shape, node)
        return I.new_arr(st, sel(c, ci), sh)
    g = coord_index(c, out)
    if g is not None:
        return I.new_arr(st, g, result_shape(shape, out))
    idx = tuple(resolve(I, st, b, out, shape, node))
    ev_access(I, st, "load", b, idx, shape, node)
    allsc = all(x is not NONE and x.op != "sl" for x in idx)
    if allsc and (rank is not None and nfull >= rank or rank is None):
        return sel(c, idx)
    if any(x is NONE for x in idx):
        return I.new_arr(st, sel(c, idx), result_shape(shape, idx), I.dtype(st, b))
    return mk("ref", I.alloc(st, "view", None, I.obj(st, b).origin, {"base": b, "idx": mk("tuple", idx), "shape": result_shape(shape, idx),
                                                                     "dtype": I.dtype(st, b)}))


def mask_list(I, st, i, ci, shape):
    """outcomes of a boolean mask over a whole array of constant extents, or None"""
    d = cdims(shape)
    if len(ci) != 1 or not d or _prod(d) > 400 or not (I.ctx.get("exact") or ci[0].op == "stack"):
        return None
    if i.op == "tuple" and len(i.args[0]) == 1:
        i = i.args[0][0]
    s = I.shape(st, i)
    if cdims(s) != d or dkind(I.dtype(st, i)) not in (None, "b"):
        return None
    ms = nested(I, ci[0], d)
    return ms if all(m is TRUE or m is FALSE for m in ms) else None


def ev_access(I, st, kind, b, idx, shape, node):
    if I.kernel > 0:
        base = b
        if b.op == "ref":
            o = I.obj(st, b)
            if o.kind == "view":
                comp = tm._compose(o.f["idx"].args[0], tuple(idx))
                if comp is not None and I.is_arr(st, o.f["base"]):
                    ev_access(I, st, kind, o.f["base"], comp, I.shape(st, o.f["base"]), node)
                    return
        I.event("access", node, st, rw=kind, idx=tuple(idx), shape=shape, base=base.args[0] if base.op == "ref" else base)


def arr_setitem(I, st, b, i, v, node, aug=None):
    shape = I.shape(st, b)
    out, adv = norm_index(I, st, b, i, node)
    c = I.content(st, b)
    rank = len(shape.args[0]) if shape.op == "tuple" else ndim(c)
    ex = expand(out, rank)
    cv = I.content(st, v)
    if (ex is None or adv) and I.floats(st, [v]):
        I.truncates(st, b, cv, node, "truncates")
    if ex is None:
        I.write_content(st, b, mk("store", c, tuple(out), cv), node)
        return
    pick = mask_list(I, st, i, tuple(ex), shape) if adv else None
    if pick is not None:
        d = cdims(shape)
        n = sum(1 for m in pick if m is TRUE)
        vs = cdims(I.shape(st, v)) if ndim(cv) != 0 else []
        if vs == [] or vs == [1] or vs == [n]:
            new = [cv] * n if vs == [] else nested(I, cv, vs) * (n if vs == [1] else 1)
            if dkind(I.dtype(st, b)) == "i":
                new = [x if tm.is_int_valued(x) else convert(x, I.dtype(st, b)) for x in new]
            new = iter(new)
            I.write_content(st, b, build([next(new) if m is TRUE else x for m, x in zip(pick, nested(I, c, d))], d), node)
            return
        if vs is not None and len(vs) == 1:
            I.event("broadcast", node, st, a=I.shape(st, v), b=tup(const(n)), what="boolean assignment")
            I.raise_exc(st, "ValueError", node, implicit=True)
    if adv:
        I.write_content(st, b, store(c, tuple(ex), cv, None), node)
        ev_access(I, st, "store", b, tuple(ex), shape, node)
        return
    idx = tuple(resolve(I, st, b, ex, shape, node))
    ev_access(I, st, "store", b, idx, shape, node)
    rs = result_shape(shape, idx)
    vs = I.shape(st, v)
    if rs.op == "tuple" and vs.op == "tuple" and (I.is_arr(st, v) or is_seq(I, st, v)):
        I.bshape(st, rs, vs, node)
    k = dkind(I.dtype(st, b))
    if I.floats(st, [v]):
        I.truncates(st, b, cv, node, "truncates")
    if k == "i" and not tm.is_int_valued(cv) or k == "f" and narrow_float(I.dtype(st, b)):
        cv = convert(cv, I.dtype(st, b))
    I.write_content(st, b, store(c, idx, cv, I.lead(st, b)), node)


def term_getitem(I, st, t, i, node):
    out, adv = norm_index(I, st, t, i, node)
    rank = ndim(t)
    shape = I.shape(st, t)
    ex = expand(out, rank)
    if ex is None:
        return mk("fn", "item", (t, I.content(st, i)))
    if not adv:
        g = coord_index(t, ex)
        if g is not None:
            return g
        ex = resolve(I, st, t, ex, shape, node)
    ev_access(I, st, "load", t, tuple(ex), shape, node)
    r = sel(t, tuple(ex))
    sc = all(x is not NONE and x.op != "sl" and ndim(x) == 0 for x in ex)
    if sc:
        return r
    return I.new_arr(st, r, result_shape(shape, ex) if not adv else NONE)


# ------------------------------------------------------------------ helpers
def nested(I, c, dims):
    """explicit element list of an array with constant dims (row-major)"""
    if not dims:
        return [c]
    if c.op != "stack":
        import itertools
        return [sel(c, tuple(const(k) for k in ix)) for ix in itertools.product(*[range(d) for d in dims])]
    out = []
    for k in range(dims[0]):
        out.extend(nested(I, sel(c, (const(k),)), dims[1:]))
    return out


def nest_dims(c):
    """extents of an explicit nest of stacks with scalar leaves"""
    if c.op != "stack":
        return [] if ndim(c) == 0 or c.op == "sel" else None
    ds = [nest_dims(x) for x in c.args[0]]
    if not ds or ds[0] is None or any(d != ds[0] for d in ds):
        return None
    return [len(ds)] + ds[0]


def build(elems, dims):
    if not dims:
        return elems[0]
    n = len(elems) // dims[0] if dims[0] else 0
    return mk("stack", tuple(build(elems[k * n:(k + 1) * n], dims[1:]) for k in range(dims[0])))


def cdims(shape):
    if shape.op != "tuple":
        return None
    if all(is_int_const(d) for d in shape.args[0]):
        return [num(d) for d in shape.args[0]]
    return None


def transpose(I, st, v, axes):
    c = I.content(st, v)
    s = I.shape(st, v)
    rank = len(s.args[0]) if s.op == "tuple" else ndim(c)
    if axes is not None:
        ax = [num(a) % rank for a in axes] if rank and all(is_int_const(a) for a in axes) else None
        if ax is None:
            return I.new_arr(st, mk("fn", "transpose", (c, mk("tuple", tuple(axes)))))
    elif rank is not None:
        ax = list(range(rank))[::-1]
    else:
        return I.new_arr(st, mk("fn", "T", (c,)))
    if ax == list(range(rank)):
        return v
    ns = mk("tuple", tuple(s.args[0][a] for a in ax)) if s.op == "tuple" else NONE
    d = cdims(s)
    if c.op != "stack" and ndim(c) == 0:
        return I.new_arr(st, c, ns)
    if d is not None and 0 < len(d) <= 4 and _prod(d) <= 512:
        import itertools
        nd = [d[a] for a in ax]
        elems = []
        for pos in itertools.product(*[range(x) for x in nd]):
            src = [0] * rank
            for q, a in enumerate(ax):
                src[a] = pos[q]
            elems.append(sel(c, tuple(const(x) for x in src)))
        return I.new_arr(st, build(elems, nd), ns)
    # constant leading axes permuted among themselves
    if s.op == "tuple":
        lead = [k for k in range(rank) if is_int_const(s.args[0][k]) and num(s.args[0][k]) <= 16]
        nl = 0
        while nl < rank and nl in lead and ax[nl] in lead:
            nl += 1
        while nl and sorted(ax[:nl]) != list(range(nl)):
            nl -= 1
        if nl and ax[nl:] == list(range(nl, rank)):
            import itertools
            nd = [num(s.args[0][a]) for a in ax[:nl]]
            elems = []
            for pos in itertools.product(*[range(x) for x in nd]):
                src = [0] * nl
                for q in range(nl):
                    src[ax[q]] = pos[q]
                elems.append(sel(c, tuple(const(x) for x in src)))
            return I.new_arr(st, build(elems, nd), ns)
    if rank == 2 and c.op == "fn" and c.args[0] == "T":
        return I.new_arr(st, c.args[1][0], ns)
    return I.new_arr(st, mk("fn", "T", (c,) if ax == list(range(rank))[::-1] else (c, mk("tuple", tuple(const(a) for a in ax)))), ns)


def _prod(xs):
    p = 1
    for x in xs:
        p *= x
    return p


def rep(c, n, axis):
    """repeat each entry n times along axis"""
    if ndim(c) == 0:
        return c
    if n == 2 and c.op == "fn" and c.args[0] == "rep" and num(c.args[1][1]) == 2 and {num(c.args[1][2]), axis} == {0, 1}:
        x = c.args[1][0]
        return mk("inter", (x, x, x, x))
    return mk("fn", "rep", (c, const(n), const(axis)))


def do_repeat(I, st, v, n, axis, node):
    c, s = I.content(st, v), I.shape(st, v)
    if is_int_const(n) and is_int_const(axis):
        rank = len(s.args[0]) if s.op == "tuple" else ndim(c)
        ax = num(axis)
        if ax < 0 and rank is not None:
            ax += rank
        ns = NONE
        if s.op == "tuple" and ax < len(s.args[0]):
            d = list(s.args[0])
            d[ax] = mul(d[ax], n)
            ns = mk("tuple", tuple(d))
        dd = cdims(s)
        if rank == 2 and dd is not None and _prod(dd) <= 1024 and num(n) > 0 and I.ctx.get("exact"):
            xs, q = nested(I, c, dd), num(n)
            return I.new_arr(st, build([xs[(i // q if ax == 0 else i) * dd[1] + (j if ax == 0 else j // q)]
                                        for i in range(dd[0] * (q if ax == 0 else 1)) for j in range(dd[1] * (q if ax == 1 else 1))],
                                       [dd[0] * (q if ax == 0 else 1), dd[1] * (q if ax == 1 else 1)]), ns)
        if ax == 0 and c.op == "stack":
            return I.new_arr(st, mk("stack", tuple(x for x in c.args[0] for _ in range(num(n)))), ns)
        if ax == 0 and rank is not None and rank > 0 and s.op == "tuple" and is_int_const(s.args[0][0]) and num(s.args[0][0]) <= 16:
            return I.new_arr(st, mk("stack", tuple(sel(c, (const(k),)) for k in range(num(s.args[0][0])) for _ in range(num(n)))), ns)
        if rank == 2:
            return I.new_arr(st, rep(c, num(n), ax), ns)
        if rank == 3 and c.op == "stack" and ax in (1, 2):
            return I.new_arr(st, mk("stack", tuple(rep(x, num(n), ax - 1) for x in c.args[0])), ns)
        if rank == 4 and c.op == "stack" and ax in (2, 3) and all(x.op == "stack" for x in c.args[0]):
            return I.new_arr(st, mk("stack", tuple(mk("stack", tuple(rep(y, num(n), ax - 2) for y in x.args[0])) for x in c.args[0])), ns)
        if s.op == "tuple" and rank in (3, 4) and ax >= rank - 2 and all(is_int_const(d) for d in s.args[0][:rank - 2]):
            dims = [num(d) for d in s.args[0][:rank - 2]]
            if _prod(dims) <= 64:
                return I.new_arr(st, build([rep(x, num(n), ax - rank + 2) for x in nested(I, c, dims)], dims), ns)
        return I.new_arr(st, mk("fn", "repeat", (c, n, axis)), ns)
    return I.new_arr(st, mk("fn", "repeat", (c, I.content(st, n), axis)))


def byte_sized(c):
    a = c.args[1]
    return len(a) > 1 and is_str(a[1]) and cval(a[1]).lstrip("<>=|") in ("uint8", "u1", "B")


def do_reshape(I, st, v, dims, node, order=NONE):
    c, s = I.content(st, v), I.shape(st, v)
    ns = mk("tuple", tuple(dims))
    dt = I.dtype(st, v)
    if is_str(order) and cval(order) not in ("C", "A"):
        fa, fb = cdims(s), [num(d) if is_int_const(d) else None for d in dims]
        if fa is not None and fb.count(-1) == 1 and None not in fb and -_prod(fb) > 0:
            fb[fb.index(-1)] = _prod(fa) // -_prod(fb)
        if cval(order) == "F" and fa is not None and None not in fb and _prod(fa) == _prod(fb) and 0 < _prod(fa) <= 1024:
            flat = nested(I, c, fa)

            def offset(ix, ds, rev):
                o = 0
                for i, d in (zip(reversed(ix), reversed(ds)) if rev else zip(ix, ds)):
                    o = o * d + i
                return o
            import itertools
            where = {offset(ix, fa, True): flat[offset(ix, fa, False)] for ix in itertools.product(*[range(d) for d in fa])}
            return I.new_arr(st, build([where[offset(ix, fb, True)] for ix in itertools.product(*[range(d) for d in fb])], fb), tup(*map(const, fb)), dt)
        return I.new_arr(st, mk("fn", "reshape" + cval(order), (c, ns)), ns, dt)
    minus = [k for k, d in enumerate(dims) if is_int_const(d) and num(d) == -1]
    if minus:
        if s.op == "tuple":
            total = mul(*s.args[0]) if s.args[0] else ONE
            others = [d for k, d in enumerate(dims) if k not in minus]
            rest = mul(*others) if others else ONE
            q = tm.exact_div(total, rest)
            if q is None:
                q = mk("fn", "reshapedim", (total, rest))
            dims = [q if k in minus else d for k, d in enumerate(dims)]
            ns = mk("tuple", tuple(dims))
        else:
            ns = NONE
    rank = len(s.args[0]) if s.op == "tuple" else ndim(c)
    if ns.op == "tuple" and s.op == "tuple":
        a, b = (mul(*s.args[0]) if s.args[0] else ONE), (mul(*ns.args[0]) if ns.args[0] else ONE)
        if is_int_const(a) and is_int_const(b) and num(a) != num(b):
            I.event("broadcast", node, st, a=s, b=ns, what="cannot reshape")
            I.raise_exc(st, "ValueError", node, implicit=True)
    if ndim(c) == 0 and c.op != "fn":
        return I.new_arr(st, c, ns, dt)
    if s is ns or (s.op == "tuple" and ns.op == "tuple" and len(s.args[0]) == len(ns.args[0]) and all(
            sub(x, y) is ZERO for x, y in zip(s.args[0], ns.args[0]))):
        return I.new_arr(st, c, ns, dt) if v.op != "ref" else v
    if c.op == "fn" and (c.args[0] == "rawdata" and not byte_sized(c)):
        return I.new_arr(st, c, ns, dt)
    if c.op == "fn" and c.args[0] in ("rawdata", "bytestream") and ns.op == "tuple" and len(ns.args[0]) == 1:
        return I.new_arr(st, c, ns, dt)
    if ns.op == "tuple" and rank == len(ns.args[0]) and s.op == "tuple" and not (s.op == "tuple" and cdims(s) is not None and cdims(ns) is not None):
        # opaque but rank-preserving: the sizes must agree or numpy raises; keep the content when dims are opaque `dim` terms
        if all(d.op == "fn" and d.args[0] == "dim" for d in s.args[0]):
            return I.new_arr(st, c, ns, dt)
    a, b = cdims(s), cdims(ns)
    if a is None and b is not None and c.op == "stack":
        a = nest_dims(c)
        if a is not None and _prod(a) != _prod(b):
            a = None
    if a is not None and b is not None and _prod(a) == _prod(b) and _prod(a) <= 1024:
        return I.new_arr(st, build(nested(I, c, a), b), ns, dt)
    if s.op == "tuple" and ns.op == "tuple":
        # common symbolic prefix, constant tails
        k = 0
        while k < len(s.args[0]) and k < len(ns.args[0]) and s.args[0][k] is ns.args[0][k] and not is_int_const(s.args[0][k]):
            k += 1
        ta, tb = cdims(mk("tuple", s.args[0][k:])), cdims(mk("tuple", ns.args[0][k:]))
        if k == 1 and ta == [2, 2] and tb == [4]:
            return I.new_arr(st, mk("fn", "flat22", (c,)), ns, dt)
        # constant leading dims regrouped, symbolic tail kept
        ka, kb = len(s.args[0]), len(ns.args[0])
        while ka and kb and not is_int_const(s.args[0][ka - 1]) and s.args[0][ka - 1] is ns.args[0][kb - 1]:
            ka -= 1
            kb -= 1
        la, lb = cdims(mk("tuple", s.args[0][:ka])), cdims(mk("tuple", ns.args[0][:kb]))
        if ka < len(s.args[0]) and la is not None and lb is not None and _prod(la) == _prod(lb) and _prod(la) <= 256:
            return I.new_arr(st, build(nested(I, c, la), lb), ns, dt)
        # (4, h, w) families <-> (2, 2, h, w)
    return I.new_arr(st, mk("fn", "reshape", (c, ns)), ns, dt)


# ------------------------------------------------------------------ reductions
RED = {"sum", "mean", "std", "var", "median", "min", "max", "amin", "amax", "prod", "nansum", "nanmean", "nanstd", "nanmedian", "nanmin",
       "nanmax", "average", "ptp", "argmax", "argmin", "count_nonzero", "percentile", "quantile"}


def reduce_(I, st, name, v, args, kw, node):
    name = {"amin": "min", "amax": "max"}.get(name, name)
    axis = arg(args, kw, 0, "axis")
    if name in ("percentile", "quantile"):
        axis = kw.get("axis", NONE)
    w = kw.get("where")
    keep = kw.get("keepdims")
    c = I.content(st, v)
    s = I.shape(st, v)
    extra = ()
    if isinstance(axis, T) and axis.op == "tuple" and s.op == "tuple" and all(is_int_const(a) for a in axis.args[0]) and \
            sorted(num(a) % max(len(s.args[0]), 1) for a in axis.args[0]) == list(range(len(s.args[0]))):
        axis = NONE         # all of the axes
    if w is not None:
        wc = I.content(st, w)
        if wc is not TRUE:
            extra = (boolish(wc),)
    if name in ("percentile", "quantile", "average") and args:
        extra = extra + tuple(I.content(st, a) for a in args)
    if axis is NONE and I.ctx.get("exact") and name in ("sum", "mean", "std", "var", "max", "min", "median", "nansum", "nanmean", "nanmax", "nanmin") and (w is None or wc is TRUE or extra) and len(extra) <= 1:
        dd = kw.get("ddof")
        r = exact_reduce(I, st, name, c, cdims(s), extra[0] if extra else None, dd if dd is not None and dd is not ZERO else None)
        if r is not None:
            return r
    if kw.get("ddof", ZERO) is not ZERO and name in ("std", "var", "nanstd", "nanvar"):
        name += "_ddof"
        extra += (I.content(st, kw["ddof"]),)
    if axis is NONE or axis is FALSE:
        if c.op == "stack" and not extra and c.args[0] and all(ndim(x) == 0 for x in c.args[0]):
            xs = c.args[0]
            if name in ("sum", "nansum"):
                return add(*xs)
            if name == "mean":
                return div(add(*xs), const(len(xs)))
            if name in ("max", "min"):
                r = xs[0]
                for x in xs[1:]:
                    r = tm.vmax(r, x) if name == "max" else tm.vmin(r, x)
                return r
            if name == "prod":
                return mul(*xs)
        d = cdims(s)
        if name in ("sum",) and d is not None and not extra and _prod(d) <= 64 and c.op == "stack":
            return add(*nested(I, c, d))
        if name == "mean" and d and not extra and _prod(d) <= 64 and c.op == "stack" and nest_dims(c) == list(d):
            return div(add(*nested(I, c, d)), const(_prod(d)))
        if ndim(c) == 0 and s.op == "tuple" and not s.args[0] and name in ("sum", "mean", "min", "max", "median", "prod") and not extra:
            return c
        if name == "mean" and is_const(c) and not extra:
            return c
        if c.op == "fn" and c.args[0] == "flatten":
            c = c.args[1][0]
        if name == "max":
            name = "reduce_max"
        elif name == "min":
            name = "reduce_min"
        elif name == "sum":
            name = "reduce_sum"
        return mk("fn", name, (c,) + extra)
    if is_int_const(axis) and not extra:
        rank = len(s.args[0]) if s.op == "tuple" else ndim(c)
        ax = num(axis)
        if ax < 0 and rank is not None:
            ax += rank
        if s.op == "tuple" and rank == 0 and num(axis) in (0, -1):
            if name in ("sum", "max", "min") and not extra:
                return c
            if name in ("mean", "std", "var", "median"):
                I.raise_exc(st, "AxisError", node)
            return mk("fn", name + "_axis", (c, axis) + extra)
        if s.op == "tuple" and not 0 <= ax < rank:
            I.raise_exc(st, "AxisError", node)
        comps = None
        if ax == 0:
            if c.op == "stack":
                comps = list(c.args[0])
            elif s.op == "tuple" and is_int_const(s.args[0][0]) and num(s.args[0][0]) <= 64 and c.op != "lmap":
                comps = [sel(c, (const(k),)) for k in range(num(s.args[0][0]))]
        elif s.op == "tuple" and all(is_int_const(d) for d in s.args[0][:ax + 1]) and _prod([num(d) for d in s.args[0][:ax + 1]]) <= 256:
            dims = [num(d) for d in s.args[0][:ax]]
            m = num(s.args[0][ax])
            groups = [[sel(x, (const(k),)) for k in range(m)] for x in nested(I, c, dims)]
            if name in ("sum", "nansum", "mean"):
                rs = [add(*g) if name != "mean" else div(add(*g), const(m)) for g in groups]
                return I.new_arr(st, build(rs, dims), mk("tuple", s.args[0][:ax] + s.args[0][ax + 1:]))
        ns = mk("tuple", s.args[0][:ax] + s.args[0][ax + 1:]) if s.op == "tuple" and ax < len(s.args[0]) else NONE
        if comps is not None and comps:
            r = None
            if name in ("sum", "nansum"):
                r = comps[0]
                for x in comps[1:]:
                    r = ew("add", r, x)
            elif name == "mean":
                r = comps[0]
                for x in comps[1:]:
                    r = ew("add", r, x)
                r = ew("div", r, const(len(comps)))
            elif name in ("max", "min"):
                r = comps[0]
                for x in comps[1:]:
                    r = ew(name, r, x)
            if r is not None:
                if keep is TRUE:
                    return I.new_arr(st, mk("stack", (r,)), mk("tuple", (ONE,) + ns.args[0]) if ns.op == "tuple" else NONE)
                return I.new_arr(st, r, ns) if ns is not tup() else r
        return I.new_arr(st, mk("fn", name + "_axis", (c, axis)), ns)
    return I.new_arr(st, mk("fn", name + "_axis", (c, I.content(st, axis)) + extra))


def exact_reduce(I, st, name, c, d, mask, ddof=None):
    """reduction of an array of few, explicit elements, possibly masked"""
    if d == [0] and c.op == "stack" and mask is None and name in ("mean", "std", "var", "median"):
        return mk("fn", "nan", ())
    if not d or not 0 < _prod(d) <= (400 if len(d) > 1 else 1200):
        return None
    xs = nested(I, c, d)
    if any(ndim(x) != 0 for x in xs if x.op != "sel"):
        return None
    if name in ("sum", "mean") and all(x in (TRUE, FALSE) for x in xs):
        xs = [ONE if x is TRUE else ZERO for x in xs]
    if name.startswith("nan"):
        nan = [x.op == "fn" and x.args[0] == "nan" for x in xs]
        if not all(n or is_num(x) for n, x in zip(nan, xs)) or mask is not None:
            return None
        xs = [x for n, x in zip(nan, xs) if not n]
        name = name[3:]
    if mask is not None:
        ms = [mask] * len(xs) if mask in (TRUE, FALSE) else nested(I, mask, d)
        ms = [boolish(m) for m in ms]
        if any(m is not TRUE and m is not FALSE for m in ms):
            if name != "sum":
                return None
            xs = [tm.where(m, x, ZERO) for m, x in zip(ms, xs)]
        else:
            xs = [x for m, x in zip(ms, xs) if m is TRUE]
    if name == "sum":
        return add(*xs) if xs else ZERO
    if not xs:
        return mk("fn", "nan", ()) if name in ("mean", "std", "var", "median") else None
    if name == "mean":
        return div(add(*xs), const(len(xs)))
    if ddof is not None and name in ("std", "var"):
        if not (is_int_const(ddof) and len(xs) > num(ddof)):
            return None
        m = div(add(*xs), const(len(xs)))
        v = div(add(*[tm.power(sub(x, m), 2) for x in xs]), const(len(xs) - num(ddof)))
        return v if name == "var" else tm.sqrt(v)
    if name in ("std", "var", "median"):
        if len(xs) == 1:
            return xs[0] if name == "median" else ZERO
        if all(is_num(x) for x in xs):
            v = sorted(num(x) for x in xs)
            if name == "median":
                return const(Fraction(v[(len(v) - 1) // 2] + v[len(v) // 2]) / 2)
            m = Fraction(sum(v)) / len(v)
            q = const(sum((x - m) ** 2 for x in v) / len(v))
            return q if name == "var" else tm.sqrt(q)
        return mk("fn", name, (mk("stack", tuple(sorted(xs, key=lambda t: t.id))),))
    r = xs[0]
    for x in xs[1:]:
        if is_const(x) and is_const(r):
            r = (tm.vmax if name == "max" else tm.vmin)(r, x)
            continue
        g = cmp("ge", x, r)
        r = (x if g is TRUE else r if g is FALSE else tm.vmax(r, x)) if name == "max" else (r if g is TRUE else x if g is FALSE else tm.vmin(r, x))
    return r


def exact_search(I, st, name, c, s, args, kw):
    """positions in an array of explicit elements whose order is settled (first extreme value, or true elements), or None"""
    d = cdims(s)
    if not I.ctx.get("exact") or not d or args or kw or not 0 < _prod(d) <= (400 if len(d) > 1 else 1200):
        return None
    xs = nested(I, c, d)
    if name in ("nonzero", "flatnonzero"):
        ms = [boolish(x) for x in xs]
        if any(m is not TRUE and m is not FALSE for m in ms):
            return None
        hits = [k for k, m in enumerate(ms) if m is TRUE]
        if name == "flatnonzero":
            return I.new_arr(st, mk("stack", tuple(const(k) for k in hits)), tup(const(len(hits))), const("int64"))
        out = []
        for ax in range(len(d)):
            per = _prod(d[ax + 1:])
            out.append(I.new_arr(st, mk("stack", tuple(const(k // per % d[ax]) for k in hits)), tup(const(len(hits)))))
        return tup(*out)
    if not all(is_num(x) for x in xs):
        return None
    v = [num(x) for x in xs]
    return const(v.index(max(v) if name == "argmax" else min(v)))


def anyall(I, st, name, v, kw, args=()):
    c = I.content(st, v)
    axis = arg(args, kw, 0, "axis")
    if axis is not NONE:
        return I.new_arr(st, mk("fn", name + "_axis", (c, I.content(st, axis))))
    if c.op == "stack":
        d = cdims(I.shape(st, v))
        xs = nested(I, c, d) if d is not None and _prod(d) <= 64 else list(c.args[0])
        if all(ndim(x) == 0 for x in xs):
            xs = [boolish(x) for x in xs]
            return or_(*xs) if name == "any" else and_(*xs)
    if is_const(c):
        return const(bool(cval(c)))
    if ndim(c) == 0 and tm.is_boolish(c):
        return c
    d = cdims(I.shape(st, v)) if I.ctx.get("exact") else None
    if d and 0 < _prod(d) <= 400:
        xs = [boolish(x) for x in nested(I, c, d)]
        if all(ndim(x) == 0 for x in xs):
            out = or_(*xs) if name == "any" else and_(*xs)
            if out is TRUE or out is FALSE:
                return out
    return mk("fn", name, (c,))


# ------------------------------------------------------------------ products
def matmul(I, st, args, kw, node):
    a, b = args[0], args[1]
    ca, cb = I.content(st, a), I.content(st, b)
    sa, sb = I.shape(st, a), I.shape(st, b)
    axes = kw.get("axes")
    opaque = lambda: I.new_arr(st, mk("fn", "matmul", (ca, cb) + ((I.content(st, axes),) if axes is not None else ())), NONE, joint(I, st, args[:2]))
    if sa.op != "tuple" or sb.op != "tuple":
        return opaque()
    ra, rb = len(sa.args[0]), len(sb.args[0])
    if axes is not None:
        try:
            ax = [[num(z) for z in I.iter_items(st, y)] for y in I.iter_items(st, axes)]
            (m, k), (k2, n), (om, on) = ax
        except Exception:
            return opaque()
    else:
        if ra == 1 and rb == 1:
            return dot1(I, st, ca, cb, sa, sb)
        if ra == 2 and rb == 1 or ra == 1 and rb == 2:
            da, db = cdims(sa), cdims(sb)
            if da is None or db is None:
                return opaque()
            if ra == 2:
                if da[1] != db[0]:
                    I.event("broadcast", node, st, a=sa, b=sb, what="matmul")
                    I.raise_exc(st, "ValueError", node, implicit=True)
                r = [add(*[mul(sel(ca, (const(i), const(j))), sel(cb, (const(j),))) for j in range(da[1])]) for i in range(da[0])]
                return I.new_arr(st, mk("stack", tuple(r)), tup(const(da[0])), joint(I, st, args[:2]))
            r = [add(*[mul(sel(ca, (const(j),)), sel(cb, (const(j), const(i)))) for j in range(da[0])]) for i in range(db[1])]
            return I.new_arr(st, mk("stack", tuple(r)), tup(const(db[1])), joint(I, st, args[:2]))
        m, k, k2, n, om, on = -2, -1, -2, -1, -2, -1
    if ra < 2 or rb < 2:
        return opaque()
    m, k = m % ra, k % ra
    k2, n = k2 % rb, n % rb
    dk, dk2, dm, dn = sa.args[0][k], sb.args[0][k2], sa.args[0][m], sb.args[0][n]
    diff = sub(dk, dk2)
    if is_num(diff) and num(diff) != 0:
        I.event("broadcast", node, st, a=sa, b=sb, what="matmul: contracted axes have different lengths")
        I.raise_exc(st, "ValueError", node, implicit=True)
    if not all(is_int_const(x) and num(x) <= 16 for x in (dk, dm, dn)):
        return opaque()
    la = [d for q, d in enumerate(sa.args[0]) if q not in (m, k)]
    lb = [d for q, d in enumerate(sb.args[0]) if q not in (k2, n)]
    lsh = I.bshape(st, mk("tuple", tuple(la)), mk("tuple", tuple(lb)), node)
    ro = max(ra, rb)
    om, on = om % ro, on % ro

    def el(c, r, x, xi, y, yi):
        idx = [FULL] * r
        idx[x] = const(xi)
        idx[y] = const(yi)
        return sel(c, tuple(idx))
    M, K, N = num(dm), num(dk), num(dn)
    prod = [[None] * N for _ in range(M)]
    for i in range(M):
        for j in range(N):
            r = ZERO
            for q in range(K):
                r = ew("add", r, ew("mul", el(ca, ra, m, i, k, q), el(cb, rb, k2, q, n, j)))
            prod[i][j] = r
    if {om, on} == {0, 1}:
        rows = [[prod[i][j] for j in range(N)] for i in range(M)] if om == 0 else [[prod[i][j] for i in range(M)] for j in range(N)]
        return I.new_arr(st, mk("stack", tuple(mk("stack", tuple(r)) for r in rows)),
                         mk("tuple", ((dm, dn) if om == 0 else (dn, dm)) + lsh.args[0]), joint(I, st, args[:2]))
    if {om, on} == {ro - 2, ro - 1} and not la and not lb:
        return opaque()
    return opaque()


def dot1(I, st, ca, cb, sa, sb):
    d = sa.args[0][0]
    if is_int_const(d) and num(d) <= 64:
        return add(*[mul(sel(ca, (const(k),)), sel(cb, (const(k),))) for k in range(num(d))])
    return mk("fn", "dot", (ca, cb))


def einsum(I, st, args, kw, node):
    spec = args[0]
    ops = args[1:]
    opaque = lambda: I.new_arr(st, mk("fn", "einsum", (spec,) + tuple(I.content(st, o) for o in ops)))
    if not is_str(spec):
        return opaque()
    s = cval(spec).replace(" ", "")
    if "->" not in s:
        return opaque()
    lhs, out = s.split("->")
    ins = lhs.split(",")
    if len(ins) != len(ops):
        return opaque()
    dims, tails = {}, []
    for t, o in zip(ins, ops):
        sh = I.shape(st, o)
        if sh.op != "tuple":
            return opaque()
        letters = t.replace("...", "")
        for q, ch in enumerate(letters):
            if "..." in t and t.index("...") <= q:
                return opaque()
            if q < len(sh.args[0]):
                dims.setdefault(ch, sh.args[0][q])
    if not all("..." in t for t in ins + [out]):
        # trailing letters with symbolic length act element-wise
        tail = ""
        while out and all(t.endswith(out[len(out) - len(tail) - 1:]) for t in ins if len(t) > len(tail)) and len(tail) < len(out):
            ch = out[len(out) - len(tail) - 1]
            if is_int_const(dims.get(ch, NONE)):
                break
            tail = ch + tail
        cut = len(tail)
        ins = [t[:len(t) - cut] for t in ins]
        out = out[:len(out) - cut]
    else:
        ins = [t.replace("...", "") for t in ins]
        out = out.replace("...", "")
    letters = sorted(set("".join(ins)) | set(out))
    if not all(is_int_const(dims.get(ch, NONE)) and num(dims[ch]) <= 16 for ch in letters):
        return opaque()
    import itertools
    contracted = [ch for ch in letters if ch not in out]
    cs = [I.content(st, o) for o in ops]

    def value(asg):
        tot = ZERO
        for pos in itertools.product(*[range(num(dims[ch])) for ch in contracted]):
            a = dict(asg)
            a.update(zip(contracted, pos))
            p = ONE
            for t, c in zip(ins, cs):
                p = ew("mul", p, sel(c, tuple(const(a[ch]) for ch in t)))
            tot = ew("add", tot, p)
        return tot
    elems = [value(dict(zip(out, pos))) for pos in itertools.product(*[range(num(dims[ch])) for ch in out])]
    sh0 = I.shape(st, ops[0])
    rest = sh0.args[0][len(ins[0]):]
    return I.new_arr(st, build(elems, [num(dims[ch]) for ch in out]), mk("tuple", tuple(dims[ch] for ch in out) + tuple(rest)))


# ------------------------------------------------------------------ creation
def np_array(I, st, args, kw, node, copy=True):
    v = I.simp(st, args[0])
    dt = arg(args, kw, 1, "dtype")
    cp = kw.get("copy", TRUE if copy else FALSE)
    if v.op == "ite" and I.is_arr(st, v):
        return I.cases(st, v, lambda s, x: np_array(I, s, [x] + list(args[1:]), kw, node, copy))
    if v.op == "ref" and I.obj(st, v).kind in ("arr", "view"):
        old = I.dtype(st, v)
        if cp is FALSE and (dt is NONE or dt is old):
            return v
        c = I.content(st, v)
        return I.new_arr(st, convert(c, dt), I.shape(st, v), dt if dt is not NONE else old)
    if v.op == "ref" and I.obj(st, v).kind == "inst":
        return I.new_arr(st, mk("fn", "array", (v,)))
    if v.op == "fn" and v.args[0] == "pil":
        return I.new_arr(st, v.args[1][0], v.args[1][1], dt)
    src = find_pil(v)
    if src is not None:
        t = mk("fn", "pilarr", (v,))
        if v.args[0] == "call" and v.args[1][0].op == "fn" and v.args[1][0].args[0] == "meth" and v.args[1][0].args[1][0] is src and \
                v.args[1][0].args[1][1] is const("rotate") and not any(
                    x.op == "tuple" and x.args[0] and x.args[0][0] in (const("expand"), const("fillcolor")) for x in v.args[1][1:]) and len(v.args[1]) <= 3:
            t = mk("fn", "pilrotate", (src.args[1][0],) + tuple(v.args[1][1:]))
        return I.new_arr(st, t, src.args[1][1], dt)
    if v.op == "ref" and I.obj(st, v).kind in ("dict", "hdr", "file", "hul"):
        return I.new_arr(st, mk("fn", "array", (I.content(st, v),)))
    if v.op in ("range", "zip", "enum", "rev"):
        items = I.iter_items(st, v)
        if items is not None:
            v = mk("tuple", tuple(items))
        elif v.op == "range":
            return np_arange(I, st, list(v.args), {}, node)
    c = I.content(st, v)
    items = I.iter_items(st, v) if is_seq(I, st, v) else None
    if items:
        if any(x.op == "fn" and x.args[0] in ("bslice", "bytes") for x in items):
            I.event("bytesarray", node, st)
            return I.new_list(st, [mk("fn", "nulstripped", (x,)) for x in items])
        if dkind(dt) == "o":
            rows = [I.iter_items(st, x) if is_seq(I, st, x) else None for x in items]
            if all(r is not None and len(r) == len(rows[0]) for r in rows):
                def whole(y):
                    d = cdims(I.shape(st, y)) if I.is_arr(st, y) else None
                    cy = I.content(st, y)
                    return build(nested(I, cy, d), d) if d and 0 < _prod(d) <= 4096 else cy
                return I.new_arr(st, mk("stack", tuple(mk("stack", tuple(whole(y) for y in r)) for r in rows)),
                                 tup(const(len(rows)), const(len(rows[0]))), dt)
        s0 = I.shape(st, items[0])
        for x in items[1:]:
            s1 = I.shape(st, x)
            if s0.op == "tuple" and s1.op == "tuple" and dkind(dt) != "o":
                bad = len(s0.args[0]) != len(s1.args[0])
                for p, q in zip(s0.args[0], s1.args[0]):
                    d = sub(p, q)
                    if is_num(d) and num(d) != 0:
                        bad = True
                if bad:
                    I.event("broadcast", node, st, a=s0, b=s1, what="inhomogeneous array elements")
                    I.raise_exc(st, "ValueError", node, implicit=True)
    if c.op == "lmap" and c.args[0].op == "fn" and c.args[0].args[0] in ("bslice", "bytes"):
        I.event("bytesarray", node, st)
        return I.new_list(st, mk("lmap", mk("fn", "nulstripped", (c.args[0],)), c.args[1], c.args[2]))
    sh = I.shape(st, v)
    if c.op == "lmap":
        e = c.args[0]
        ne = ndim(e)
        sh = NONE
        if ne is not None:
            es = I.shape(st, e)
            sh = mk("tuple", (c.args[2],) + (es.args[0] if es.op == "tuple" else ()))
            if ne > 0 and any(d.op == "fn" and d.args[0] == "dim" for d in sh.args[0][1:]):
                pass
    if dt is NONE and items:
        dt = joint(I, st, items)
    return I.new_arr(st, convert(c, dt), sh, dt)


def joint(I, st, xs):
    """element type of an array made of several"""
    if I.floats(st, xs):
        return mk("ext", "builtins.float")
    ds = {I.dtype(st, x) for x in xs if I.is_arr(st, x)}
    return ds.pop() if len(ds) == 1 and all(I.is_arr(st, x) for x in xs) else NONE


def find_pil(v):
    if v.op != "fn":
        return None
    for x in tm.atoms(v):
        if x.op == "fn" and x.args[0] == "pil":
            # a rotation keeps the size unless expand is requested
            return x
    return None


def np_arange(I, st, args, kw, node):
    a = [I.content(st, x) for x in args]
    lo, hi, step = ZERO, None, ONE
    if len(a) == 1:
        hi = a[0]
    elif len(a) >= 2:
        lo, hi = a[0], a[1]
        if len(a) > 2:
            step = a[2]
    else:
        hi = kw.get("stop", NONE)
        lo = kw.get("start", ZERO)
    step = kw.get("step", step)
    if all(is_int_const(x) for x in (lo, hi, step)) and num(step):
        r = range(num(lo), num(hi), num(step))
        if len(r) <= 64:
            return I.new_arr(st, mk("stack", tuple(const(x) for x in r)), tup(const(len(r))))
    n = sub(hi, lo) if step is ONE else ceildiv(sub(hi, lo), step)
    return I.new_arr(st, mk("fn", "arange", (lo, step)), tup(n))


def meshgrid(I, st, args, kw, node):
    if len(args) == 2:
        cs = [I.content(st, a) for a in args]
        ss = [I.shape(st, a) for a in args]
        ij = kw.get("indexing")
        for k, x in enumerate(cs):      # an explicit arithmetic progression
            if x.op == "stack" and len(x.args[0]) > 1 and all(is_int_const(y) for y in x.args[0]):
                v = [num(y) for y in x.args[0]]
                if all(v[j + 1] - v[j] == v[1] - v[0] for j in range(len(v) - 1)):
                    cs[k] = mk("fn", "arange", (const(v[0]), const(v[1] - v[0])))
        order = (COORDX, COORDY) if not (ij is not None and is_str(ij) and cval(ij) == "ij") else (COORDY, COORDX)
        if all(c.op == "fn" and c.args[0] == "arange" for c in cs) and all(s.op == "tuple" for s in ss):
            sh = tup(ss[1].args[0][0], ss[0].args[0][0]) if order[0] is COORDX else tup(ss[0].args[0][0], ss[1].args[0][0])
            g = [add(c.args[1][0], mul(c.args[1][1], o)) for c, o in zip(cs, order)]
            return tup(*[I.new_arr(st, x, sh) for x in g])
    return tup(*[I.new_arr(st, mk("fn", "meshgrid", (const(k),) + tuple(I.content(st, a) for a in args))) for k in range(len(args))])


def grid_getitem(I, st, name, i, node):
    comps = list(i.args[0]) if i.op == "tuple" else [i]
    if len(comps) == 2 and all(c.op == "sl" for c in comps):
        los = [ZERO if c.args[0] is NONE else c.args[0] for c in comps]
        sh = tup(sub(comps[0].args[1], los[0]), sub(comps[1].args[1], los[1])) if all(c.args[1] is not NONE for c in comps) else NONE
        ys, xs = add(los[0], COORDY), add(los[1], COORDX)
        if name == "ogrid" and sh.op == "tuple":
            return tup(I.new_arr(st, ys, tup(sh.args[0][0], ONE)), I.new_arr(st, xs, tup(ONE, sh.args[0][1])))
        a = I.new_arr(st, mk("stack", (ys, xs)), mk("tuple", (const(2),) + sh.args[0]) if sh.op == "tuple" else NONE)
        return a
    return I.new_arr(st, mk("fn", name, (I.content(st, i),)))


def raw(I, st, buf, dt, shape, node):
    b = I.content(st, buf)
    return I.new_arr(st, mk("fn", "rawdata", (b, const(dname(dt)) if dt is not NONE else NONE)), shape, dt)


def by_leaf(I, c, s, lead, f):
    """f applied to every sub-array behind the leading dimensions (None if their number is unknown)"""
    if lead == 0:
        return f(c)
    d = cdims(mk("tuple", s.args[0][:lead]))
    if d is None or not d or _prod(d) > 64 or _prod(d) == 0:
        return None
    return build([f(x) for x in nested(I, c, d)], d)


def flipped(I, st, c, s, ax):
    r = len(s.args[0]) if s.op == "tuple" else None
    if r == 1 and c.op == "stack" and (ax is NONE or is_int_const(ax)):
        return mk("stack", c.args[0][::-1])
    axes = list(range(r)) if ax is NONE and r else [num(ax)] if is_int_const(ax) else [num(x) for x in ax.args[0]] if ax.op == "tuple" and all(is_int_const(x) for x in ax.args[0]) else None
    if r is None or r < 2 or axes is None:
        return mk("fn", "flip", (c, ax))
    axes = sorted({a % r for a in axes})
    lead = r - 2
    front = [a for a in axes if a < lead]
    back = [a - lead for a in axes if a >= lead]
    d = cdims(mk("tuple", s.args[0][:lead])) if lead else []
    if d is None or _prod(d) > 64:
        return mk("fn", "flip", (c, ax))
    def leaf(x):
        for a in back:
            x = x.args[1][0] if x.op == "fn" and x.args[0] == "flip" and x.args[1][1] is const(a) else mk("fn", "flip", (x, const(a)))
        return x
    t = by_leaf(I, c, s, lead, leaf)

    def rev(t, k):
        if k == lead or t.op != "stack":
            return t
        xs = tuple(rev(x, k + 1) for x in t.args[0])
        return mk("stack", xs[::-1] if k in front else xs)
    return rev(t, 0) if front else t


# ------------------------------------------------------------------ dispatcher
def np_call(I, st, d, args, kw, node):
    name = d.split(".", 1)[1] if d.startswith("numpy.") else d.split(".")[-1]
    args = [I.simp(st, a) for a in args]
    if name.startswith("ma.") or name.startswith("random."):
        return fresh("np." + name)
    base = name.split(".")[-1]
    if name.startswith("linalg."):
        if base in ("pinv", "inv") and args:
            s = I.shape(st, args[0])
            ns = mk("tuple", s.args[0][:-2] + (s.args[0][-1], s.args[0][-2])) if s.op == "tuple" and len(s.args[0]) >= 2 else NONE
            cut = tuple(I.content(st, x) for x in list(args[1:2]) + [kw[k] for k in ("rcond", "rtol") if k in kw] if x is not NONE)
            if all(is_num(x) and abs(x.args[0]) <= Fraction(1, 10**12) for x in cut):
                cut = ()
            m = mk("fn", base, (I.content(st, args[0]),) + cut)
            d = cdims(ns)
            if d and _prod(d) <= 64 and len(d) == 2:
                m = build([mk("sel", m, (const(i), const(j))) for i in range(d[0]) for j in range(d[1])], d)
            return I.new_arr(st, m, ns)
        return I.new_arr(st, mk("fn", "np." + name, tuple(I.content(st, a) for a in args))) if base != "LinAlgError" else fresh(name)
    if d == "scipy.linalg.pinv":
        return np_call(I, st, "numpy.linalg.pinv", args, kw, node)
    if base == "reduce" and name.split(".")[0] in ("add", "multiply", "maximum", "minimum", "logical_and", "logical_or", "bitwise_and", "bitwise_or") and args and not set(kw) - {"axis"}:
        items = I.iter_items(st, args[0])
        if items and arg(args, kw, 1, "axis", ZERO) is ZERO and len(args) <= 2:
            r = items[0]
            for x in items[1:]:
                r = np_call(I, st, "numpy." + name.split(".")[0], [r, x], {}, node)
            return r
    name = base
    if name in UF:
        u = UF[name]
        a = list(args)
        nin = 1 if u in ("neg", "sqrt", "square", "abs", "deg2rad", "rad2deg", "not", "cos", "sin", "tan", "arctan", "exp", "log", "isnan",
                         "isfinite", "sign", "floor", "ceil", "round", "arcsin", "arccos", "pos") else 2
        out = kw.get("out")
        if len(a) > nin and name not in ("round", "around"):
            out = a[nin]
        if out is not None and out.op == "tuple" and out.args[0]:
            out = out.args[0][0]
        if out is NONE:
            out = None
        a = a[:nin]
        if u in ("add", "sub", "mul", "div", "floordiv", "pow", "sqrt", "square", "abs", "cos", "sin", "hypot", "arctan2"):
            for x in a:
                if x is NONE or x.op == "other" or (x.op == "const" and isinstance(cval(x), str)):
                    I.raise_exc(st, "TypeError", node)
        if u in ("cos", "sin", "tan"):
            I.event("trig", node, st, name=u, arg=I.content(st, a[0]))
        elif u in ("arctan2", "arctan", "arcsin", "arccos"):
            I.event("arctrig", node, st, name=u)
        if u == "pos":
            return a[0]
        if u in ("and", "or", "not"):
            cs = [boolish(I.content(st, x)) for x in a]
            r = ew(u, *cs)
            arrs = [x for x in a if I.is_arr(st, x)]
            if out is not None:
                I.write_content(st, out, r, node)
                return out
            if not arrs:
                return r
            sh = NONE
            for x in arrs:
                s = I.shape(st, x)
                sh = s if sh is NONE else (I.bshape(st, sh, s, node) if s.op == "tuple" and sh.op == "tuple" else sh)
            return I.new_arr(st, r, sh)
        w = kw.get("where")
        if w is not None:
            wc = I.content(st, w)
            if wc is TRUE:
                w = None
            elif wc.op == "const" and cval(wc) is not False:
                w = None
        return I.elementwise(st, u, a, node, out=out, where=w, dtype=kw.get("dtype", NONE))
    if name in BITS:
        return I.binop(st, BITS[name], args[0], args[1], node)
    if name in ("array", "asarray", "ascontiguousarray", "asfortranarray", "asanyarray", "copy", "asarray_chkfinite", "require"):
        return np_array(I, st, args, kw, node, copy=name in ("array", "copy"))
    if name in ("zeros", "ones", "empty", "full"):
        sh = shape_arg(I, st, arg(args, kw, 0, "shape"))
        if name == "full":
            v = I.content(st, arg(args, kw, 1, "fill_value"))
            dt = arg(args, kw, 2, "dtype")
        else:
            dt = arg(args, kw, 1, "dtype")
            v = ZERO if name == "zeros" else ONE if name == "ones" else uninit(node, "empty")
            dt = mk("ext", "builtins.float") if dt is NONE else dt
        if dkind(dt) == "b" and name != "empty":
            v = boolish(v)
        if name == "full":
            v = filled(I, st, v, dt, node)
        return I.new_arr(st, v, sh, dt)
    if name in ("zeros_like", "ones_like", "empty_like", "full_like"):
        src = args[0]
        sh = kw.get("shape")
        sh = shape_arg(I, st, sh) if sh is not None else I.shape(st, src)
        v = {"zeros_like": ZERO, "ones_like": ONE}.get(name)
        if name == "full_like":
            v = I.content(st, arg(args, kw, 1, "fill_value"))
        if name == "empty_like":
            v = uninit(node, "empty")
        dt = kw.get("dtype", NONE)
        if dt is NONE:
            dt = I.dtype(st, src)
        if name == "full_like":
            v = filled(I, st, v, dt, node)
        return I.new_arr(st, v, sh, dt)
    if name == "where":
        if len(args) == 1 and not kw:
            c = I.content(st, args[0])
            e = exact_search(I, st, "nonzero", c, I.shape(st, args[0]), (), kw)
            if e is not None:
                return e
            nd = ndim(c)
            if nd is None:
                s = I.shape(st, args[0])
                nd = len(s.args[0]) if s.op == "tuple" else 1
            return tup(*[I.new_arr(st, mk("fn", "nonzero", (c, const(k)))) for k in range(max(nd, 1))])
        a = list(args) + [kw[k] for k in ("x", "y") if k in kw]
        cs = I.align(st, a, [I.content(st, x) for x in a])
        c0 = cs[0]
        if c0.op not in ("stack", "inter", "ite"):
            c0 = boolish(c0)
        if c0.op == "ite" or any(x.op == "ite" for x in cs[1:]):
            r = tm.apply_cases(c0, lambda q: where_(boolish(q), cs[1], cs[2]))
        else:
            r = where_(c0, cs[1], cs[2])
        sh = NONE
        for x in a:
            s = I.shape(st, x)
            if s.op == "tuple":
                sh = s if sh is NONE else I.bshape(st, sh, s, node)
            else:
                sh = NONE
                break
        if sh is NONE:
            for x in a[1:]:
                s = I.shape(st, x)
                if s.op == "tuple" and s.args[0]:
                    sh = s
        d = cdims(sh)
        if I.ctx.get("exact") and d and len(d) > 1 and 0 < _prod(d) <= 400:
            ds = [cdims(I.shape(st, x)) for x in a]
            if all(q is not None and q in ([], d) for q in ds):
                at = lambda x, q, ix: sel(x, ix) if q else x
                import itertools
                es = [tm.where(boolish(at(cs[0], ds[0], ix)), at(cs[1], ds[1], ix), at(cs[2], ds[2], ix))
                      for ix in (tuple(const(k) for k in kk) for kk in itertools.product(*[range(n) for n in d]))]
                r = build(es, d)
        return I.new_arr(st, r, sh, joint(I, st, a[1:]))
    if name in ("any", "all", "alltrue", "sometrue"):
        return anyall(I, st, {"alltrue": "all", "sometrue": "any"}.get(name, name), args[0], kw, args[1:])
    if name in RED:
        return reduce_(I, st, name, arg(args, kw, 0, "a"), args[1:], kw, node)
    if name in ("matmul", "dot"):
        return matmul(I, st, args, kw, node)
    if name == "einsum":
        return einsum(I, st, args, kw, node)
    if name == "clip":
        v = args[0]
        lo = arg(args, kw, 1, "a_min", kw.get("min", NONE))
        hi = arg(args, kw, 2, "a_max", kw.get("max", NONE))
        out = kw.get("out")
        r = v
        if lo is not NONE:
            r = I.elementwise(st, "max", [r, lo], node)
        if hi is not NONE:
            r = I.elementwise(st, "min", [r, hi], node)
        if out is not None and out is not NONE:
            I.write_content(st, out, I.content(st, r), node)
            return out
        return r
    if name == "isin" or name == "in1d":
        a, b = I.iter_items(st, args[0]), I.iter_items(st, args[1])
        if a is None and is_const(args[0]):
            a = [args[0]]
        if a is not None and b is not None and all(is_const(x) for x in a + b):
            bs = {cval(x) for x in b}
            return I.new_arr(st, mk("stack", tuple(TRUE if cval(x) in bs else FALSE for x in a)), tup(const(len(a))))
        if a is not None and b is not None and all(ndim(x) == 0 for x in a + b):
            return I.new_arr(st, mk("stack", tuple(or_(*[cmp("eq", x, y) for y in b]) for x in a)), tup(const(len(a))))
        return I.new_arr(st, mk("fn", "isin", (I.content(st, args[0]), I.content(st, args[1]))), I.shape(st, args[0]))
    if name in ("array_equal", "allclose", "array_equiv"):
        a, b = I.content(st, args[0]), I.content(st, args[1])
        sa, sb = I.shape(st, args[0]), I.shape(st, args[1])
        if name == "array_equal" and sa.op == "tuple" and sb.op == "tuple":
            if len(sa.args[0]) != len(sb.args[0]):
                return FALSE
            da, db = cdims(sa), cdims(sb)
            if da is not None and db is not None:
                if da != db:
                    return FALSE
                if _prod(da) <= 64:
                    return and_(*[cmp("eq", x, y) for x, y in zip(nested(I, a, da), nested(I, b, da))])
            elif a is b and sa is sb:
                return TRUE
        elif a is b:
            return TRUE
        return mk("fn", "truth", (mk("fn", name, (a, b)),))
    if name == "isclose":
        return I.new_arr(st, mk("fn", "isclose", (I.content(st, args[0]), I.content(st, args[1]))), I.shape(st, args[0]))
    if name == "expand_dims":
        ax = arg(args, kw, 1, "axis", ZERO)
        c, s = I.content(st, args[0]), I.shape(st, args[0])
        if ax is ZERO:
            return I.new_arr(st, mk("stack", (c,)), mk("tuple", (ONE,) + s.args[0]) if s.op == "tuple" else NONE)
        rank = len(s.args[0]) if s.op == "tuple" else None
        if is_int_const(ax) and rank is not None:
            p = num(ax) % (rank + 1)
            ns = mk("tuple", s.args[0][:p] + (ONE,) + s.args[0][p:])
            dims = s.args[0][:p]
            if all(is_int_const(x) for x in dims) and _prod([num(x) for x in dims]) <= 64:
                ds = [num(x) for x in dims]
                return I.new_arr(st, build([mk("stack", (x,)) for x in nested(I, c, ds)], ds), ns)
            return I.new_arr(st, mk("fn", "expand", (c, ax)), ns)
        return I.new_arr(st, mk("fn", "expand", (c, I.content(st, ax))))
    if name == "squeeze":
        return arr_method(I, st, args[0], "squeeze", args[1:], kw, node)
    if name == "repeat":
        ax = arg(args, kw, 2, "axis")
        return do_repeat(I, st, args[0], arg(args, kw, 1, "repeats"), ax, node)
    if name == "kron":
        a, b = args[0], args[1]
        cb, sb = I.content(st, b), I.shape(st, b)
        c, s = I.content(st, a), I.shape(st, a)
        if cb in (ONE, TRUE) and len(cdims(sb) or ()) == 2 and s.op == "tuple" and len(s.args[0]) == 2 and (tm.is_boolish(c) or cdims(sb) != [2, 2]):
            if tm.is_boolish(c) and cb is ONE:
                a = I.new_arr(st, where(c, ONE, ZERO), s)
            return do_repeat(I, st, do_repeat(I, st, a, const(cdims(sb)[0]), ZERO, node), const(cdims(sb)[1]), ONE, node)
        if cb is ONE and cdims(sb) == [2, 2]:
            ns = tup(mul(s.args[0][0], const(2)), mul(s.args[0][1], const(2))) if s.op == "tuple" and len(s.args[0]) == 2 else NONE
            return I.new_arr(st, mk("inter", (c, c, c, c)) if ndim(c) != 0 else c, ns)
    if name == "tile":
        n = arg(args, kw, 1, "reps")
        reps = I.iter_items(st, n)
        c, s = I.content(st, args[0]), I.shape(st, args[0])
        rank = len(s.args[0]) if s.op == "tuple" else ndim(c)
        if reps and all(is_int_const(x) for x in reps) and rank is not None and len(reps) == rank + 1 and all(num(x) == 1 for x in reps[1:]):
            return I.new_arr(st, mk("stack", tuple(c for _ in range(num(reps[0])))), mk("tuple", (reps[0],) + s.args[0]) if s.op == "tuple" else NONE)
        ns = NONE
        if reps and all(is_int_const(x) for x in reps) and s.op == "tuple" and len(reps) <= len(s.args[0]):
            reps = [ONE] * (len(s.args[0]) - len(reps)) + list(reps)
            ns = tup(*[mul(a, b) for a, b in zip(s.args[0], reps)])
            if all(x is ONE for x in reps) or ndim(c) == 0:
                return I.new_arr(st, c, ns, I.dtype(st, args[0]) if I.is_arr(st, args[0]) else None)
            d = cdims(s)
            if c.op == "stack" and d and _prod(d) * _prod([num(x) for x in reps]) <= 4096:
                def tiled(x, k):
                    if k == len(d):
                        return x
                    part = [tiled(sel(x, (const(q),)) if x.op != "stack" else x.args[0][q], k + 1) for q in range(d[k])]
                    return mk("stack", tuple(part * num(reps[k])))
                return I.new_arr(st, tiled(c, 0), ns)
        return I.new_arr(st, mk("fn", "tile", (c, I.content(st, n))), ns)
    if name in ("stack",):
        ax = arg(args, kw, 1, "axis", ZERO)
        if ax is ZERO:
            return np_array(I, st, [args[0]], {}, node)
        items = I.iter_items(st, args[0])
        return I.new_arr(st, mk("fn", "stackax", (I.content(st, args[0]), I.content(st, ax))))
    if name in ("vstack", "hstack", "concatenate", "row_stack", "column_stack", "append", "dstack"):
        return concat(I, st, name, args, kw, node)
    if name == "pad":
        return np_pad(I, st, args, kw, node)
    if name == "arange":
        return np_arange(I, st, args, kw, node)
    if name == "meshgrid":
        return meshgrid(I, st, args, kw, node)
    if name == "indices":
        sh = shape_arg(I, st, args[0])
        if sh.op == "tuple" and len(sh.args[0]) == 2:
            return I.new_arr(st, mk("stack", (COORDY, COORDX)), mk("tuple", (const(2),) + sh.args[0]))
    if name == "linspace" and len(args) >= 2 and "axis" not in kw and "retstep" not in kw:
        lo, hi = I.content(st, args[0]), I.content(st, args[1])
        n = I.simp(st, arg(args, kw, 2, "num", const(50)))
        end = arg(args, kw, 3, "endpoint", TRUE)
        if ndim(lo) == 0 and ndim(hi) == 0 and n is not NONE and is_const(end):
            k = sub(n, ONE) if end.args[0] else n
            step = ZERO if k is ZERO else div(sub(hi, lo), k) if is_int_const(k) or not end.args[0] else ite(cmp("==", n, ONE), ZERO, div(sub(hi, lo), k))
            return I.new_arr(st, mk("fn", "arange", (lo, step)), tup(n))
    if name == "linspace":
        return I.new_arr(st, mk("fn", "linspace", tuple(I.content(st, a) for a in args)))
    if name == "rot90":
        k = arg(args, kw, 1, "k", ONE)
        ax = arg(args, kw, 2, "axes")
        ax = tup(ZERO, ONE) if ax is NONE else mk("tuple", tuple(I.iter_items(st, ax) or ()))
        c, s = I.content(st, args[0]), I.shape(st, args[0])
        if is_int_const(k) and s.op == "tuple" and len(ax.args[0]) == 2 and all(is_int_const(x) for x in ax.args[0]):
            r, kk = len(s.args[0]), num(k) % 4
            a, b = (num(x) % r for x in ax.args[0])
            if kk == 0:
                return I.new_arr(st, c, s)
            ns = list(s.args[0])
            if kk % 2:
                ns[a], ns[b] = ns[b], ns[a]
            if (b, a) == (r - 2, r - 1):
                a, b, kk = b, a, (4 - kk) % 4
            if (a, b) == (r - 2, r - 1):
                t = by_leaf(I, c, s, r - 2, lambda x: mk("fn", "rot90", (x, const(kk))))
                if t is not None:
                    return I.new_arr(st, t, mk("tuple", tuple(ns)))
        if ax is tup(ZERO, ONE) and s.op != "tuple":
            return I.new_arr(st, mk("fn", "rot90", (c, I.content(st, k))))
        return I.new_arr(st, mk("fn", "rot90axes", (c, I.content(st, k), ax)))
    if name in ("flip", "fliplr", "flipud", "roll"):
        c, s = I.content(st, args[0]), I.shape(st, args[0])
        if name == "roll":
            t = mk("fn", "roll", (c, I.content(st, arg(args, kw, 1, "shift")), I.content(st, arg(args, kw, 2, "axis"))))
        else:
            ax = {"fliplr": ONE, "flipud": ZERO}.get(name) or I.content(st, arg(args, kw, 1, "axis"))
            t = flipped(I, st, c, s, ax)
        return I.new_arr(st, t, s)
    if name == "transpose":
        ax = arg(args, kw, 1, "axes")
        return transpose(I, st, args[0], None if ax is NONE else I.iter_items(st, ax))
    if name == "swapaxes" or name == "moveaxis":
        s = I.shape(st, args[0])
        if s.op == "tuple" and all(is_int_const(x) for x in args[1:3]):
            r = len(s.args[0])
            a, b = num(args[1]) % r, num(args[2]) % r
            ax = list(range(r))
            if name == "swapaxes":
                ax[a], ax[b] = ax[b], ax[a]
            else:
                ax.remove(a)
                ax.insert(b, a)
            return transpose(I, st, args[0], [const(x) for x in ax])
    if name == "reshape":
        dims = arg(args, kw, 1, "newshape", kw.get("shape", NONE))
        sh = shape_arg(I, st, dims)
        if sh.op == "tuple":
            return do_reshape(I, st, args[0], list(sh.args[0]), node, kw.get("order", NONE))
    if name in ("ravel",):
        return arr_method(I, st, args[0], "ravel", [], kw, node)
    if name == "histogram":
        hook = I.ctx.get("histogram")
        if hook is not None:
            counts, edges = hook(I, st, I.content(st, args[0]), arg(args, kw, 1, "bins", const(10)), {k: I.content(st, v) for k, v in kw.items() if k != "bins"})
            return tup(I.new_arr(st, mk("stack", tuple(counts)), tup(const(len(counts))), const("int64")),
                       I.new_arr(st, mk("stack", tuple(edges)), tup(const(len(edges))), const("float64")))
        cs = tuple(I.content(st, a) for a in args) + tuple(tup(const(k), I.content(st, v)) for k, v in sorted(kw.items()))
        return tup(I.new_arr(st, mk("fn", "histcounts", cs)), I.new_arr(st, mk("fn", "histedges", cs)))
    if name == "ndarray":
        sh = shape_arg(I, st, arg(args, kw, 0, "shape"))
        buf = arg(args, kw, 2, "buffer")
        dt = arg(args, kw, 1, "dtype")
        if buf is NONE:
            return I.new_arr(st, uninit(node, "ndarray"), sh, dt)
        off = arg(args, kw, 3, "offset", ZERO)
        order = kw.get("order", const("C"))
        if off is not ZERO and off is not NONE or (is_str(order) and cval(order) != "C"):
            return I.new_arr(st, mk("fn", "rawdata", (I.content(st, buf), const(dname(dt)), off, order)), sh, dt)
        return raw(I, st, buf, dt, sh, node)
    if name == "frombuffer":
        dt = arg(args, kw, 1, "dtype")
        extra = [kw[k] for k in ("count", "offset") if k in kw]
        b = I.content(st, args[0])
        n = mk("fn", "len", (b,))
        if b.op == "fn" and dname(dt) in ("uint8", "u1", "B"):
            return I.new_arr(st, mk("fn", "bytestream", (b,)), tup(n), dt)
        count = arg(args, kw, 2, "count")
        if count is not NONE and arg(args, kw, 3, "offset", ZERO) is ZERO and not (is_int_const(count) and num(count) < 0):
            return raw(I, st, args[0], dt, tup(count), node)
        if extra:
            return I.new_arr(st, mk("fn", "rawdata", (b, const(dname(dt))) + tuple(extra)), tup(mk("fn", "floordiv", (n, const(2)))), dt)
        return raw(I, st, args[0], dt, tup(tm.floordiv(n, const(2))), node)
    if name == "fromfile":
        dt = arg(args, kw, 1, "dtype")
        f = args[0]
        src = I.obj(st, f).f["src"] if f.op == "ref" and I.obj(st, f).kind == "file" else f
        I.event("readfile", node, st, src=src)
        b = mk("fn", "bytes", (src,))
        return I.new_arr(st, mk("fn", "rawdata", (b, const(dname(dt)))), tup(mk("fn", "len", (b,))), dt)
    if name == "copyto":
        dst, src = args[0], args[1]
        w = kw.get("where")
        c = I.content(st, src)
        if w is not None and I.content(st, w) is not TRUE:
            c = where(boolish(I.content(st, w)), c, I.content(st, dst))
        I.write_content(st, dst, c, node)
        return NONE
    if name in ("ndim",):
        s = I.shape(st, args[0])
        if s.op == "tuple":
            return const(len(s.args[0]))
    if name == "shape":
        return I.shape(st, args[0]) if I.shape(st, args[0]).op == "tuple" else mk("fn", "shape", (I.content(st, args[0]),))
    if name == "size":
        s = I.shape(st, args[0])
        if s.op == "tuple":
            return mul(*s.args[0]) if s.args[0] else ONE
    if name in ("float64", "float32", "float_", "double", "int64", "int32", "int_", "uint16", "uint8", "int16", "bool_", "intp", "float16"):
        if args and I.is_arr(st, args[0]):
            return arr_method(I, st, args[0], "astype", [mk("ext", d)], {}, node)
        if args:
            c = I.content(st, args[0])
            return tm.to_int(c) if "int" in name else single(c) if name in ("float32", "float16") else c
    if name == "dtype":
        return args[0]
    if name in ("isscalar",):
        c = I.content(st, args[0])
        if not I.is_arr(st, args[0]) and ndim(c) == 0:
            return TRUE
    if name in ("errstate", "seterr", "printoptions", "set_printoptions"):
        return fresh("npctx")
    if name == "nan_to_num":
        return I.new_arr(st, mk("fn", "nan_to_num", (I.content(st, args[0]),)), I.shape(st, args[0]))
    if name == "unpackbits" and args:
        return I.new_arr(st, mk("fn", "np.unpackbits", (I.content(st, args[0]),)))
    if name in ("nonzero", "argmax", "argmin", "flatnonzero"):
        e = exact_search(I, st, name, I.content(st, args[0]), I.shape(st, args[0]), args[1:], kw)
        if e is not None:
            return e
    if name in ("count_nonzero", "argmax", "argmin"):
        return mk("fn", name, (I.content(st, args[0]),))
    if name in ("nonzero", "argwhere", "flatnonzero", "unique", "sort", "argsort", "delete", "insert", "cumsum", "diff", "ediff1d",
                "interp", "gradient", "convolve", "outer", "trapz", "digitize", "bincount", "take", "select", "piecewise", "searchsorted",
                "block", "array_split", "split", "apply_along_axis", "vectorize", "fromfunction", "fromiter", "loadtxt", "genfromtxt", "load",
                "atleast_1d", "atleast_2d", "broadcast_to", "ma", "triu", "tril", "eye", "identity", "diag", "packbits", "ldexp"):
        cs = tuple(I.content(st, a) for a in args) + tuple(tup(const(k), I.content(st, v)) for k, v in sorted(kw.items()))
        if name == "broadcast_to" and len(args) > 1:
            sh = shape_arg(I, st, args[1])
            c = I.content(st, args[0])
            s0 = I.shape(st, args[0])
            if sh.op == "tuple" and s0.op == "tuple" and len(sh.args[0]) == len(s0.args[0]) + 1 and is_int_const(sh.args[0][0]) and num(sh.args[0][0]) <= 16:
                return I.new_arr(st, mk("stack", tuple(c for _ in range(num(sh.args[0][0])))), sh)
        return I.new_arr(st, mk("fn", "np." + name, cs))
    if name in ("save", "savetxt", "savez", "savez_compressed"):
        I.models.fs_effect(I, st, "write", args[0], node, data=I.content(st, args[1]) if len(args) > 1 else NONE, fits=False)
        return NONE
    cs = tuple(I.content(st, a) for a in args) + tuple(tup(const(k), I.content(st, v)) for k, v in sorted(kw.items()))
    t = mk("fn", "np." + name, cs)
    out = kw.get("out")
    if out is not None and I.is_arr(st, out):
        I.write_content(st, out, t, node)
        return out
    return t


def where_(c, a, b):
    return ew("where", c, a, b)


def uninit(node, what):
    from .repo import loc
    return mk("fn", "uninit", (const("%s@%s" % (what, loc(node) if node is not None else "?")),))


def concat(I, st, name, args, kw, node):
    items = I.iter_items(st, args[0]) if name != "append" else [args[0], args[1]]
    ax = ZERO
    if name in ("concatenate", "append"):
        ax = arg(args, kw, 1 if name == "concatenate" else 2, "axis", ZERO)
    elif name in ("hstack", "column_stack"):
        ax = ONE
    if items is None:
        return I.new_arr(st, mk("fn", name, (I.content(st, args[0]),)))
    ss = [I.shape(st, x) for x in items]
    cs = [I.content(st, x) for x in items]
    sh = NONE
    if all(s.op == "tuple" and s.args[0] for s in ss) and len({len(s.args[0]) for s in ss}) == 1:
        r = len(ss[0].args[0])
        if r == 1:
            ax = ZERO
        if is_int_const(ax):
            a = num(ax) % r
            if name == "vstack" and r == 1:
                return I.new_arr(st, mk("stack", tuple(cs)), mk("tuple", (const(len(cs)),) + ss[0].args[0]))
            d = list(ss[0].args[0])
            d[a] = add(*[s.args[0][a] for s in ss])
            sh = mk("tuple", tuple(d))
            if a == 0:
                parts = []
                for c, s in zip(cs, ss):
                    if c.op == "stack":
                        parts.extend(c.args[0])
                    elif is_int_const(s.args[0][0]) and num(s.args[0][0]) <= 16 and r > 2:
                        parts.extend(sel(c, (const(k),)) for k in range(num(s.args[0][0])))
                    else:
                        parts = None
                        break
                if parts is not None:
                    return I.new_arr(st, mk("stack", tuple(parts)), sh)
            return I.new_arr(st, mk("fn", "concat", (const(a),) + tuple(cs)), sh)
    return I.new_arr(st, mk("fn", name, tuple(cs) + (I.content(st, ax),)), sh)


def np_pad(I, st, args, kw, node):
    c, s = I.content(st, args[0]), I.shape(st, args[0])
    pw = I.iter_items(st, arg(args, kw, 1, "pad_width"))
    sh = NONE
    if pw is not None and s.op == "tuple" and len(pw) == len(s.args[0]):
        ds = []
        for d, p in zip(s.args[0], pw):
            q = I.iter_items(st, p)
            ds.append(add(d, *q) if q is not None else add(d, p, p))
        sh = mk("tuple", tuple(ds))
    elif s.op == "tuple" and len(args) > 1 and is_num(args[1]):
        sh = mk("tuple", tuple(add(d, args[1], args[1]) for d in s.args[0]))
    elif pw is not None and s.op == "tuple" and len(pw) == 2 and all(is_num(p) for p in pw):
        sh = mk("tuple", tuple(add(d, *pw) for d in s.args[0]))
    return I.new_arr(st, mk("fn", "pad", (c, I.content(st, arg(args, kw, 1, "pad_width")), I.content(st, arg(args, kw, 2, "mode")))), sh)


def arr_method(I, st, r, name, args, kw, node):
    args = [I.simp(st, a) for a in args]
    c = I.content(st, r)
    s = I.shape(st, r)
    if name == "copy":
        return I.new_arr(st, c, s, I.dtype(st, r))
    if name == "astype":
        dt = arg(args, kw, 0, "dtype")
        if kw.get("copy") is FALSE and (I.dtype(st, r) is dt) and r.op == "ref":
            return r
        return I.new_arr(st, convert(c, dt), s, dt)
    if name == "reshape":
        if len(args) == 1:
            sh = shape_arg(I, st, args[0])
            if sh.op != "tuple":
                if args[0].op == "fn" and args[0].args[0] == "shape" and args[0].args[1][0] is c:
                    return r
                return I.new_arr(st, mk("fn", "reshape", (c, I.content(st, args[0]))))
            dims = list(sh.args[0])
        else:
            dims = list(args)
        return do_reshape(I, st, r, dims, node, kw.get("order", NONE))
    if name in ("any", "all"):
        return anyall(I, st, name, r, kw, args)
    if name in RED:
        return reduce_(I, st, name, r, args, kw, node)
    if name == "repeat":
        return do_repeat(I, st, r, arg(args, kw, 0, "repeats"), arg(args, kw, 1, "axis"), node)
    if name == "transpose":
        ax = args if len(args) != 1 else (I.iter_items(st, args[0]) if args[0] is not NONE else None)
        return transpose(I, st, r, ax or None)
    if name == "swapaxes":
        return np_call(I, st, "numpy.swapaxes", [r] + args, kw, node)
    if name in ("flatten", "ravel"):
        if c.op == "fn" and c.args[0] in ("rawdata", "bytestream"):
            return I.new_arr(st, c, NONE, I.dtype(st, r))
        d = cdims(s)
        if d is not None and _prod(d) <= 256 and c.op == "stack":
            return I.new_arr(st, build(nested(I, c, d), [_prod(d)]), tup(const(_prod(d))), I.dtype(st, r))
        n = tup(mul(*s.args[0])) if s.op == "tuple" and s.args[0] else NONE
        return I.new_arr(st, c if ndim(c) == 0 else mk("fn", "flatten", (c,)), n, I.dtype(st, r))
    if name == "tofile":
        I.models.fs_effect(I, st, "write", args[0], node, data=c, fits=False, dtype=I.dtype(st, r))
        return NONE
    if name == "tobytes":
        return mk("fn", "tobytes", (c,))
    if name == "fill":
        I.write_content(st, r, I.content(st, args[0]), node)
        return NONE
    if name == "item":
        if not args:
            d = cdims(s)
            if d is not None and _prod(d) == 1:
                return nested(I, c, d)[0]
            return c if ndim(c) == 0 else mk("fn", "item", (c, ZERO))
        return sel(c, tuple(I.content(st, a) for a in args))
    if name == "tolist":
        items = I.iter_items(st, r)
        if items is not None:
            return I.new_list(st, [I.content(st, x) for x in items])
        return I.new_list(st, mk("fn", "item", (c, const("list"))))
    if name == "clip":
        return np_call(I, st, "numpy.clip", [r] + args, {("a_" + k if k in ("min", "max") else k): v for k, v in kw.items()}, node)
    if name == "dot":
        return matmul(I, st, [r] + args, kw, node)
    if name == "round":
        return I.elementwise(st, "round", [r], node)
    if name == "squeeze":
        if s.op == "tuple":
            ax = arg(args, kw, 0, "axis")
            idx = []
            for k, d in enumerate(s.args[0]):
                if d is ONE and (ax is NONE or (is_int_const(ax) and num(ax) % len(s.args[0]) == k)):
                    idx.append(ZERO)
                else:
                    idx.append(FULL)
            if any(x is ZERO for x in idx):
                return arr_getitem(I, st, r, mk("tuple", tuple(idx)), node)
            return r
        return I.new_arr(st, mk("fn", "squeeze", (c,)))
    if name == "view":
        if not args:
            return r
        return I.new_arr(st, mk("fn", "viewas", (c,) + tuple(I.content(st, a) for a in args)))
    if name == "sort":
        I.write_content(st, r, mk("fn", "np.sort", (c,)), node)
        return NONE
    if name in ("byteswap", "newbyteorder"):
        if kw.get("inplace") is TRUE or (args and args[0] is TRUE and name == "byteswap"):
            I.write_content(st, r, mk("fn", "byteswap", (c,)), node)
            return r
        return I.new_arr(st, mk("fn", name, (c,)), s)
    if name in ("nonzero", "argmax", "argmin"):
        e = exact_search(I, st, name, c, s, args, kw)
        if e is not None:
            return e
    if name == "nonzero":
        nd = ndim(c) or (len(s.args[0]) if s.op == "tuple" else 1)
        return tup(*[I.new_arr(st, mk("fn", "nonzero", (c, const(k)))) for k in range(max(nd, 1))])
    return I.new_arr(st, mk("fn", "np." + name, (c,) + tuple(I.content(st, a) for a in args)))
