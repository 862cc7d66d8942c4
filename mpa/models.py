"""Abstract models of the external world: builtins, strings, paths, files, FITS, pools.  numpy is in npmodel.py."""
from __future__ import annotations
import ast
import datetime as _dt
import posixpath
import re as _re
from fractions import Fraction
from pathlib import PurePosixPath

from . import terms as tm
from .terms import (T, mk, const, atom, fresh, NONE, TRUE, FALSE, ZERO, ONE, UNDEF, PI, is_const, cval, is_num, num,
                    is_int_const, is_str, add, sub, mul, neg, cmp, and_, or_, not_, ite, sel, store, ndim, sl, FULL)
from . import npmodel as npm

CWD = PurePosixPath("/CWD")


def I_():
    from . import interp
    return interp


def tup(*xs):
    return mk("tuple", tuple(xs))


def ref(o):
    return mk("ref", o)


def ext_const(d):
    return {
        "numpy.pi": PI, "math.pi": PI, "numpy.newaxis": NONE, "os.sep": const("/"), "os.path.sep": const("/"),
        "os.pathsep": const(":"), "os.path.pathsep": const(":"), "os.extsep": const("."), "os.linesep": const("\n"),
        "numpy.nan": mk("fn", "nan", ()), "numpy.NaN": mk("fn", "nan", ()), "math.nan": mk("fn", "nan", ()),
        "numpy.inf": mk("fn", "inf", ()), "math.inf": mk("fn", "inf", ()), "builtins.Ellipsis": const(Ellipsis),
        "os.curdir": const("."), "os.name": const("posix"), "sys.maxsize": const(2 ** 63 - 1),
        "os.path.extsep": const("."), "scipy.constants.pi": PI,
    }.get(d)


# ------------------------------------------------------------------ helpers
def is_path(v):
    return (v.op == "const" and isinstance(cval(v), PurePosixPath)) or (v.op == "fn" and v.args[0] == "path")


is_pathlike = is_path


def mkpath(v):
    """path value from a string / path term"""
    if v.op == "const" and isinstance(cval(v), str):
        return const(PurePosixPath(cval(v)))
    if is_path(v):
        return v
    if v.op == "ite":
        return ite(v.args[0], mkpath(v.args[1]), mkpath(v.args[2]))
    return mk("fn", "path", (v,))


def path_join(a, b):
    a, b = mkpath(a), mkpath(b)
    if a.op == "const" and b.op == "const":
        return const(cval(a) / cval(b))
    return mk("fn", "path", (mk("fn", "strcat", (pstr(a), const("/"), pstr(b))),))


def pstr(v):
    if v.op == "const" and isinstance(cval(v), PurePosixPath):
        return const(str(cval(v)))
    if v.op == "fn" and v.args[0] == "path":
        return v.args[1][0]
    if v.op == "ite":
        return ite(v.args[0], pstr(v.args[1]), pstr(v.args[2]))
    return v


def absstr(v):
    """normalised absolute file name of a string/path term (for comparing targets)"""
    s = pstr(v)
    if is_str(s):
        x = cval(s)
        if not x.startswith("/"):
            x = str(CWD) + "/" + x
        return const(posixpath.normpath(x))
    return s


def all_const(vs):
    return all(v.op == "const" for v in vs)


def py(v):
    x = cval(v)
    return float(x) if isinstance(x, Fraction) else x


def lift(st, I, x):
    """python value -> term"""
    if isinstance(x, list):
        return I.new_list(st, [lift(st, I, y) for y in x])
    if isinstance(x, tuple):
        return mk("tuple", tuple(lift(st, I, y) for y in x))
    return const(x)


def pyvalue(I, st, v, depth=0):
    """term -> python value when fully constant, else raises ValueError"""
    v = I.simp(st, v)
    if v.op == "const":
        return py(v)
    if v.op == "tuple":
        return tuple(pyvalue(I, st, x) for x in v.args[0])
    if v.op == "ref":
        o = I.obj(st, v)
        if o.kind == "list" and o.f["items"].op == "tuple":
            return [pyvalue(I, st, x) for x in o.f["items"].args[0]]
        if o.kind == "set" and o.f["items"].op == "tuple":
            return {pyvalue(I, st, x) for x in o.f["items"].args[0]}
    raise ValueError


# ------------------------------------------------------------------ bits (12-bit packing)
def byte_poly(buf, idx):
    return add(*[mul(const(2 ** k), mk("fn", "bit", (buf, idx, const(k)))) for k in range(8)])


def bitpoly(t):
    """term -> {power: bit term} when t is a sum of distinct powers of two times bits"""
    if is_num(t):
        v = num(t)
        if not isinstance(v, int) or v < 0:
            return None
        return {k: ONE for k in range(v.bit_length()) if v >> k & 1}
    out = {}
    for m, c in tm.poly(t).items():
        if len(m) != 1 or m[0][1] != 1 or m[0][0].op != "fn" or m[0][0].args[0] != "bit":
            return None
        if not isinstance(c, int) or c <= 0 or c & (c - 1):
            return None
        k = c.bit_length() - 1
        if k in out:
            return None
        out[k] = m[0][0]
    return out


def from_bits(d):
    return add(*[mul(const(2 ** k), b) for k, b in d.items()]) if d else ZERO


def bitop(op, a, b):
    if is_num(a) and is_num(b) and isinstance(num(a), int) and isinstance(num(b), int):
        x, y = num(a), num(b)
        try:
            return const({"bitand": x & y, "bitor": x | y, "bitxor": x ^ y}[op] if op.startswith("bit") else (
                x << y if op == "lshift" else x >> y))
        except Exception:
            return None
    if op == "lshift":
        if is_int_const(b) and num(b) >= 0:
            return mul(a, const(2 ** num(b)))
        return mk("fn", "shl", (a, b))
    if op == "rshift":
        if is_int_const(b) and num(b) >= 0:
            bp = bitpoly(a)
            if bp is not None:
                return from_bits({k - num(b): x for k, x in bp.items() if k >= num(b)})
            return tm.floordiv(a, const(2 ** num(b)))
        return mk("fn", "shr", (a, b))
    pa, pb = bitpoly(a), bitpoly(b)
    if pa is not None and pb is not None:
        if op == "bitand":
            if is_num(b) or is_num(a):
                p, m = (pa, pb) if is_num(b) else (pb, pa)
                return from_bits({k: x for k, x in p.items() if k in m})
        if op == "bitor" and not set(pa) & set(pb):
            return from_bits({**pa, **pb})
        if op == "bitxor" and not set(pa) & set(pb):
            return from_bits({**pa, **pb})
    # n & 1  ==  n % 2
    if op == "bitand":
        for x, y in ((a, b), (b, a)):
            if is_int_const(y) and num(y) >= 0 and (num(y) + 1) & num(y) == 0 and tm.is_int_valued(x):
                return tm.mod(x, const(num(y) + 1))
    return mk("fn", {"bitand": "bitand", "bitor": "bitor", "bitxor": "xor"}[op], (a, b))


def bitop_div(op, a, b):
    if is_int_const(b) and num(b) > 0 and num(b) & (num(b) - 1) == 0:
        bp = bitpoly(a)
        if bp is not None and bp and not is_num(a):
            s = num(b).bit_length() - 1
            if op == "floordiv":
                return from_bits({k - s: x for k, x in bp.items() if k >= s})
            return from_bits({k: x for k, x in bp.items() if k < s})
    return None


# ------------------------------------------------------------------ context managers / iteration
def enter(I, st, v, node):
    v = I.simp(st, v)
    if v.op == "ref":
        o = I.obj(st, v)
        if o.kind == "inst" and o.cls in I.classes:
            f = I.class_attr(st, o.cls, "__enter__")
            if f is not None:
                return I.call(st, I.bind(f, v), [], {}, node)
        return v
    if v.op == "fn" and v.args[0] == "nullcontext":
        return v.args[1][0]
    return v


def exit(I, st, v, node):
    v = I.simp(st, v)
    if v.op == "ref":
        o = I.obj(st, v)
        if o.kind == "inst" and o.cls in I.classes:
            f = I.class_attr(st, o.cls, "__exit__")
            if f is not None:
                I.call(st, I.bind(f, v), [NONE, NONE, NONE], {}, node)
        elif o.kind in ("file", "hul", "pool"):
            I.event("close", node, st, oid=v.args[0])


SAFE_CALLS = {"len", "int", "float", "str", "abs", "min", "max", "range", "enumerate", "zip", "list", "tuple", "dict", "set",
              "isinstance", "type", "print", "info", "warning", "debug", "bool", "round"}


def only_modelled(I, stmts):
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Name) and n.func.id in SAFE_CALLS:
                    continue
                return False
    return True


def unwrap_iter(I, st, v):
    return v


# ------------------------------------------------------------------ membership
def contains(I, st, c, x, node):
    c = I.simp(st, c)
    if c.op == "ite":
        return ite(c.args[0], contains(I, st, c.args[1], x, node), contains(I, st, c.args[2], x, node))
    if x.op == "ite":
        return ite(x.args[0], contains(I, st, c, x.args[1], node), contains(I, st, c, x.args[2], node))
    if is_str(c):
        if is_str(x):
            return const(cval(x) in cval(c))
        return mk("fn", "truth", (mk("fn", "in", (x, c)),))
    if c.op == "ref" and I.obj(st, c).kind in ("dict", "hdr"):
        o = I.obj(st, c)
        it = I.simp(st, o.f["items"])
        if it.op == "dictt":
            for k, v in it.args[0]:
                if k is x:
                    return TRUE if v is not UNDEF else FALSE
            if o.f.get("base", NONE) is NONE and x.op == "const" and all(k.op == "const" for k, _ in it.args[0]):
                return FALSE
        return mk("fn", "truth", (mk("fn", "in", (x, I.content(st, c))),))
    if c.op == "range":
        lo, hi, step = c.args
        r = and_(cmp("le", lo, x), cmp("lt", x, hi))
        if step is not ONE:
            r = and_(r, cmp("eq", tm.mod(sub(x, lo), step), ZERO))
        return r
    if I.is_arr(st, c):
        cc = I.content(st, c)
        if cc.op == "stack" and x.op == "const" and all(y.op == "const" for y in cc.args[0]):
            return const(any(cval(y) == cval(x) for y in cc.args[0]))
        return mk("fn", "any", (tm.ew("eq", cc, I.content(st, x)),))
    items = I.iter_items(st, c)
    if items is not None:
        rs = []
        for y in items:
            r = I.equals(st, x, y)
            rs.append(r if r is not None else cmp("eq", I.content(st, x), I.content(st, y)))
        return or_(*rs)
    return mk("fn", "truth", (mk("fn", "in", (x, I.content(st, c))),))


# ------------------------------------------------------------------ attributes
PATH_ATTRS = ("suffix", "stem", "name", "parent", "parts", "suffixes", "parents", "root", "anchor")


def term_attr(I, st, t, name, node):
    if is_path(t):
        if t.op == "const":
            p = cval(t)
            if name == "parent":
                return const(p.parent)
            if name in ("suffix", "stem", "name", "root", "anchor"):
                return const(getattr(p, name))
            if name in ("parts", "suffixes"):
                return mk("tuple", tuple(const(x) for x in getattr(p, name)))
            if name == "parents":
                return mk("tuple", tuple(const(x) for x in p.parents))
        elif name in ("suffix", "stem", "name"):
            return mk("fn", "str", (mk("fn", "path." + name, (t,)), const("")))
        elif name == "parent":
            return mk("fn", "path", (mk("fn", "path.parent", (t,)),))
    if tm.is_numeric_like(t):
        if name == "shape":
            s = I.shape(st, t)
            if s.op == "tuple":
                return s
            return mk("fn", "shape", (t,))
        if name == "ndim" and ndim(t) is not None:
            return const(ndim(t))
        if name == "T":
            return npm.transpose(I, st, t, None)
    if t.op == "fn" and t.args[0] == "match" and name == "group":
        pass
    if t.op in ("atom", "fn", "elem") and name in ("shape", "dtype", "size", "T", "ndim", "data", "header", "x", "y", "name", "args"):
        return mk("fn", "attr", (t, const(name)))
    return mk("extm", t, name)


def obj_attr(I, st, b, name, node):
    o = I.obj(st, b)
    v = o.f.get("." + name)
    if v is not None:
        return v
    if o.kind in ("arr", "view"):
        if name == "shape":
            s = I.shape(st, b)
            return s if s.op == "tuple" else mk("fn", "shape", (I.content(st, b),))
        if name == "ndim":
            s = I.shape(st, b)
            if s.op == "tuple":
                return const(len(s.args[0]))
            return mk("fn", "ndim", (I.content(st, b),))
        if name == "size":
            s = I.shape(st, b)
            if s.op == "tuple":
                return mul(*s.args[0]) if s.args[0] else ONE
            return mk("fn", "dim", (I.content(st, b), const("size")))
        if name == "T":
            return npm.transpose(I, st, b, None)
        if name == "dtype":
            d = o.f.get("dtype", NONE)
            return d if d is not NONE else mk("fn", "dtype", (I.content(st, b),))
        if name in ("strides", "flags", "nbytes", "itemsize", "base"):
            return mk("fn", "attr", (I.content(st, b), const(name)))
        if name in ("real", "flat"):
            return b
    I.event("objattr", node, st, name=name, okind=o.kind)
    return mk("extm", b, name)


def ext_inst_attr(I, st, b, name, node):
    return mk("extm", b, name)


def inst_binop(I, st, op, a, b, node):
    return None


# ------------------------------------------------------------------ subscripts
def getitem(I, st, b, i, node):
    if b.op == "tuple" or (b.op == "ref" and I.obj(st, b).kind in ("list",)):
        it = I.simp(st, I.obj(st, b).f["items"]) if b.op == "ref" else b
        if i.op == "ref" or i.op == "tuple":
            I.event("typeerror", node, st, what="sequence index must be an integer or slice")
            I.raise_exc(st, "TypeError", node, implicit=True)
        return seq_getitem(I, st, b, it, i, node)
    if b.op == "ext" and b.args[0] in ("numpy.mgrid", "numpy.ogrid"):
        return npm.grid_getitem(I, st, b.args[0].split(".")[1], i, node)
    if b.op in ("stack", "zip", "enum", "rev", "lmap", "range"):
        items = I.iter_items(st, b)
        if items is not None:
            return seq_getitem(I, st, b, mk("tuple", tuple(items)), i, node)
        if b.op == "lmap" and i.op != "sl":
            return tm.subst(b.args[0], {b.args[1]: i})
        if b.op == "range" and i.op != "sl":
            return add(b.args[0], mul(b.args[2], i))
        if b.op == "zip" and i.op != "sl":
            return mk("tuple", tuple(I.getitem(st, x, i, node) for x in b.args[0]))
        return sel(b, idx_tuple(i))
    if b.op == "ref":
        o = I.obj(st, b)
        if o.kind in ("arr", "view"):
            return npm.arr_getitem(I, st, b, i, node)
        if o.kind in ("dict", "hdr"):
            return dict_getitem(I, st, b, i, node)
        if o.kind == "hul":
            return hul_item(I, st, b, i)
        if o.kind == "inst" and o.cls in I.classes:
            f = I.class_attr(st, o.cls, "__getitem__")
            if f is not None:
                return I.call(st, I.bind(f, b), [i], {}, node)
            I.event("typeerror", node, st, what="object is not subscriptable")
            I.raise_exc(st, "TypeError", node, implicit=True)
        return mk("fn", "item", (b, I.content(st, i)))
    if b.op == "const" and isinstance(cval(b), (str, tuple)):
        if i.op == "sl" and all(x is NONE or is_int_const(x) for x in i.args):
            return const(cval(b)[slice(*[None if x is NONE else num(x) for x in i.args])])
        if is_int_const(i):
            try:
                return const(cval(b)[num(i)])
            except IndexError:
                I.raise_exc(st, "IndexError", node, implicit=True)
        return mk("fn", "str", (mk("fn", "item", (b, i)), const("")))
    if b.op == "fn" and b.args[0] == "bits" and i.op == "sl" and all(x is NONE or is_int_const(x) for x in i.args):
        return mk("fn", "bits", b.args[1][slice(*[None if x is NONE else num(x) for x in i.args])])
    if b.op == "fn" and b.args[0] == "binstr" and i.op == "sl" and i.args[0] is const(2) and i.args[1] is NONE:
        return mk("fn", "binstr2", b.args[1])
    if b.op == "fn" and b.args[0] in ("bytes", "bslice"):
        return bytes_getitem(b, i)
    if b is NONE or is_num(b):
        I.event("typeerror", node, st, what="object is not subscriptable")
        I.raise_exc(st, "TypeError", node, implicit=True)
    if b.op == "ext":
        if b.args[0] == "numpy.cast":
            return mk("ext", "numpy.asarray")
        return b
    if b.op == "class":
        return b
    if tm.is_numeric_like(b) and ndim(b) != 0:
        return npm.term_getitem(I, st, b, i, node)
    if I_().is_stringish(b):
        return mk("fn", "str", (mk("fn", "item", (b, I.content(st, i))), const("")))
    if b.op == "fn" and b.args[0] in ("call", "ext"):
        return mk("fn", "item", (b, I.content(st, i)))
    if b.op == "atom" and b.args[1] == "seq":
        return mk("fn", "elem", (b, I.content(st, i))) if i.op != "sl" else mk("fn", "item", (b, i))
    return mk("fn", "item", (b, I.content(st, i)))


def idx_tuple(i):
    return i.args[0] if i.op == "tuple" else (i,)


def seq_getitem(I, st, b, it, i, node):
    if it.op == "tuple":
        xs = it.args[0]
        if is_int_const(i):
            k = num(i)
            if -len(xs) <= k < len(xs):
                return xs[k]
            I.event("indexerror", node, st, what="index %d out of range for length %d" % (k, len(xs)))
            I.raise_exc(st, "IndexError", node, implicit=True)
        if i.op == "sl" and all(x is NONE or is_int_const(x) for x in i.args):
            r = xs[slice(*[None if x is NONE else num(x) for x in i.args])]
            return mk("tuple", r) if b.op == "tuple" else I.new_list(st, r)
        if i.op == "sl":
            return I.new_list(st, mk("fn", "item", (it, i)))
        if tm.is_numeric_like(i) and xs and len(xs) <= 16:
            r = xs[-1]
            if all(not (x.op == "ref") or True for x in xs):
                for k in range(len(xs) - 2, -1, -1):
                    r = I.merge_val(cmp("eq", i, const(k)), xs[k], r)
                return r
        return mk("fn", "item", (I.content(st, b), I.content(st, i)))
    if it.op == "lmap" and i.op != "sl":
        if is_int_const(i) and num(i) < 0:
            i = add(it.args[2], i)
        return tm.subst(it.args[0], {it.args[1]: i})
    if it.op == "lmap" and i.op == "sl":
        return I.new_list(st, mk("fn", "item", (it, i)))
    if it.op == "cat" and is_int_const(i) and num(i) >= 0:
        k = num(i)
        for part in it.args[0]:
            if part.op != "tuple":
                break
            if k < len(part.args[0]):
                return part.args[0][k]
            k -= len(part.args[0])
    if it.op == "cat" and is_int_const(i) and num(i) == -1 and it.args[0][-1].op == "tuple" and it.args[0][-1].args[0]:
        return it.args[0][-1].args[0][-1]
    if it.op == "ite":
        return I.branch(st, it.args[0], lambda s: seq_getitem(I, s, b, I.simp(s, it.args[1]), i, node),
                        lambda s: seq_getitem(I, s, b, I.simp(s, it.args[2]), i, node))
    if i.op == "sl":
        return I.new_list(st, mk("fn", "item", (it, i)))
    return mk("fn", "elem", (it, I.content(st, i)))


def bytes_getitem(b, i):
    buf, off = (b, ZERO) if b.args[0] == "bytes" else (b.args[1][0], b.args[1][1])
    if i.op == "sl":
        lo = ZERO if i.args[0] is NONE else i.args[0]
        hi = i.args[1]
        if i.args[2] is not NONE:
            return mk("fn", "item", (b, i))
        end = NONE if hi is NONE else add(off, hi)
        return mk("fn", "bslice", (buf, add(off, lo), end))
    return byte_poly(buf, add(off, i))


STRUCTURAL = {"SIMPLE", "BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "NAXIS3", "NAXIS4", "EXTEND", "COMMENT", "HISTORY", "", "BZERO", "BSCALE"}


def new_header(base, key):
    """the header astropy makes for new data has no card named key"""
    return base.op == "fn" and base.args[0] == "newhdr" and is_const(key) and isinstance(cval(key), str) and cval(key).upper() not in STRUCTURAL


def dict_getitem(I, st, b, i, node):
    o = I.obj(st, b)
    it = I.simp(st, o.f["items"])
    if it.op == "ite":
        # joined dictionaries
        return I.branch(st, it.args[0],
                        lambda s: (I.setf(s, b.args[0], "items", it.args[1]), dict_getitem(I, s, b, i, node))[1],
                        lambda s: (I.setf(s, b.args[0], "items", it.args[2]), dict_getitem(I, s, b, i, node))[1])
    if it.op == "dictt":
        for k, v in it.args[0]:
            if k is i and v is not UNDEF:
                if o.kind == "hdr" and v.op == "tuple" and len(v.args[0]) == 2:
                    return v.args[0][0]
                return I.strip_undef(st, v, "key", node, 0) if I_().has_undef(v) else v
        base = o.f.get("base", NONE)
        if (base is NONE or new_header(base, i)) and i.op == "const" and all(k.op == "const" for k, _ in it.args[0]):
            I.event("keyerror", node, st, key=i)
            I.raise_exc(st, "KeyError", node, implicit=True)
        if base is NONE and i.op != "const" and it.args[0] and tm.is_numeric_like(i):
            r = mk("fn", "dictget", (I.content(st, b), i))
            return r
    return mk("fn", "hdrget" if o.kind == "hdr" else "dictget", (I.content(st, b) if o.kind == "dict" else o.f.get("base", NONE), I.content(st, i)))


def hul_item(I, st, b, i):
    o = I.obj(st, b)
    key = "#" + tm.show(i)
    v = o.f.get(key)
    if v is not None:
        return v
    hd = make_hdu_from_file(I, st, o.f["src"], i)
    I.setf(st, b.args[0], key, hd)
    return hd


def make_hdu_from_file(I, st, src, i):
    mkdata = I.ctx.get("fits_data")
    data = hdr = None
    if mkdata is not None:
        data = mkdata(I, st, src, i)
    if data is None:
        t = mk("fn", "fitsdata", (src,))
        data = I.new_arr(st, t, tup(mk("fn", "dim", (t, ZERO)), mk("fn", "dim", (t, ONE))), origin="file")
    cards = I.ctx.get("fits_cards")
    cards = cards(st, src) if cards is not None else None
    hdr = ref(I.alloc(st, "hdr", None, "file", {"items": mk("dictt", tuple((const(k), const(v)) for k, v in (cards or {}).items())),
                                                "base": mk("fn", "fitshdr", (src,)) if cards is None else NONE}))
    return ref(I.alloc(st, "inst", "astropy.io.fits.PrimaryHDU", "file", {".data": data, ".header": hdr}))


def setitem(I, st, b, i, v, node, aug=None):
    if b.op == "ref":
        o = I.obj(st, b)
        if o.kind in ("arr", "view"):
            npm.arr_setitem(I, st, b, i, v, node, aug)
            return
        if o.kind in ("dict", "hdr"):
            I.event("mutate", node, st, oid=b.args[0], origin=o.origin, what=o.kind, key=i)
            it = I.simp(st, o.f["items"])
            if it.op == "dictt" and (i.op == "const" or I_().is_stringish(i) or tm.is_numeric_like(i) or i.op == "tuple"):
                d = dict(it.args[0])
                # unknown key may alias known ones: keep separate entry
                d[i] = v
                I.setf(st, b.args[0], "items", mk("dictt", tuple(d.items())))
            else:
                I.setf(st, b.args[0], "items", mk("fn", "dictset", (it, i, v)))
            return
        if o.kind == "list":
            I.event("mutate", node, st, oid=b.args[0], origin=o.origin, what="list")
            it = I.simp(st, o.f["items"])
            if it.op == "tuple" and is_int_const(i):
                xs = list(it.args[0])
                k = num(i)
                if not -len(xs) <= k < len(xs):
                    I.raise_exc(st, "IndexError", node, implicit=True)
                xs[k] = v
                I.setf(st, b.args[0], "items", mk("tuple", tuple(xs)))
                return
            if it.op == "tuple" and i.op == "sl" and all(x is NONE or is_int_const(x) for x in i.args):
                items = I.iter_items(st, v)
                if items is not None:
                    xs = list(it.args[0])
                    xs[slice(*[None if x is NONE else num(x) for x in i.args])] = items
                    I.setf(st, b.args[0], "items", mk("tuple", tuple(xs)))
                    return
            I.setf(st, b.args[0], "items", mk("store", it if it.op != "tuple" else mk("stack", tuple(I.content(st, x) for x in it.args[0])), (I.content(st, i),), I.content(st, v)))
            return
        if o.kind == "inst":
            if o.cls in I.classes:
                f = I.class_attr(st, o.cls, "__setitem__")
                if f is not None:
                    I.call(st, I.bind(f, b), [i, v], {}, node)
            return
    if b.op in ("tuple",) or (b.op == "const" and isinstance(cval(b), str)):
        I.event("typeerror", node, st, what="object does not support item assignment")
        I.raise_exc(st, "TypeError", node, implicit=True)


def delitem(I, st, b, k, node):
    if b.op == "ref":
        o = I.obj(st, b)
        I.event("mutate", node, st, oid=b.args[0], origin=o.origin, what=o.kind, key=k)
        if o.kind in ("dict", "hdr"):
            it = o.f["items"]
            if it.op == "dictt":
                d = dict(it.args[0])
                if o.f.get("base", NONE) is NONE:
                    d.pop(k, None)
                else:
                    d[k] = UNDEF
                I.setf(st, b.args[0], "items", mk("dictt", tuple(d.items())))
        elif o.kind == "list":
            it = o.f["items"]
            if it.op == "tuple" and (is_int_const(k) or (k.op == "sl" and all(x is NONE or is_int_const(x) for x in k.args))):
                xs = list(it.args[0])
                if k.op == "sl":
                    del xs[slice(*[None if x is NONE else num(x) for x in k.args])]
                elif -len(xs) <= num(k) < len(xs):
                    del xs[num(k)]
                I.setf(st, b.args[0], "items", mk("tuple", tuple(xs)))
            else:
                I.setf(st, b.args[0], "items", fresh("del", "seq", 1))


# ------------------------------------------------------------------ copies
def shallow(I, st, v):
    if v.op != "ref":
        return v
    o = I.obj(st, v)
    if o.kind == "view":
        return I.new_arr(st, I.content(st, v), I.shape(st, v), I.dtype(st, v))
    if o.kind == "inst" and o.cls in I.classes:
        f = I.class_attr(st, o.cls, "__copy__")
        if f is not None:
            return I.call(st, I.bind(f, v), [], {}, None)
    return ref(I.alloc(st, o.kind, o.cls, "fresh", dict(o.f)))


def deep(I, st, v, memo=None):
    memo = {} if memo is None else memo
    if v.op == "ref":
        if v in memo:
            return memo[v]
        o = I.obj(st, v)
        if o.kind == "inst" and o.cls in I.classes:
            f = I.class_attr(st, o.cls, "__deepcopy__")
            if f is not None:
                return I.call(st, I.bind(f, v), [I.new_dict(st, ())], {}, None)
        if o.kind == "view":
            memo[v] = I.new_arr(st, I.content(st, v), I.shape(st, v), I.dtype(st, v))
            return memo[v]
        n = ref(I.alloc(st, o.kind, o.cls, "fresh", {}))
        memo[v] = n
        f = {k: deep(I, st, x, memo) for k, x in o.f.items()}
        st.heap[n.args[0]] = I_().Obj(o.kind, o.cls, "fresh", f)
        return n
    if v.op == "tuple":
        return mk("tuple", tuple(deep(I, st, x, memo) for x in v.args[0]))
    if v.op == "dictt":
        return mk("dictt", tuple((k, deep(I, st, x, memo)) for k, x in v.args[0]))
    if v.op == "ite":
        return ite(v.args[0], deep(I, st, v.args[1], memo), deep(I, st, v.args[2], memo))
    return v


# ------------------------------------------------------------------ methods
STR_METHODS = {"split", "rsplit", "join", "endswith", "startswith", "replace", "strip", "lstrip", "rstrip", "lower", "upper", "zfill",
               "find", "rfind", "index", "partition", "rpartition", "count", "title", "capitalize", "isdigit", "isnumeric", "isdecimal",
               "format", "splitlines", "removesuffix", "removeprefix", "ljust", "rjust", "casefold", "encode", "isalpha", "isalnum"}


def method(I, st, r, name, args, kw, node):
    r = I.simp(st, r)
    if r.op == "ite":
        return I.cases(st, r, lambda s, v: I.call(s, I.getattr(s, v, name, node), args, kw, node))
    if r.op == "ref":
        o = I.obj(st, r)
        h = {"list": list_method, "set": set_method, "dict": dict_method, "hdr": hdr_method, "arr": npm.arr_method, "view": npm.arr_method,
             "file": file_method, "hul": hul_method, "pool": pool_method}.get(o.kind)
        if h is not None:
            return h(I, st, r, name, args, kw, node)
        if o.kind == "inst" and o.cls.startswith("astropy") and o.cls.endswith("HDU"):
            return hdu_method(I, st, r, name, args, kw, node)
        if o.kind == "inst" and o.cls.endswith("HDUList"):
            return hul_method(I, st, r, name, args, kw, node)
        return mk("fn", "call", (mk("fn", "meth", (r, const(name))),) + tuple(I.content(st, a) for a in args))
    if is_path(r):
        return path_method(I, st, r, name, args, kw, node)
    if r.op == "const" and isinstance(cval(r), _dt.date):
        v = date_method(I, st, r, name, args, kw, node)
        if v is not None:
            return v
    if r.op == "const" and isinstance(cval(r), str) or I_().is_stringish(r):
        return str_method(I, st, r, name, args, kw, node)
    if r.op == "fn" and r.args[0] == "binstr2" and name == "zfill" and is_int_const(args[0]):
        w = num(args[0])
        b = r.args[1][0]
        bp = bitpoly(b)
        if bp is not None and (not bp or max(bp) < w):
            return mk("fn", "bits", tuple(bp.get(k, ZERO) for k in range(w - 1, -1, -1)))
        return mk("fn", "str", (mk("fn", "call", (r, const(name)) + tuple(args)), const("")))
    if r.op == "fn" and r.args[0] == "rematch":
        return match_method(I, st, r, name, args)
    if r.op == "fn" and r.args[0] == "regex":
        return re_call(I, st, name, [r.args[1][0]] + list(args), kw, node)
    if r.op == "fn" and r.args[0] == "async" and len(r.args[1]) == 2:
        v, tok = r.args[1]
        if name in ("get", "result"):
            I.event("asyncgot", node, st, token=tok)
            return v
        if name in ("successful", "exception", "ready", "done", "running", "cancelled", "cancel"):
            I.event("asyncasked", node, st, token=tok, what=name)
            if name in ("ready", "done"):
                return TRUE
            if name == "exception":
                return ite(mk("fn", "truth", (mk("fn", "asyncok", (tok,)),)), NONE, mk("fn", "asyncexc", (tok,)))
            return mk("fn", "truth", (mk("fn", "asyncok", (tok,)),)) if name == "successful" else FALSE
        if name == "wait":
            return NONE
    if r.op == "fn" and r.args[0] in ("bytes", "bslice"):
        if name == "tobytes":
            return r
    if r.op == "fn" and r.args[0] == "hist":
        pass
    if r.op == "range" or r.op == "tuple":
        if name == "index" or name == "count":
            return seq_index(I, st, r, name, args, node)
    if r.op == "extm" or r.op in ("module", "class", "func", "property"):
        return mk("fn", "call", (mk("fn", "meth", (const(tm.show(r)), const(name))),) + tuple(I.content(st, a) for a in args))
    if tm.is_numeric_like(r) or r.op in ("stack", "inter"):
        if name in npm.ARR_METHODS:
            return npm.arr_method(I, st, r, name, args, kw, node)
    if r.op == "ext":
        return ext_call(I, st, r.args[0] + "." + name, args, kw, node)
    if r.op == "fn" and r.args[0] == "hdrget" or (r.op == "atom" and r.args[1] == "x" and name in STR_METHODS):
        return str_method(I, st, r, name, args, kw, node)
    I.event("opaque", node, st, obj=r, name=name, args=[I.content(st, a) for a in args], kw={k: I.content(st, v) for k, v in kw.items()})
    return mk("fn", "call", (mk("fn", "meth", (r, const(name))),) + tuple(I.content(st, a) for a in args) + tuple(
        tup(const(k), I.content(st, v)) for k, v in sorted(kw.items())))


def subplots(I, st, args, kw, node):
    """a figure and its axes, one opaque value per panel"""
    ny, nx = arg_(args, kw, 0, "nrows", ONE), arg_(args, kw, 1, "ncols", ONE)
    fig = fresh("figure")
    if not (is_int_const(ny) and is_int_const(nx)) or kw.get("squeeze", TRUE) is not TRUE or not 1 <= num(ny) * num(nx) <= 64:
        return mk("tuple", (fig, fresh("axes")))
    ny, nx = num(ny), num(nx)
    ax = [[mk("fn", "mplax", (fig, const(i), const(j))) for j in range(nx)] for i in range(ny)]
    if ny == nx == 1:
        return mk("tuple", (fig, ax[0][0]))
    if ny == 1 or nx == 1:
        v = [a for r in ax for a in r]
        return mk("tuple", (fig, I.new_arr(st, mk("stack", tuple(v)), mk("tuple", (const(len(v)),)))))
    return mk("tuple", (fig, I.new_arr(st, mk("stack", tuple(mk("stack", tuple(r)) for r in ax)), mk("tuple", (const(ny), const(nx))))))


def arg_(args, kw, i, name, default):
    return args[i] if len(args) > i else kw.get(name, default)


def seq_index(I, st, r, name, args, node):
    items = I.iter_items(st, r)
    x = args[0]
    if items is not None and name == "index":
        if all_const(items + [x]):
            for k, y in enumerate(items):
                if cval(y) == cval(x):
                    return const(k)
            I.raise_exc(st, "ValueError", node, implicit=True)
        for k, y in enumerate(items):
            b = TRUE if y is x else cmp("eq", y, x) if y.op in ("const", "poly", "atom") and x.op in ("const", "poly", "atom") else None
            if b is TRUE:
                return const(k)
            if b is not FALSE:
                break
        for k, y in enumerate(items):
            if y is x:
                return const(k) if all(z.op == "const" or z is x for z in items[:k + 1]) or k == 0 else mk("fn", "index", (mk("tuple", tuple(items)), x))
        return mk("fn", "index", (mk("tuple", tuple(items)), x))
    if items is not None and name == "count" and all_const(items + [x]):
        return const(sum(1 for y in items if cval(y) == cval(x)))
    return mk("fn", "index", (I.content(st, r), x))


def list_method(I, st, r, name, args, kw, node):
    o = I.obj(st, r)
    it = I.simp(st, o.f["items"])

    def setitems(t):
        I.event("mutate", node, st, oid=r.args[0], origin=o.origin, what="list")
        I.setf(st, r.args[0], "items", t)
    if name == "append":
        setitems(mk("tuple", it.args[0] + (args[0],)) if it.op == "tuple" else mk("cat", (it.args[0] if it.op == "cat" else (it,)) + (tup(args[0]),)))
        return NONE
    if name == "extend":
        more = I.iter_items(st, args[0])
        if more is not None and it.op == "tuple":
            setitems(mk("tuple", it.args[0] + tuple(more)))
        else:
            m = mk("tuple", tuple(more)) if more is not None else I.content(st, args[0])
            setitems(mk("cat", (it, m)))
        return NONE
    if name in ("index", "count"):
        return seq_index(I, st, r, name, args, node)
    if name == "copy":
        return I.new_list(st, it)
    if name == "pop":
        if it.op == "tuple" and it.args[0] and (not args or is_int_const(args[0])):
            k = num(args[0]) if args else -1
            xs = list(it.args[0])
            if -len(xs) <= k < len(xs):
                v = xs.pop(k)
                setitems(mk("tuple", tuple(xs)))
                return v
            I.raise_exc(st, "IndexError", node, implicit=True)
        setitems(fresh("popped", "seq", 1))
        return mk("fn", "item", (it, args[0] if args else const(-1)))
    if name == "insert" and it.op == "tuple" and is_int_const(args[0]):
        xs = list(it.args[0])
        xs.insert(num(args[0]), args[1])
        setitems(mk("tuple", tuple(xs)))
        return NONE
    if name == "reverse" and it.op == "tuple":
        setitems(mk("tuple", tuple(reversed(it.args[0]))))
        return NONE
    if name == "sort":
        s = do_sorted(I, st, r, kw, node)
        setitems(I.obj(st, s).f["items"] if s.op == "ref" else s)
        return NONE
    if name == "clear":
        setitems(mk("tuple", ()))
        return NONE
    if name == "remove":
        if it.op == "tuple" and all_const(list(it.args[0]) + [args[0]]):
            xs = list(it.args[0])
            if args[0] in xs:
                xs.remove(args[0])
                setitems(mk("tuple", tuple(xs)))
                return NONE
            I.raise_exc(st, "ValueError", node, implicit=True)
        setitems(fresh("removed", "seq", 1))
        return NONE
    I.event("attrerror", node, st, name=name, cls="list")
    I.raise_exc(st, "AttributeError", node, implicit=True)


def set_method(I, st, r, name, args, kw, node):
    o = I.obj(st, r)
    it = I.simp(st, o.f["items"])
    if name == "add":
        I.event("mutate", node, st, oid=r.args[0], origin=o.origin, what="set")
        if it.op == "tuple":
            if args[0] not in it.args[0]:
                I.setf(st, r.args[0], "items", mk("tuple", it.args[0] + (args[0],)))
        else:
            I.setf(st, r.args[0], "items", mk("cat", (it, tup(args[0]))))
        return NONE
    if name in ("difference", "union", "intersection", "issubset", "issuperset", "symmetric_difference") and args:
        a, b = I.iter_items(st, r), I.iter_items(st, args[0])
        if a is not None and b is not None and all_const(a + b):
            A, B = list(a), list(b)
            if name == "issubset":
                return const(all(x in B for x in A))
            if name == "issuperset":
                return const(all(x in A for x in B))
            res = {"difference": [x for x in A if x not in B], "union": A + [x for x in B if x not in A],
                   "intersection": [x for x in A if x in B],
                   "symmetric_difference": [x for x in A if x not in B] + [x for x in B if x not in A]}[name]
            return ref(I.alloc(st, "set", None, "fresh", {"items": mk("tuple", tuple(res))}))
        if name.startswith("iss"):
            return mk("fn", "truth", (mk("fn", name, (I.content(st, r), I.content(st, args[0]))),))
        return ref(I.alloc(st, "set", None, "fresh", {"items": fresh("setop", "seq", 1)}))
    if name in ("remove", "discard", "update", "pop", "clear"):
        I.event("mutate", node, st, oid=r.args[0], origin=o.origin, what="set")
        if name in ("remove", "discard") and it.op == "tuple" and all_const(list(it.args[0]) + [args[0]]):
            I.setf(st, r.args[0], "items", mk("tuple", tuple(x for x in it.args[0] if x is not args[0])))
        elif name == "update" and it.op == "tuple" and I.iter_items(st, args[0]) is not None:
            I.setf(st, r.args[0], "items", mk("tuple", tuple(dict.fromkeys(list(it.args[0]) + I.iter_items(st, args[0])))))
        else:
            v = fresh("set", "seq", 1)
            I.setf(st, r.args[0], "items", v)
            if name == "pop" and it.op == "tuple" and len(it.args[0]) == 1:
                I.setf(st, r.args[0], "items", mk("tuple", ()))
                return it.args[0][0]
            if name == "pop":
                return mk("fn", "elem", (it, ZERO))
        return NONE
    if name == "copy":
        return ref(I.alloc(st, "set", None, "fresh", dict(o.f)))
    return fresh("set." + name)


def dict_method(I, st, r, name, args, kw, node):
    o = I.obj(st, r)
    it = I.simp(st, o.f["items"])
    known = it.op == "dictt" and o.f.get("base", NONE) is NONE
    if name in ("keys", "values", "items"):
        if known and not any(I_().has_undef(v) for _, v in it.args[0]):
            return I.new_list(st, [k if name == "keys" else (v if name == "values" else tup(k, v)) for k, v in it.args[0]], origin="dictview")
        return I.new_list(st, mk("fn", "dict" + name, (I.content(st, r),)))
    if name == "get":
        d = args[1] if len(args) > 1 else kw.get("default", NONE)
        if known:
            for k, v in it.args[0]:
                if k is args[0]:
                    return v
            if args[0].op == "const" and all(k.op == "const" for k, _ in it.args[0]):
                return d
            r_ = d
            if len(it.args[0]) <= 8:
                for k, v in reversed(it.args[0]):
                    r_ = ite(cmp("eq", args[0], k), v, r_)
                return r_
        return mk("fn", "dictget", (I.content(st, r), args[0], I.content(st, d)))
    if name == "copy":
        return ref(I.alloc(st, o.kind, None, "fresh", dict(o.f)))
    if name in ("update", "setdefault", "pop", "clear", "popitem"):
        I.event("mutate", node, st, oid=r.args[0], origin=o.origin, what="dict")
        if name == "update":
            d = dict(it.args[0]) if it.op == "dictt" else None
            src = args[0] if args else None
            if d is not None:
                ok = True
                if src is not None:
                    if src.op == "ref" and I.obj(st, src).kind == "dict" and I.obj(st, src).f["items"].op == "dictt":
                        d.update(dict(I.obj(st, src).f["items"].args[0]))
                    else:
                        its = I.iter_items(st, src)
                        if its is not None and all(x.op == "tuple" and len(x.args[0]) == 2 for x in its):
                            d.update({x.args[0][0]: x.args[0][1] for x in its})
                        else:
                            ok = False
                d.update({const(k): v for k, v in kw.items()})
                if ok:
                    I.setf(st, r.args[0], "items", mk("dictt", tuple(d.items())))
                    return NONE
            I.setf(st, r.args[0], "items", fresh("dict", "x"))
            return NONE
        if name == "setdefault" and known:
            for k, v in it.args[0]:
                if k is args[0]:
                    return v
            dv = args[1] if len(args) > 1 else NONE
            I.setf(st, r.args[0], "items", mk("dictt", it.args[0] + ((args[0], dv),)))
            return dv
        if name == "pop" and known:
            for k, v in it.args[0]:
                if k is args[0]:
                    I.setf(st, r.args[0], "items", mk("dictt", tuple(p for p in it.args[0] if p[0] is not k)))
                    return v
            if len(args) > 1:
                return args[1]
        if name == "clear":
            I.setf(st, r.args[0], "items", mk("dictt", ()))
            return NONE
        return fresh("dict." + name)
    I.event("attrerror", node, st, name=name, cls="dict")
    I.raise_exc(st, "AttributeError", node, implicit=True)


def hdr_method(I, st, r, name, args, kw, node):
    o = I.obj(st, r)
    if name == "copy":
        return ref(I.alloc(st, "hdr", None, "fresh", dict(o.f)))
    if name in ("get",):
        for k, v in (o.f["items"].args[0] if o.f["items"].op == "dictt" else ()):
            if k is args[0]:
                return v.args[0][0] if v.op == "tuple" and len(v.args[0]) == 2 else v
        if o.f["items"].op == "dictt" and args and new_header(o.f.get("base", NONE), args[0]):
            return args[1] if len(args) > 1 else NONE
        return mk("fn", "hdrget", (o.f.get("base", NONE),) + tuple(args))
    if name in ("set", "append", "update", "remove", "add_history", "add_comment", "insert", "pop", "extend"):
        if name == "set" and args:
            setitem(I, st, r, args[0], args[1] if len(args) == 2 else (mk("tuple", tuple(args[1:3])) if len(args) > 2 else kw.get("value", NONE)), node)
            return NONE
        if name == "append" and args and args[0].op == "tuple" and len(args[0].args[0]) >= 2:
            xs = args[0].args[0]
            setitem(I, st, r, xs[0], mk("tuple", xs[1:3]) if len(xs) > 2 else xs[1], node)
            return NONE
        if name == "update" and args and args[0].op == "ref" and I.obj(st, args[0]).f.get("items", NONE).op == "dictt":
            for k, v in I.obj(st, args[0]).f["items"].args[0]:
                setitem(I, st, r, k, v, node)
            return NONE
        I.event("mutate", node, st, oid=r.args[0], origin=o.origin, what="hdr")
        I.setf(st, r.args[0], "base", mk("fn", "hdr." + name, (o.f.get("base", NONE),) + tuple(I.content(st, a) for a in args)))
        return NONE
    return mk("fn", "hdr." + name, (I.content(st, r),) + tuple(I.content(st, a) for a in args))


def date_call(path, args, kw, I, st, node):
    """parsing of known date strings"""
    args = [I.simp(st, a) for a in args]
    if len(path) == 2 and path[0] in ("datetime", "date") and path[1] in ("strptime", "fromisoformat") and args and not kw and all(is_str(a) for a in args):
        try:
            return const(getattr(getattr(_dt, path[0]), path[1])(*[cval(a) for a in args]))
        except ValueError:
            I.raise_exc(st, "ValueError", node, implicit=True)
        except TypeError:
            return None
    if path in (["timedelta"], ["datetime"]) and all(is_num(a) for a in args) and all(is_num(v) for v in kw.values()):
        try:
            return const(getattr(_dt, path[0])(*[num(a) for a in args], **{k: num(v) for k, v in kw.items()}))
        except (ValueError, TypeError):
            return None
    return None


def date_method(I, st, r, name, args, kw, node):
    try:
        x = getattr(cval(r), name)(*[pyvalue(I, st, a) for a in args], **{k: pyvalue(I, st, v) for k, v in kw.items()})
        return lift(st, I, x) if isinstance(x, (str, int, float, _dt.date)) else None
    except (ValueError, TypeError, AttributeError):
        return None


def str_method(I, st, r, name, args, kw, node):
    args = [I.simp(st, a) for a in args]
    if r.op == "const":
        try:
            pa = [pyvalue(I, st, a) for a in args]
            pk = {k: pyvalue(I, st, v) for k, v in kw.items()}
        except ValueError:
            pa = None
        if pa is not None and name in STR_METHODS:
            if name == "join":
                pa = [[str(x) if not isinstance(x, str) else x for x in pa[0]]]
            try:
                x = getattr(cval(r), name)(*pa, **pk)
                if not isinstance(x, bytes):
                    return lift(st, I, x)
            except Exception as e:
                if name in ("index",):
                    I.raise_exc(st, type(e).__name__, node, implicit=True)
    if name == "join":
        items = I.iter_items(st, args[0])
        if items is not None:
            parts = []
            for k, x in enumerate(items):
                if k:
                    parts.append(r)
                parts.append(x)
            return I_().strcat(*parts) if parts else const("")
        return mk("fn", "str", (mk("fn", "join", (r, I.content(st, args[0]))), const("")))
    if name == "zfill" and r.op == "fn" and r.args[0] == "bits":
        return r
    if name in ("endswith", "startswith"):
        known = r if is_str(r) else (r.args[1][-1 if name == "endswith" else 0] if r.op == "fn" and r.args[0] == "strcat" else None)
        if known is not None and is_str(known) and args and is_str(args[0]) and len(cval(known)) >= len(cval(args[0])):
            return const(getattr(cval(known), name)(cval(args[0])))
        return mk("fn", "truth", (mk("fn", "str." + name, (r,) + tuple(I.content(st, a) for a in args)),))
    if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
        return I.new_list(st, mk("fn", "str." + name, (r,) + tuple(I.content(st, a) for a in args)))
    if name in ("find", "rfind", "index", "count"):
        return mk("fn", "int", (mk("fn", "str." + name, (r,) + tuple(I.content(st, a) for a in args)),))
    if name.startswith("is"):
        return mk("fn", "truth", (mk("fn", "str." + name, (r,)),))
    if name in STR_METHODS:
        return mk("fn", "str", (mk("fn", "str." + name, (r,) + tuple(I.content(st, a) for a in args)), const("")))
    return mk("fn", "call", (mk("fn", "meth", (r, const(name))),) + tuple(I.content(st, a) for a in args))


def fs_effect(I, st, op, path, node, **kw):
    f = I.ctx.get("fault")
    if f is not None and f(op, absstr(path)):
        I.event("fsfault", node, st, op=op, path=absstr(path))
        I.raise_exc(st, "OSError", node, implicit=True)
    I.event("fs", node, st, op=op, path=absstr(path), **kw)


def path_method(I, st, p, name, args, kw, node):
    if name in ("joinpath",):
        r = p
        for a in args:
            r = path_join(r, a)
        return r
    if name == "cwd":
        return const(CWD)
    if name == "home":
        return const(PurePosixPath("/HOME"))
    if name in ("absolute", "resolve"):
        if p.op == "const":
            x = cval(p) if cval(p).is_absolute() else CWD / cval(p)
            return const(PurePosixPath(posixpath.normpath(str(x))) if name == "resolve" else x)
        return mk("fn", "path", (mk("fn", "abs", (p,)),))
    if name == "is_absolute":
        if p.op == "const":
            return const(cval(p).is_absolute())
        return mk("fn", "truth", (mk("fn", "isabs", (p,)),))
    if name in ("exists", "is_dir", "is_file"):
        return exists_atom(I, p, name)
    if name == "mkdir":
        fs_effect(I, st, "mkdir", p, node, parents=I.truth(st, kw.get("parents", FALSE)), exist_ok=I.truth(st, kw.get("exist_ok", FALSE)))
        return NONE
    if name in ("unlink", "rmdir", "touch", "write_bytes", "write_text", "rename", "replace"):
        kw2 = {"to": absstr(args[0])} if name in ("rename", "replace") and args else {"data": I.content(st, args[0])} if name.startswith("write") and args else {}
        fs_effect(I, st, {"unlink": "remove", "write_bytes": "write", "write_text": "write", "replace": "rename"}.get(name, name), p, node, **kw2)
        return NONE
    if name == "open":
        return do_open(I, st, p, args, kw, node)
    if name == "read_bytes":
        I.event("readfile", node, st, path=absstr(p))
        return mk("fn", "bytes", (absstr(p),))
    if name in ("with_suffix", "with_name", "with_stem", "relative_to", "as_posix", "match", "is_relative_to", "__str__"):
        if p.op == "const" and all(a.op == "const" for a in args):
            if name in ("as_posix", "__str__"):
                return const(str(cval(p)))
            try:
                return const(getattr(cval(p), name)(*[cval(a) for a in args]))
            except Exception as e:
                I.raise_exc(st, type(e).__name__, node, implicit=True)
        if name in ("as_posix", "__str__"):
            return mk("fn", "str", (p, const("")))
        if name in ("with_name", "with_stem", "with_suffix") and p.op == "const":
            # keep the directory when only the new name is symbolic
            par = str(cval(p).parent)
            pre = "" if par == "." else (par if par.endswith("/") else par + "/")
            if name == "with_suffix":
                return mk("fn", "path", (I_().strcat(const(pre + cval(p).stem), args[0]),))
            if name == "with_stem":
                return mk("fn", "path", (I_().strcat(const(pre), args[0], const(cval(p).suffix)),))
            return mk("fn", "path", (I_().strcat(const(pre), args[0]),))
        return mk("fn", "path", (mk("fn", "path." + name, (p,) + tuple(args)),))
    if name in ("glob", "iterdir", "rglob"):
        return do_glob(I, st, I_().strcat(pstr(p), const("/"), args[0] if args else const("*")), node, aspath=True)
    if name == "expanduser":
        return p
    return mk("fn", "call", (mk("fn", "meth", (p, const(name))),) + tuple(I.content(st, a) for a in args))


def exists_atom(I, p, what="exists"):
    f = I.ctx.get("exists")
    if f is not None:
        r = f(absstr(p), what)
        if r is not None:
            return const(r)
    return mk("fn", "truth", (mk("fn", "exists", (absstr(p),)),))


def do_glob(I, st, pat, node, aspath=False):
    g = I.ctx.get("glob")
    if g is not None and is_str(pat):
        r = g(cval(absstr(pat)))
        if r is not None:
            return I.new_list(st, [const(PurePosixPath(x)) if aspath else const(x) for x in r])
    return I.new_list(st, mk("fn", "glob", (pat,)))


def do_open(I, st, name, args, kw, node):
    mode = kw.get("mode", args[0] if args else const("r"))
    f = ref(I.alloc(st, "file", None, "fresh", {"src": absstr(name), "mode": mode}))
    I.event("open", node, st, path=absstr(name), mode=mode, oid=f.args[0])
    if is_str(mode) and any(c in cval(mode) for c in "wax+"):
        fs_effect(I, st, "write", name, node)
    return f


def file_method(I, st, r, name, args, kw, node):
    o = I.obj(st, r)
    if name == "read":
        I.event("readfile", node, st, path=o.f["src"])
        if is_str(o.f["mode"]) and "b" in cval(o.f["mode"]):
            return mk("fn", "bytes", (o.f["src"],))
        return mk("fn", "str", (mk("fn", "text", (o.f["src"],)), const("")))
    if name == "close":
        I.event("close", node, st, oid=r.args[0])
        return NONE
    if name == "write":
        I.event("filewrite", node, st, path=o.f["src"], data=I.content(st, args[0]) if args else NONE)
        return fresh("n", "n")
    return fresh("file." + name)


def hul_method(I, st, r, name, args, kw, node):
    o = I.obj(st, r)
    if name == "close":
        I.event("close", node, st, oid=r.args[0])
        return NONE
    if name == "writeto":
        fs_effect(I, st, "write", args[0], node, data=NONE)
        return NONE
    return NONE


def hdu_method(I, st, r, name, args, kw, node):
    o = I.obj(st, r)
    if name == "writeto":
        d = o.f.get(".data", NONE)
        h = o.f.get(".header", NONE)
        a = args[0] if args else kw.get("name", kw.get("fileobj", NONE))
        fs_effect(I, st, "write", a, node, data=I.content(st, d), shape=I.shape(st, d), header=I.content(st, h) if h.op == "ref" else NONE,
                  overwrite=I.truth(st, kw.get("overwrite", args[2] if len(args) > 2 else FALSE)), fits=True)
        return NONE
    if name == "copy":
        return deep(I, st, r)
    return NONE


def async_token(I, st, node):
    tok = fresh("job")
    I.event("async", node, st, token=tok)
    return tok


def pool_method(I, st, r, name, args, kw, node):
    if name in ("close", "terminate", "shutdown"):
        I.event("close", node, st, oid=r.args[0])
        return NONE
    if name in ("join",):
        return NONE
    if name in ("map", "starmap", "imap", "imap_unordered", "map_async", "starmap_async"):
        star = name.startswith("starmap")
        f, seq = args[0], args[1] if len(args) > 1 else kw.get("iterable", NONE)
        if name == "map" and len(args) > 2 and not is_int_const(args[2]) and I.obj(st, r).f.get("kindname") is const("executor"):
            seq = mk("zip", tuple(args[1:]))
            star = True
        I.event("parallel", node, st, how=name, func=f)
        items = I.iter_items(st, seq)
        apart = I.obj(st, r).f.get("apart") is TRUE
        if items is not None:
            out = []
            if apart:      # a worker process gets copies of its arguments
                items = [deep(I, st, x) for x in items]
            for x in items:
                if star:
                    xs = I.iter_items(st, x)
                    if xs is None:
                        out.append(fresh("par"))
                        continue
                    out.append(I.call(st, f, xs, {}, node))
                else:
                    out.append(I.call(st, f, [x], {}, node))
            if name == "imap_unordered":      # delivered as they finish: here, last first
                out.reverse()
            if apart:
                out = [deep(I, st, x) for x in out]
            res = I.new_list(st, out)
        else:
            n, g, lo, step = I.sym_iter(st, seq)
            k = atom("k%d" % tm.uid(), "n")
            L = I_().Loop(k, n, lo, step, node, "par")
            old = I.loops
            I.loops = old + (L,)
            s2 = st.copy()
            s2.assume(cmp("le", ZERO, k))
            s2.assume(cmp("lt", k, n))
            try:
                x = g(s2, k)
                if star:
                    f0 = f
                    xs = I.iter_items(s2, x)
                    v = I.call(s2, f, xs, {}, node) if xs is not None else fresh("par")
                else:
                    v = I.call(s2, f, [x], {}, node)
                v = I.content(s2, v)
                kb = I_().bvar(v)
                res = I.new_list(st, mk("lmap", tm.subst(v, {k: kb}), kb, n))
            finally:
                I.loops = old
        if name.endswith("_async"):
            return mk("fn", "async", (res, async_token(I, st, node)))
        return res
    if name in ("apply", "apply_async", "submit"):
        if name == "submit":
            a = list(args[1:])
            if I.obj(st, r).f.get("apart") is TRUE:
                a = [deep(I, st, x) for x in a]
            v = I.call(st, args[0], a, kw, node)
        else:
            a = I.iter_items(st, args[1]) if len(args) > 1 else (I.iter_items(st, kw["args"]) if "args" in kw else [])
            if I.obj(st, r).f.get("apart") is TRUE:
                a = [deep(I, st, x) for x in a or []]
            v = I.call(st, args[0], a or [], {}, node)
        return v if name == "apply" else mk("fn", "async", (v, async_token(I, st, node)))
    return fresh("pool." + name)


# ------------------------------------------------------------------ regular expressions on constants
def re_call(I, st, name, args, kw, node):
    if all_const(args) and all(isinstance(cval(a), str) for a in args[:2]) and len(args) >= 2:
        f = getattr(_re, name)
        flags = 0
        try:
            r = f(*[cval(a) for a in args])
        except Exception:
            return fresh("re")
        if r is None:
            return NONE
        if name in ("search", "match", "fullmatch"):
            return mk("fn", "rematch", (args[0], args[1], const(name)))
        if name in ("findall", "split"):
            return lift(st, I, list(r))
        if isinstance(r, str):
            return const(r)
    if name == "compile" and args and is_str(args[0]):
        return mk("fn", "regex", (args[0],))
    return mk("fn", "re." + name, tuple(I.content(st, a) for a in args))


def match_method(I, st, r, name, args):
    pat, s, how = [cval(x) for x in r.args[1]]
    m = getattr(_re, how)(pat, s)
    try:
        x = getattr(m, name)(*[cval(a) for a in args])
    except Exception:
        return fresh("re")
    return lift(st, I, x)


# ------------------------------------------------------------------ external calls
EXC_NAMES = {n for n in dir(__builtins__ if not isinstance(__builtins__, dict) else object)} if False else None


def ext_call(I, st, d, args, kw, node):
    if d.startswith("numpy.") or d in ("scipy.linalg.pinv",):
        return npm.np_call(I, st, d, args, kw, node)
    if d.startswith("builtins."):
        return builtin_call(I, st, d[9:], args, kw, node)
    f = EXT.get(d)
    if f is not None:
        return f(I, st, args, kw, node)
    root = d.split(".")[0]
    if root == "math":
        n = d.split(".")[1]
        if n == "radians":
            return tm.ew("deg2rad", args[0])
        if n == "degrees":
            return tm.ew("rad2deg", args[0])
        if n in ("floor", "ceil", "trunc"):
            x = args[0]
            if is_num(x):
                import math
                return const(getattr(math, n)(num(x)))
            if n == "trunc":
                return tm.to_int(x)
            nd = tm.numden(x)
            if nd and tm.is_int_valued(nd[0]) and tm.is_int_valued(nd[1]):
                if n == "floor":
                    return tm.floordiv(nd[0], nd[1])
                return npm.ceildiv(nd[0], nd[1])
            return mk("fn", n, (x,))
        if n in ("sqrt", "cos", "sin", "tan", "atan", "exp", "log", "isnan", "isfinite", "fabs"):
            if n in ("sin", "cos", "tan"):
                I.event("trig", node, st, name=n, arg=I.content(st, args[0]))
            return tm.ew({"atan": "arctan", "fabs": "abs"}.get(n, n), I.content(st, args[0]))
        if n in ("atan2", "hypot", "pow"):
            return tm.ew({"atan2": "arctan2"}.get(n, n), *[I.content(st, a) for a in args])
        if n == "isclose":
            return mk("fn", "truth", (mk("fn", "isclose", tuple(args)),))
    if root == "re" and d.count(".") == 1:
        return re_call(I, st, d[3:], args, kw, node)
    if d.startswith("os.path."):
        return os_path(I, st, d[8:], args, kw, node)
    if root == "operator" and d.count(".") == 1:
        m = {"add": "add", "sub": "sub", "mul": "mul", "truediv": "div", "floordiv": "floordiv", "mod": "mod", "pow": "pow"}.get(d[9:])
        if m:
            return I.binop(st, m, args[0], args[1], node)
        if d[9:] == "itemgetter" and len(args) == 1:
            return mk("fn", "itemgetter", (args[0],))
    if root in ("logging",) or d in ("time.sleep", "warnings.warn", "warnings.filterwarnings", "warnings.simplefilter", "traceback.print_exc", "gc.collect"):
        if d == "logging.getLogger":
            return fresh("logger")
        return NONE
    if root == "datetime":
        r = date_call(d.split(".")[1:], args, kw, I, st, node)
        if r is not None:
            return r
    if root in ("time", "datetime", "random", "pytz", "uuid", "tempfile", "getpass", "socket", "platform"):
        return fresh(d)
    if d == "matplotlib.pyplot.subplots":
        return subplots(I, st, args, kw, node)
    if root in ("matplotlib",):
        I.event("opaque", node, st, obj=mk("ext", d.rpartition(".")[0]), name=d.rpartition(".")[2], args=[I.content(st, a) for a in args],
                kw={k: I.content(st, v) for k, v in kw.items()})
        return fresh(d)
    if root == "numba":
        # decorator factory or typed container
        if args and args[0].op == "func":
            I.funcs[args[0].args[0]].flags.add("kernel")
            return args[0]
        if d.endswith("prange"):
            return mk("range", *range_args(args))
        return mk("fn", "decor", (d,))
    if d.startswith("PIL"):
        return pil_call(I, st, d, args, kw, node)
    if d in ("functools.lru_cache", "functools.cache"):
        if args and args[0].op == "func":
            I.funcs[args[0].args[0]].flags.add("cached")
            return args[0]
        return mk("fn", "decor", (d,))
    if d in ("functools.wraps",):
        return mk("fn", "decor", (d,))
    if d.split(".")[-1] in ("dataclass", "contextmanager", "wraps"):
        return mk("fn", "decor", (d,)) if not args or args[0].op != "func" else args[0]
    if d == "scipy.interpolate.interp1d":
        kd = args[2] if len(args) > 2 else kw.get("kind")
        if kd is not None and (kd.op == "other" or (kd.op == "const" and isinstance(cval(kd), str) and cval(kd) not in INTERP_KINDS)):
            I.raise_exc(st, "NotImplementedError", node)
    if d == "scipy.interpolate.interp1d" and len(args) >= 2 and set(kw) <= {"kind", "fill_value", "axis"} and len(args) == 2:
        ax = kw.get("axis", const(-1))
        nd = ndim(I.content(st, args[1]))
        if ax is NONE or (is_int_const(ax) and (num(ax) == -1 or (nd is not None and num(ax) == nd - 1))):
            fv = kw.get("fill_value", NONE)
            return mk("fn", "interp1d", (I.content(st, args[0]), I.content(st, args[1]), I.shape(st, args[0]), I.shape(st, args[1]),
                                         kw.get("kind", const("linear")), fv))
    last = d.split(".")[-1]
    if root in ("scipy", "cv2", "skimage", "pandas", "astropy"):
        cs = tuple(I.content(st, a) for a in args) + tuple(tup(const(k), I.content(st, v)) for k, v in sorted(kw.items()))
        t = mk("fn", "ext:" + d, cs)
        if d.startswith("scipy.ndimage") and args:
            if "output" in kw and I.is_arr(st, kw["output"]):
                I.write_content(st, kw["output"], t, node)
                return kw["output"]
            sh = I.shape(st, args[0])
            layers, opts = window_layers(I, st, args, kw, sh)
            if layers is None:
                return t
            hook = I.ctx.get("ndimage")
            out = []
            for c, s in layers:
                b = hook(I, st, last, c, s) if hook is not None else None
                out.append(mk("fn", "mfilter", (const(d), c) + opts) if b is None else b)
            return I.new_arr(st, out[0] if len(out) == 1 and layers[0][1] is sh else mk("stack", tuple(out)), sh)
        return t
    cs = tuple(I.content(st, a) for a in args) + tuple(tup(const(k), I.content(st, v)) for k, v in sorted(kw.items()))
    return mk("fn", "ext:" + d, cs)


def window_layers(I, st, args, kw, sh):
    """The images a filter is applied to, one by one, and its options in a canonical form: a window of one element along the
    first axis of a stack of images, or a filter along the last two axes, filters each image of the stack alone."""
    opts = dict(kw)
    for k, v in zip(("size", "footprint", "output", "mode", "cval", "origin"), args[1:]):
        opts[k] = v
    opts = {k: v for k, v in opts.items() if v is not NONE}
    c = I.content(st, args[0])
    dims = list(sh.args[0]) if sh.op == "tuple" else None
    apart = False
    axes = I.iter_items(st, opts["axes"]) if "axes" in opts else None
    if axes is not None and dims is not None and all(is_int_const(x) for x in axes):
        ax = sorted(num(x) % len(dims) for x in axes)
        if ax == list(range(len(dims))):
            del opts["axes"]
        elif len(dims) == 3 and ax == [1, 2]:
            apart = True
            del opts["axes"]
    if "axes" in opts:
        return None, None
    size = I.iter_items(st, opts["size"]) if "size" in opts and not (is_num(opts["size"]) or opts["size"].op == "atom") else None
    if size is not None:
        if len(size) == 3 and dims is not None and len(dims) == 3 and not apart and size[0] is ONE:
            apart, size = True, size[1:]
        opts["size"] = size[0] if len(set(size)) == 1 else mk("tuple", tuple(size))
    extra = tuple(tup(const(k), I.content(st, v)) for k, v in sorted(opts.items()))
    if not apart:
        return [(c, sh)], extra
    if not is_int_const(dims[0]) or num(dims[0]) > 64:
        return None, None
    return [(sel(c, (const(k),)), mk("tuple", tuple(dims[1:]))) for k in range(num(dims[0]))], extra


def pil_call(I, st, d, args, kw, node):
    # PIL images: fromarray copies, rotate/resize return new images; the pixel array is recovered with asarray
    if d.endswith("fromarray"):
        return mk("fn", "pil", (I.content(st, args[0]), I.shape(st, args[0])))
    return mk("fn", "ext:" + d, tuple(I.content(st, a) for a in args))


def range_args(args):
    if len(args) == 1:
        return ZERO, args[0], ONE
    if len(args) == 2:
        return args[0], args[1], ONE
    return tuple(args[:3])


def os_path(I, st, n, args, kw, node):
    a = [I.simp(st, x) for x in args]
    if a and a[0].op == "ite":
        return I.cases(st, a[0], lambda s, v: os_path(I, s, n, [v] + a[1:], kw, node))
    ps = [pstr(x) for x in a]
    if n == "join" or n == "sep.join":
        if all(is_str(x) for x in ps):
            return const(posixpath.join(*[cval(x) for x in ps]))
        out = []
        for k, x in enumerate(ps):
            if k and not (is_str(out[-1]) and cval(out[-1]).endswith("/")):
                out.append(const("/"))
            out.append(x)
        return I_().strcat(*out)
    if n in ("abspath", "realpath", "normpath"):
        if is_str(ps[0]):
            return absstr(ps[0]) if n != "normpath" else const(posixpath.normpath(cval(ps[0])))
        return mk("fn", "str", (mk("fn", "abspath", (ps[0],)), const("")))
    if n in ("basename", "dirname", "splitext", "split", "isabs", "commonpath") and all(is_str(x) for x in ps):
        return lift(st, I, getattr(posixpath, n)(*[cval(x) for x in ps]))
    if n in ("exists", "isfile", "isdir", "lexists"):
        return exists_atom(I, ps[0], {"isdir": "is_dir", "isfile": "is_file"}.get(n, n))
    if n == "isabs":
        return mk("fn", "truth", (mk("fn", "isabs", (ps[0],)),))
    if n == "splitext":
        return tup(mk("fn", "str", (mk("fn", "stem", (ps[0],)), const(""))), mk("fn", "str", (mk("fn", "ext", (ps[0],)), const(""))))
    if n in ("basename", "dirname", "expanduser"):
        return mk("fn", "str", (mk("fn", n, (ps[0],)), const("")))
    if n in ("getsize",):
        return mk("fn", "len", (mk("fn", "bytes", (absstr(ps[0]),)),))
    return mk("fn", "ext:os.path." + n, tuple(ps))


def x_path(I, st, args, kw, node):
    if not args:
        return const(PurePosixPath("."))
    r = mkpath(args[0])
    for a in args[1:]:
        r = path_join(r, a)
    return r


def x_fits_open(I, st, args, kw, node):
    name = args[0] if args else kw.get("name", NONE)
    h = ref(I.alloc(st, "hul", None, "fresh", {"src": absstr(name)}))
    I.event("open", node, st, path=absstr(name), mode=const("rb"), oid=h.args[0], fits=True)
    m = kw.get("mode", args[1] if len(args) > 1 else NONE)
    if is_str(m) and cval(m) in ("update", "append"):
        I.event("fs", node, st, op="write", path=absstr(name), data=NONE)
    return h


def x_fits_getdata(I, st, args, kw, node):
    I.event("open", node, st, path=absstr(args[0]), mode=const("rb"), oid=None, fits=True)
    hd = make_hdu_from_file(I, st, absstr(args[0]), ZERO)
    return I.obj(st, hd).f[".data"]


def x_fits_getheader(I, st, args, kw, node):
    hd = make_hdu_from_file(I, st, absstr(args[0]), ZERO)
    return I.obj(st, hd).f[".header"]


def x_fits_writeto(I, st, args, kw, node):
    d = args[1] if len(args) > 1 else kw.get("data", NONE)
    h = args[2] if len(args) > 2 else kw.get("header", NONE)
    fs_effect(I, st, "write", args[0], node, data=I.content(st, d), shape=I.shape(st, d), header=I.content(st, h) if h.op == "ref" else NONE,
              overwrite=I.truth(st, kw.get("overwrite", FALSE)), fits=True)
    return NONE


def x_primary_hdu(I, st, args, kw, node):
    data = args[0] if args else kw.get("data", NONE)
    header = args[1] if len(args) > 1 else kw.get("header", NONE)
    if header.op == "ref":
        o = I.obj(st, header)
        hdr = ref(I.alloc(st, "hdr", None, "fresh", {"items": o.f.get("items", mk("dictt", ())), "base": o.f.get("base", NONE)}))
    else:
        shp = I.shape(st, data)
        hdr = ref(I.alloc(st, "hdr", None, "fresh", {"items": mk("dictt", ()), "base": mk("fn", "newhdr", ())}))
    shp = I.shape(st, data)
    if shp.op == "tuple" and len(shp.args[0]) == 2:
        d = dict(I.obj(st, hdr).f["items"].args[0]) if I.obj(st, hdr).f["items"].op == "dictt" else None
        if d is not None:
            d[const("NAXIS1")] = shp.args[0][1]
            d[const("NAXIS2")] = shp.args[0][0]
            I.setf(st, hdr.args[0], "items", mk("dictt", tuple(d.items())))
    return ref(I.alloc(st, "inst", "astropy.io.fits.PrimaryHDU", "fresh", {".data": data, ".header": hdr}))


def x_header(I, st, args, kw, node):
    return ref(I.alloc(st, "hdr", None, "fresh", {"items": mk("dictt", ()), "base": mk("fn", "newhdr", ())}))


def x_pool(I, st, args, kw, node):
    p = ref(I.alloc(st, "pool", None, "fresh", {"n": args[0] if args else kw.get("processes", kw.get("max_workers", NONE)), "kindname": const("pool")}))
    I.event("open", node, st, path=NONE, mode=NONE, oid=p.args[0], pool=True)
    return p


def x_procpool(I, st, args, kw, node):
    p = x_pool(I, st, args, kw, node)
    I.setf(st, p.args[0], "apart", TRUE)
    return p


def x_procexecutor(I, st, args, kw, node):
    p = x_executor(I, st, args, kw, node)
    I.setf(st, p.args[0], "apart", TRUE)
    return p


def x_as_completed(I, st, args, kw, node):
    items = I.iter_items(st, args[0])
    if items is None:
        return args[0]
    return I.new_list(st, list(items)[::-1])


def x_executor(I, st, args, kw, node):
    p = x_pool(I, st, args, kw, node)
    I.setf(st, p.args[0], "kindname", const("executor"))
    return p


def x_remove(I, st, args, kw, node):
    fs_effect(I, st, "remove", args[0], node)
    return NONE


def x_mkdir(I, st, args, kw, node):
    fs_effect(I, st, "mkdir", args[0], node, parents=TRUE, exist_ok=I.truth(st, kw.get("exist_ok", FALSE)))
    return NONE


def x_rename(I, st, args, kw, node):
    fs_effect(I, st, "rename", args[0], node, to=absstr(args[1]))
    return NONE


INTERP_KINDS = ("linear", "nearest", "nearest-up", "zero", "slinear", "quadratic", "cubic", "previous", "next")


def x_exit(I, st, args, kw, node):
    I.event("exit", node, st)
    I.raise_exc(st, "SystemExit", node)


def x_tqdm(I, st, args, kw, node):
    return args[0] if args else kw.get("iterable", NONE)


def x_partial(I, st, args, kw, node):
    return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items())))


def x_product(I, st, args, kw, node):
    import itertools
    its = [I.iter_items(st, a) for a in args]
    rep = num(kw["repeat"]) if "repeat" in kw and is_int_const(kw["repeat"]) else 1
    if all(i is not None for i in its):
        res = [mk("tuple", t) for t in itertools.product(*(its * rep))]
        if len(res) <= 256:
            return I.new_list(st, res)
    return I.new_list(st, fresh("product", "seq", 1))


def x_chain(I, st, args, kw, node):
    its = [I.iter_items(st, a) for a in args]
    if all(i is not None for i in its):
        return I.new_list(st, [x for i in its for x in i])
    return I.new_list(st, fresh("chain", "seq", 1))


def x_reduce(I, st, args, kw, node):
    items = I.iter_items(st, args[1])
    if items is None:
        return fresh("reduce")
    if len(args) > 2:
        items = [args[2]] + items
    r = items[0]
    for x in items[1:]:
        r = I.call(st, args[0], [r, x], {}, node)
    return r


def x_cwd(I, st, args, kw, node):
    return const(str(CWD))


def x_pathcwd(I, st, args, kw, node):
    return const(CWD)


def x_glob(I, st, args, kw, node):
    return do_glob(I, st, pstr(args[0]), node)


def x_curve_fit(I, st, args, kw, node):
    names = ["f", "xdata", "ydata", "p0", "sigma", "absolute_sigma", "check_finite", "bounds", "method", "jac"]
    a = dict(zip(names, args))
    a.update(kw)
    uid = "fit%d" % tm.uid()
    p0 = a.get("p0", NONE)
    sh = I.shape(st, p0)
    n = sh.args[0][0] if sh.op == "tuple" and sh.args[0] else NONE
    I.event("curve_fit", node, st, args={k: (I.content(st, v)) for k, v in a.items()}, refs=a, uid=uid)
    choose = I.ctx.get("fit")
    if choose is not None:
        r = choose(I, st, a)
        if r is None:
            I.raise_exc(st, "RuntimeError", node, implicit=True)
        par, cov = r
        n = len(par)
        return tup(I.new_arr(st, mk("stack", tuple(par)), tup(const(n))),
                   I.new_arr(st, mk("stack", tuple(mk("stack", tuple(x)) for x in cov)), tup(const(n), const(n))))
    par = mk("fn", "fitparam", (const(uid),))
    cov = mk("fn", "fitcov", (const(uid),))
    if n is not NONE and is_int_const(n):
        par = mk("stack", tuple(atom("%s.p%d" % (uid, i), "s") for i in range(num(n))))
        cov = mk("stack", tuple(mk("stack", tuple(atom("%s.c%d%d" % (uid, i, j), "s") for j in range(num(n)))) for i in range(num(n))))
        return tup(I.new_arr(st, par, tup(n)), I.new_arr(st, cov, tup(n, n)))
    return tup(I.new_arr(st, par), I.new_arr(st, cov))


def x_as_strided(I, st, args, kw, node):
    return I.new_arr(st, mk("fn", "as_strided", tuple(I.content(st, a) for a in args)))


def x_copy(I, st, args, kw, node):
    return shallow(I, st, args[0])


def x_deepcopy(I, st, args, kw, node):
    return deep(I, st, args[0])


def x_none(I, st, args, kw, node):
    return NONE


def x_nullcontext(I, st, args, kw, node):
    return mk("fn", "nullcontext", (args[0] if args else NONE,))


def x_suppress(I, st, args, kw, node):
    I.event("suppress", node, st, names=[tm.show(a) for a in args])
    return fresh("suppress")


EXT = {
    "pathlib.Path": x_path, "pathlib.PurePath": x_path, "pathlib.PosixPath": x_path, "pathlib.Path.cwd": x_pathcwd,
    "astropy.io.fits.open": x_fits_open, "astropy.io.fits.getdata": x_fits_getdata, "astropy.io.fits.getheader": x_fits_getheader,
    "astropy.io.fits.writeto": x_fits_writeto, "astropy.io.fits.PrimaryHDU": x_primary_hdu, "astropy.io.fits.ImageHDU": x_primary_hdu,
    "astropy.io.fits.Header": x_header,
    "multiprocessing.Pool": x_procpool, "multiprocessing.pool.Pool": x_procpool, "multiprocessing.pool.ThreadPool": x_pool,
    "concurrent.futures.ProcessPoolExecutor": x_procexecutor, "concurrent.futures.as_completed": x_as_completed, "concurrent.futures.ThreadPoolExecutor": x_executor,
    "os.remove": x_remove, "os.unlink": x_remove, "os.makedirs": x_mkdir, "os.mkdir": x_mkdir, "os.rename": x_rename, "os.replace": x_rename,
    "shutil.move": x_rename, "shutil.rmtree": x_remove, "os.rmdir": x_remove,
    "sys.exit": x_exit, "os._exit": x_exit, "os.abort": x_exit, "builtins.exit": x_exit,
    "tqdm.tqdm": x_tqdm, "tqdm.auto.tqdm": x_tqdm, "tqdm.trange": lambda I, st, a, k, n: mk("range", *range_args(a)),
    "functools.partial": x_partial, "itertools.product": x_product, "itertools.chain": x_chain, "functools.reduce": x_reduce,
    "os.getcwd": x_cwd, "glob.glob": x_glob, "glob.iglob": x_glob, "scipy.optimize.curve_fit": x_curve_fit,
    "numpy.lib.stride_tricks.as_strided": x_as_strided, "copy.copy": x_copy, "copy.deepcopy": x_deepcopy,
    "contextlib.nullcontext": x_nullcontext, "contextlib.suppress": x_suppress,
    "os.fspath": lambda I, st, a, k, n: pstr(a[0]),
}


# ------------------------------------------------------------------ builtins
def type_of(I, st, v):
    v = I.simp(st, v)
    if v.op == "ite":
        return ite(v.args[0], type_of(I, st, v.args[1]), type_of(I, st, v.args[2]))
    B = lambda n: mk("ext", "builtins." + n)
    if v.op == "const":
        x = cval(v)
        if isinstance(x, PurePosixPath):
            return mk("ext", "pathlib.PosixPath")
        if isinstance(x, Fraction):
            return B("float")
        return B("NoneType" if x is None else type(x).__name__)
    if v.op == "ref":
        o = I.obj(st, v)
        if o.kind in ("arr", "view"):
            return mk("ext", "numpy.ndarray")
        if o.kind in ("list", "dict", "set"):
            return B(o.kind)
        if o.kind == "hdr":
            return mk("ext", "astropy.io.fits.Header")
        if o.kind == "inst":
            return mk("class", o.cls) if o.cls in I.classes else mk("ext", o.cls)
        return B(o.kind)
    if v.op == "tuple":
        return B("tuple")
    if v.op in ("other",) or I_().is_stringish(v):
        return B("str")
    if v.op == "atom" and v.args[1] in ("i", "n", "p"):
        return B("int")
    if v.op == "atom" and v.args[1] == "s" or (tm.is_numeric_like(v) and ndim(v) == 0):
        return B("int") if tm.is_int_valued(v) else B("float")
    if v.op == "range":
        return B("range")
    if v.op in ("func", "bound"):
        return mk("ext", "types.FunctionType")
    if v.op == "fn" and v.args[0] in ("bytes", "bslice"):
        return B("bytes")
    if is_path(v):
        return mk("ext", "pathlib.PosixPath")
    return mk("fn", "type", (v,))


NUMERIC_TYPES = {"builtins.int", "builtins.float", "numbers.Number", "numpy.number", "numpy.generic", "numbers.Real", "numpy.integer", "numpy.floating", "numbers.Integral", "builtins.bool", "builtins.complex"}


def isinst(I, st, v, c):
    c = I.simp(st, c)
    if c.op == "tuple":
        return or_(*[isinst(I, st, v, x) for x in c.args[0]])
    t = type_of(I, st, v)
    if t.op == "ite":
        return ite(t.args[0], isinst(I, st, v.args[1], c) if v.op == "ite" else mk("fn", "truth", (fresh("isinst"),)),
                   isinst(I, st, v.args[2], c) if v.op == "ite" else mk("fn", "truth", (fresh("isinst"),)))
    if t is c:
        return TRUE
    if t.op == "class":
        if c.op == "class":
            return const(c.args[0] in I.mro(t.args[0]))
        if c.op == "ext":
            return const(c.args[0] in I.mro(t.args[0]) or c.args[0] == "builtins.object")
    if t.op == "ext" and c.op in ("ext", "class"):
        a = t.args[0]
        b = c.args[0] if c.op == "ext" else None
        if b is None:
            return FALSE
        if a in ("builtins.int", "builtins.float"):
            if v.op == "const":
                if b in ("builtins.int", "numbers.Integral"):
                    return const(a == "builtins.int")
                if b == "builtins.float":
                    return const(a == "builtins.float")
                if b in ("numbers.Number", "numbers.Real"):
                    return TRUE
                return FALSE
            if b in NUMERIC_TYPES:
                if a == "builtins.int" and b in ("builtins.int", "numbers.Number", "numbers.Real", "numbers.Integral"):
                    return TRUE
                if b in ("numbers.Number", "numbers.Real"):
                    return TRUE
                if a == "builtins.float" and b == "builtins.float" and v.op == "atom":
                    return TRUE
                return FALSE if b in ("builtins.bool",) else mk("fn", "truth", (mk("fn", "isinstance", (v, c)),))
            return FALSE
        if a == "builtins.bool":
            return const(b in ("builtins.int", "builtins.bool"))
        if a == "pathlib.PosixPath":
            return const(b in ("pathlib.Path", "pathlib.PurePath", "os.PathLike", "pathlib.PurePosixPath", "pathlib.PosixPath"))
        if a == "builtins.list" or a == "builtins.tuple":
            return const(b.split(".")[-1] in (a.split(".")[-1], "Iterable", "Sequence", "Sized", "Collection"))
        if a == "builtins.dict":
            return const(b.split(".")[-1] in ("dict", "Mapping", "Iterable", "MutableMapping"))
        if a == "builtins.str":
            return const(b.split(".")[-1] in ("str", "Iterable", "Sequence"))
        return FALSE
    return mk("fn", "truth", (mk("fn", "isinstance", (v, c)),))


def do_sorted(I, st, seq, kw, node):
    items = I.iter_items(st, seq)
    rev = I.truth(st, kw.get("reverse", FALSE))
    if items is not None:
        key = kw.get("key", NONE)
        keys = items if key is NONE else [I.call(st, key, [x], {}, node) for x in items]
        try:
            ks = [pyvalue(I, st, k) for k in keys]
            order = sorted(range(len(items)), key=lambda i: ks[i], reverse=rev is TRUE)
            return I.new_list(st, [items[i] for i in order])
        except (ValueError, TypeError):
            pass
        # tuples with constant, distinct first components
        try:
            ks = [pyvalue(I, st, k.args[0][0]) if k.op == "tuple" else pyvalue(I, st, k) for k in keys]
            if len(set(ks)) == len(ks):
                order = sorted(range(len(items)), key=lambda i: ks[i], reverse=rev is TRUE)
                return I.new_list(st, [items[i] for i in order])
        except (ValueError, TypeError, AttributeError):
            pass
        if len(items) <= 1:
            return I.new_list(st, items)
        return I.new_list(st, [mk("fn", "sorted%d" % i, tuple(I.content(st, x) for x in items) + (rev,)) for i in range(len(items))])
    return I.new_list(st, mk("fn", "sorted", (I.content(st, seq), rev)))


def builtin_call(I, st, n, args, kw, node):
    args = [I.simp(st, a) for a in args]
    a0 = args[0] if args else None
    if n == "print":
        return NONE
    if n == "len":
        return do_len(I, st, a0, node)
    if n == "range":
        return mk("range", *range_args(args))
    if n == "enumerate":
        return mk("enum", a0, args[1] if len(args) > 1 else kw.get("start", ZERO))
    if n == "zip":
        if len(args) == 1 and args[0].op == "fn" and args[0].args[0] == "star":
            return mk("fn", "unzip", args[0].args[1])
        return mk("zip", tuple(args))
    if n == "reversed":
        return mk("rev", a0)
    if n == "type":
        return type_of(I, st, a0)
    if n == "isinstance":
        return isinst(I, st, a0, args[1])
    if n == "issubclass":
        if a0.op == "class" and args[1].op == "class":
            return const(args[1].args[0] in I.mro(a0.args[0]))
        return mk("fn", "truth", (fresh("issubclass"),))
    if n in ("int",):
        if a0 is None:
            return ZERO
        if len(args) > 1 or is_str(a0) or I_().is_stringish(a0):
            if a0.op == "const" and isinstance(cval(a0), str):
                try:
                    return const(int(cval(a0), *[num(x) for x in args[1:]]))
                except ValueError:
                    I.raise_exc(st, "ValueError", node, implicit=True)
            if a0.op == "fn" and a0.args[0] == "bits" and len(args) > 1 and args[1] is const(2):
                bs = a0.args[1]
                return add(*[mul(const(2 ** (len(bs) - 1 - k)), b) for k, b in enumerate(bs)])
            return mk("fn", "int", (mk("fn", "parse", tuple(args)),))
        c = I.content(st, a0)
        if c.op == "ite":
            return tm.apply_cases(c, tm.to_int)
        return tm.to_int(c)
    if n == "float":
        if a0 is None:
            return ZERO
        c = I.content(st, a0)
        if is_str(c):
            try:
                return const(float(cval(c)))
            except ValueError:
                I.raise_exc(st, "ValueError", node, implicit=True)
        if tm.is_numeric_like(c):
            return c
        return mk("fn", "float", (c,))
    if n == "bool":
        return I.truth(st, a0) if a0 is not None else FALSE
    if n == "str":
        if a0 is None:
            return const("")
        if is_path(a0):
            return pstr(a0) if a0.op == "const" or I_().is_stringish(pstr(a0)) else mk("fn", "str", (a0, const("")))
        if a0.op == "ite":
            return tm.apply_cases(a0, lambda x: pstr(x) if is_path(x) and x.op == "const" else I_().to_str(x))
        return I_().to_str(I.content(st, a0))
    if n == "format" and len(args) > 1:
        if a0.op == "const" and is_const(args[1]) and isinstance(cval(a0), (int, str, float)):
            try:
                return const(format(cval(a0), cval(args[1])))
            except (ValueError, TypeError):
                pass
        return mk("fn", "str", (I.content(st, a0), args[1]))
    if n in ("repr", "ascii", "format"):
        return mk("fn", "str", (I.content(st, a0), const(n)))
    if n == "bin":
        return mk("fn", "binstr", (a0,)) if a0.op != "const" else const(bin(num(a0)))
    if n == "abs":
        return I.elementwise(st, "abs", [a0], node)
    if n == "round":
        c = I.content(st, a0)
        if is_num(c) and len(args) == 1:
            return const(round(num(c)))
        if len(args) == 1 and ndim(c) == 0 and tm.whole("round", c) is not None:
            return tm.whole("round", c)
        return mk("fn", "round", tuple(I.content(st, x) for x in args))
    if n in ("min", "max"):
        items = args if len(args) > 1 else I.iter_items(st, a0)
        if items is not None and "key" not in kw:
            if not items:
                I.raise_exc(st, "ValueError", node, implicit=True)
            if all(x.op == "const" and isinstance(cval(x), (str, _dt.date)) for x in items):
                try:
                    return const((min if n == "min" else max)(cval(x) for x in items))
                except TypeError:
                    I.raise_exc(st, "TypeError", node, implicit=True)
            r = I.content(st, items[0])
            for x in items[1:]:
                r = tm.ew(n, r, I.content(st, x))
            return r
        if items is not None:
            keys = [I.content(st, I.call(st, kw["key"], [x], {}, node)) for x in items]
            if all(is_num(k) for k in keys):
                return items[(min if n == "min" else max)(range(len(items)), key=lambda i: num(keys[i]))]
            if items:
                best = 0
                for i in range(1, len(items)):      # the first of the smallest keys, when every comparison is settled
                    b = cmp("lt", keys[i], keys[best]) if n == "min" else cmp("lt", keys[best], keys[i])
                    if b not in (TRUE, FALSE):
                        best = None
                        break
                    best = i if b is TRUE else best
                if best is not None:
                    return items[best]
            return mk("fn", "arg" + n, (mk("tuple", tuple(I.content(st, x) for x in items)), mk("tuple", tuple(keys))))
        return mk("fn", "reduce_" + n, (I.content(st, a0),))
    if n == "sum":
        items = I.iter_items(st, a0)
        if items is not None:
            r = args[1] if len(args) > 1 else kw.get("start", ZERO)
            for x in items:
                r = I.binop(st, "add", r, x, node)
            return r
        return mk("fn", "sum", (I.content(st, a0),))
    if n in ("any", "all"):
        items = I.iter_items(st, a0)
        if items is not None:
            ts = [I.truth(st, x) for x in items]
            return or_(*ts) if n == "any" else and_(*ts)
        c = I.content(st, a0)
        return mk("fn", n, (c,))
    if n in ("list", "tuple", "set", "frozenset"):
        if a0 is None:
            items = []
        else:
            items = I.iter_items(st, a0)
        if n == "tuple":
            if items is not None:
                return mk("tuple", tuple(items))
            c = I.content(st, a0)
            return I.new_list(st, c if c.op in ("lmap", "cat") else mk("fn", "seq", (c,)))
        if n in ("set", "frozenset"):
            t = mk("tuple", tuple(dict.fromkeys(items))) if items is not None else mk("fn", "setof", (I.content(st, a0),))
            return ref(I.alloc(st, "set", None, "fresh", {"items": t}))
        if items is not None:
            return I.new_list(st, items)
        c = I.content(st, a0)
        return I.new_list(st, c if c.op in ("lmap", "cat") or (c.op == "atom" and c.args[1] == "seq") else mk("fn", "seq", (c,)))
    if n == "dict":
        if a0 is None:
            return I.new_dict(st, [(const(k), v) for k, v in kw.items()])
        if a0.op == "ref" and I.obj(st, a0).kind in ("dict", "hdr"):
            o = I.obj(st, a0)
            r = ref(I.alloc(st, "dict", None, "fresh", dict(o.f)))
            for k, v in kw.items():
                setitem(I, st, r, const(k), v, node)
            return r
        items = I.iter_items(st, a0)
        if items is not None:
            prs = [I.iter_items(st, x) for x in items]
            if all(p is not None and len(p) == 2 for p in prs):
                d = {}
                for p in prs:
                    d[p[0]] = p[1]
                d.update({const(k): v for k, v in kw.items()})
                return I.new_dict(st, d.items())
        return I.new_dict(st, (), base=mk("fn", "dictof", (I.content(st, a0),)))
    if n == "sorted":
        return do_sorted(I, st, a0, kw, node)
    if n == "map":
        if len(args) == 2:
            items = I.iter_items(st, args[1])
            if items is not None:
                return I.new_list(st, [I.call(st, a0, [x], {}, node) for x in items])
        return I.new_list(st, fresh("map", "seq", 1))
    if n == "filter":
        items = I.iter_items(st, args[1])
        if items is not None:
            ts = [I.truth(st, x) if a0 is NONE else I.truth(st, I.call(st, a0, [x], {}, node)) for x in items]
            if all(t.op == "const" for t in ts):
                return I.new_list(st, [x for x, t in zip(items, ts) if t is TRUE])
        return I.new_list(st, fresh("filter", "seq", 1))
    if n == "iter":
        return ref(I.alloc(st, "iter", None, "fresh", {"src": a0}))
    if n == "next":
        if a0.op == "ref":
            o = I.obj(st, a0)
            src = o.f["src"] if o.kind == "iter" else a0
            items = I.iter_items(st, src)
            if items is not None:
                if items:
                    I.setf(st, a0.args[0], "src" if o.kind == "iter" else "items", mk("tuple", tuple(items[1:])))
                    return items[0]
                if len(args) > 1:
                    return args[1]
                I.raise_exc(st, "StopIteration", node, implicit=True)
            return mk("fn", "elem", (I.content(st, src), ZERO)) if src.op != "fn" else mk("fn", "elem", (src, ZERO))
        items = I.iter_items(st, a0)
        if items:
            return items[0]
        if items == [] and len(args) > 1:
            return args[1]
        return fresh("next")
    if n == "getattr":
        if is_str(args[1]):
            if len(args) > 2:
                has = has_attr(I, st, a0, cval(args[1]))
                if has is False:
                    return args[2]
            return I.getattr(st, a0, cval(args[1]), node)
        if args[1].op == "other":
            I.event("raise_unknown", node, st)
            I.raise_exc(st, "AttributeError", node, implicit=False)
        if args[1].op == "ite":
            return I.cases(st, args[1], lambda s, v: builtin_call(I, s, n, [a0, v] + args[2:], kw, node))
        return fresh("getattr")
    if n == "hasattr":
        if is_str(args[1]):
            h = has_attr(I, st, a0, cval(args[1]))
            if h is not None:
                return const(h)
        return mk("fn", "truth", (fresh("hasattr"),))
    if n == "setattr":
        if is_str(args[1]):
            I.setattr(st, a0, cval(args[1]), args[2], node)
        return NONE
    if n == "delattr":
        return NONE
    if n == "callable":
        return const(a0.op in ("func", "bound", "class", "ext", "extm", "partial"))
    if n == "open":
        return do_open(I, st, a0 if a0 is not None else kw.get("file", NONE), args[1:], kw, node)
    if n == "divmod":
        return tup(I.binop(st, "floordiv", a0, args[1], node), I.binop(st, "mod", a0, args[1], node))
    if n == "pow":
        return I.binop(st, "pow", a0, args[1], node)
    if n == "slice":
        if len(args) == 1:
            return sl(NONE, args[0])
        return sl(*args)
    if n in ("exit", "quit"):
        return x_exit(I, st, args, kw, node)
    if n == "bytes" or n == "bytearray" or n == "memoryview":
        if a0 is not None and a0.op == "fn" and a0.args[0] in ("bytes", "bslice"):
            return a0
        return fresh("bytes")
    if n == "vars":
        return I.getattr(st, a0, "__dict__", node)
    if n in ("id", "hash", "input", "object", "globals", "locals"):
        return fresh(n)
    if n == "ord" and is_str(a0):
        return const(ord(cval(a0)))
    if n == "chr" and is_int_const(a0):
        return const(chr(num(a0)))
    if n == "property":
        return mk("property", a0, args[1] if len(args) > 1 else NONE)
    if n == "staticmethod":
        return mk("static", a0)
    if n == "classmethod":
        return mk("clsm", a0)
    import builtins
    c = getattr(builtins, n.split(".")[0], None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return fresh("exc." + n)
    if n.startswith("str.") and args:
        return str_method(I, st, a0, n[4:], args[1:], kw, node)
    if n == "int.from_bytes" and args:
        order = kw.get("byteorder", args[1] if len(args) > 1 else const("big"))
        if is_const(order) and cval(order) in ("big", "little") and kw.get("signed", FALSE) is FALSE:
            return mk("fn", "frombytes", (I.content(st, a0), order))
    if n.startswith("dict.fromkeys"):
        its = I.iter_items(st, a0)
        if its is not None:
            return I.new_dict(st, [(x, args[1] if len(args) > 1 else NONE) for x in dict.fromkeys(its)])
    return mk("fn", "ext:builtins." + n, tuple(I.content(st, a) for a in args))


def has_attr(I, st, b, name):
    if b.op == "ref":
        o = I.obj(st, b)
        if o.kind == "inst" and o.cls in I.classes:
            v = o.f.get("." + name)
            if v is not None and not I_().has_undef(v):
                return True
            if I.class_attr(st, o.cls, name) is not None:
                return True
            if v is None and not I.has_ext_base(o.cls):
                return False
            return None
        if o.kind in ("arr", "view"):
            return name in ("shape", "dtype", "ndim", "T", "size", "data", "flat", "real") or name in npm.ARR_METHODS
        if o.kind == "list":
            return hasattr([], name)
        if o.kind == "dict":
            return hasattr({}, name)
        return None
    if b.op == "const":
        x = cval(b)
        if isinstance(x, PurePosixPath):
            return None
        return hasattr(float(x) if isinstance(x, Fraction) else x, name)
    if b.op in ("atom", "poly") and tm.is_numeric_like(b) and ndim(b) == 0:
        return hasattr(1.0, name)
    if b.op == "tuple":
        return hasattr((), name)
    return None


def do_len(I, st, v, node):
    items = I.iter_items(st, v)
    if items is not None:
        return const(len(items))
    if v.op == "ite":
        return ite(v.args[0], do_len(I, st, v.args[1], node), do_len(I, st, v.args[2], node))
    if v.op == "const" and isinstance(cval(v), (str, bytes, tuple)):
        return const(len(cval(v)))
    if v.op == "ref":
        o = I.obj(st, v)
        if o.kind in ("arr", "view"):
            s = I.shape(st, v)
            if s.op == "tuple" and s.args[0]:
                return s.args[0][0]
            return mk("fn", "len", (I.content(st, v),))
        if o.kind in ("list", "set"):
            it = I.simp(st, o.f["items"])
            return seq_len(it)
        if o.kind in ("dict", "hdr"):
            it = o.f["items"]
            if it.op == "dictt" and o.f.get("base", NONE) is NONE:
                return const(len(it.args[0]))
            return mk("fn", "len", (I.content(st, v),))
        if o.kind == "inst" and o.cls in I.classes:
            f = I.class_attr(st, o.cls, "__len__")
            if f is not None:
                return I.call(st, I.bind(f, v), [], {}, node)
            I.event("typeerror", node, st, what="object has no len()")
            I.raise_exc(st, "TypeError", node, implicit=True)
    if v.op in ("cat", "lmap"):
        return seq_len(v)
    if v.op == "range" and v.args[2] is ONE:
        return sub(v.args[1], v.args[0])
    if v.op == "fn" and v.args[0] == "bslice" and v.args[1][2] is not NONE:
        return sub(v.args[1][2], v.args[1][1])
    if v is NONE or (tm.is_numeric_like(v) and ndim(v) == 0 and v.op != "fn"):
        I.event("typeerror", node, st, what="object has no len()")
        I.raise_exc(st, "TypeError", node, implicit=True)
    return mk("fn", "len", (v,))


def seq_len(it):
    if it.op == "tuple":
        return const(len(it.args[0]))
    if it.op == "lmap":
        return it.args[2]
    if it.op == "cat":
        return add(*[seq_len(x) for x in it.args[0]])
    if it.op == "ite":
        return ite(it.args[0], seq_len(it.args[1]), seq_len(it.args[2]))
    return mk("fn", "len", (it,))


def np_matmul(I, st, args, kw, node):
    return npm.matmul(I, st, args, kw, node)
