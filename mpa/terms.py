"""Hash-consed value terms with canonical forms (the value-numbering domain).

Numbers and element-wise array expressions are kept as (Laurent) polynomials with exact rational
coefficients over opaque bases; everything else is an uninterpreted, hash-consed term.  Two program
expressions that normalise to the same term compute the same value.  Nothing here evaluates repo code.
"""
from __future__ import annotations
from fractions import Fraction
import math
import time

_table: dict = {}
_count = [0]
_uid = [0]


class T:
    __slots__ = ("op", "args", "id", "_s", "_nd", "_at")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def set_uid(n):
    _uid[0] = n


def uid():
    _uid[0] += 1
    return _uid[0]


def _key(a):
    if isinstance(a, T):
        return a.id
    if isinstance(a, tuple):
        return ("t",) + tuple(_key(x) for x in a)
    return (type(a).__name__, a)


def mk(op, *args):
    k = (op, _key(args))
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t._s = None
        t._nd = -1
        t._at = None
        _count[0] += 1
        t.id = _count[0]
        _table[k] = t
    return t


class _NaN:
    pass


def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        return mk("const", v)
    if isinstance(v, int):
        return mk("const", v)
    if isinstance(v, float):
        if math.isnan(v):
            return mk("fn", "nan", ())
        if math.isinf(v):
            return mk("fn", "inf", ()) if v > 0 else neg(mk("fn", "inf", ()))
        f = Fraction(repr(v))
        return mk("const", f.numerator if f.denominator == 1 else f)
    if isinstance(v, Fraction):
        return mk("const", v.numerator if v.denominator == 1 else v)
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)
UNDEF = mk("undef")
PI = mk("atom", "pi", "s", None)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def is_num(t):
    return t.op == "const" and isinstance(t.args[0], (int, Fraction))  # includes bool


def num(t):
    v = t.args[0]
    return int(v) if isinstance(v, bool) else v


def is_int_const(t):
    return t.op == "const" and isinstance(t.args[0], int)


def is_str(t):
    return t.op == "const" and isinstance(t.args[0], str)


def atom(name, kind="s", ndim=None, **info):
    """kind: 's' real scalar, 'r' positive real scalar, 'i' integer scalar, 'n' non-negative integer, 'p' positive integer, 'a' array, 'x' anything, 'str'."""
    return mk("atom", RENAME[0] + name, kind, ndim)


RENAME = [""]   # prefix of the atoms created while set (a second, independent set of inputs)
SHAPES = {}   # array-valued term -> tuple of extents (for terms that do not determine them)


def fresh(name, kind="x", ndim=None):
    return mk("atom", "%s#%d" % (name, uid()), kind, ndim)


class Budget(BaseException):
    """the time allowed for one obligation is used up"""


DEADLINE = [None]     # absolute time


def tick():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Budget()


def memo(f):
    """results of the pure term builders, by identity of the (hash-consed) arguments"""
    cache = {}

    def g(*args):
        r = cache.get(args)
        if r is None:
            if len(cache) & 255 == 0:
                tick()
            r = cache[args] = f(*args)
        return r
    g.__wrapped__ = f
    return g


# ---------------------------------------------------------------- polynomials
def poly(t):
    if t.op == "const" and isinstance(t.args[0], (int, Fraction)):
        v = num(t)
        return {(): v} if v != 0 else {}
    if t.op == "poly":
        return dict(t.args[0])
    return {((t, 1),): 1}


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(((m, (c.numerator if isinstance(c, Fraction) and c.denominator == 1 else c))
                          for m, c in d.items()), key=lambda mc: tuple((b.id, e) for b, e in mc[0])))
    return mk("poly", items)


MAXP = 600


@memo
def add(*ts):
    d = {}
    for t in ts:
        for m, c in poly(t).items():
            d[m] = d.get(m, 0) + c
    if len(d) > MAXP:
        return mk("fn", "bigadd", ts)
    return from_poly(d)


def neg(t):
    return from_poly({m: -c for m, c in poly(t).items()})


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    """returns (monomial, [polys to multiply in])"""
    e = dict(m1)
    for b, x in m2:
        e[b] = e.get(b, 0) + x
    extra = []
    out = []
    for b, x in e.items():
        if x == 0:
            continue
        if isinstance(x, Fraction) and x.denominator == 1:
            x = int(x)
        if b.op in ("poly", "const") and isinstance(x, int) and x > 0:
            extra.append((b, x))
            continue
        if is_boolish(b) and isinstance(x, int) and x > 1:
            x = 1
        out.append((b, x))
    out.sort(key=lambda bx: bx[0].id)
    return tuple(out), extra


def is_boolish(t):
    return t.op in ("cmp", "and", "or", "not") or (t.op == "const" and isinstance(t.args[0], bool)) or (
        t.op == "fn" and t.args[0] in ("isnan", "truth", "any", "all", "isin", "isfinite"))


@memo
def is_boolnest(t):
    """truth values, or arrays of them"""
    if t.op in ("stack", "inter"):
        return all(is_boolnest(x) for x in t.args[0])
    if t.op == "ite":
        return is_boolnest(t.args[1]) and is_boolnest(t.args[2])
    return is_boolish(t)


@memo
def mul(*ts):
    r = {(): 1}
    for t in ts:
        p = poly(t)
        if len(r) * len(p) > MAXP:
            return mk("fn", "bigmul", ts)
        n = {}
        for m1, c1 in r.items():
            for m2, c2 in p.items():
                m, extra = _mono_mul(m1, m2)
                if extra:
                    q = {m: c1 * c2}
                    for b, x in extra:
                        bp = poly(b)
                        for _ in range(x):
                            q2 = {}
                            for ma, ca in q.items():
                                for mb, cb in bp.items():
                                    mm, ex2 = _mono_mul(ma, mb)
                                    if ex2:
                                        return mk("fn", "bigmul", ts)
                                    q2[mm] = q2.get(mm, 0) + ca * cb
                            q = q2
                            if len(q) > MAXP:
                                return mk("fn", "bigmul", ts)
                    for mm, cc in q.items():
                        n[mm] = n.get(mm, 0) + cc
                else:
                    n[m] = n.get(m, 0) + c1 * c2
        r = n
    if not r and any(b.op == "fn" and b.args[0] in ("inf", "nan") for t in ts for m in poly(t) for b, x in m):
        return mk("fn", "nan", ())
    return from_poly(r)


@memo
def inv(t):
    p = poly(t)
    if not p:
        return mk("fn", "inf", ())
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((b, -e) for b, e in m): Fraction(1) / c})
    # normalise by leading coefficient
    lead = sorted(p.items(), key=lambda mc: tuple((b.id, e) for b, e in mc[0]))[0][1]
    base = from_poly({m: Fraction(c) / lead for m, c in p.items()})
    return from_poly({((base, -1),): Fraction(1) / lead})


def div(a, b):
    if a is b and not (is_num(b) and num(b) == 0):
        return ONE
    return mul(a, inv(b))


def power(a, e):
    """e: Fraction/int"""
    if isinstance(e, Fraction) and e.denominator == 1:
        e = int(e)
    if isinstance(e, int):
        if e >= 0:
            if e > 8:
                return mk("fn", "pow", (a, const(e)))
            r = ONE
            for _ in range(e):
                r = mul(r, a)
            return r
        return inv(power(a, -e))
    if is_num(a):
        v = num(a)
        if v == 0:
            return ZERO
        if e == Fraction(1, 2) and v > 0:
            f = Fraction(v)
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return const(Fraction(n, d))
    if e.denominator != 2:
        return mk("fn", "pow", (a, const(e)))
    p = poly(a)
    # pull out a positive rational square content, to make sqrt(4x) == 2 sqrt(x)
    return from_poly({((a, e),): 1}) if a.op != "poly" or len(p) > 1 else _sqrt_mono(a, p, e)


def _sqrt_mono(a, p, e):
    (m, c), = p.items()
    k = e.numerator
    if c > 0:
        f = Fraction(c)
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            rest = from_poly({m: 1})
            return mul(const(Fraction(n, d) ** k), from_poly({((rest, e),): 1}))
    return from_poly({((a, e),): 1})


def sqrt(a):
    return power(a, Fraction(1, 2))


def num_equal(a, b):
    """Canonical equality of rational functions (denominators cleared)."""
    if a is b:
        return True
    d = sub(a, b)
    for _ in range(8):
        if d is ZERO:
            return True
        if d.op != "poly":
            return False
        worst = {}
        for m, c in d.args[0]:
            for b_, e in m:
                if b_.op == "poly" and e < 0:
                    worst[b_] = min(worst.get(b_, 0), e)
        if not worst:
            return False
        b_, e = sorted(worst.items(), key=lambda x: x[0].id)[0]
        k = -e
        k = math.ceil(k)
        d2 = mul(d, power(b_, k))
        if d2 is d:
            return False
        d = d2
    return d is ZERO


# ---------------------------------------------------------------- booleans
def not_(c):
    if c.op == "const":
        return const(not cval(c)) if isinstance(cval(c), bool) else mk("not", c)
    if c.op == "not":
        return c.args[0]
    if c.op == "cmp":
        o, a, b = c.args
        if o == "lt":
            return mk("cmp", "le", b, a)
        if o == "le":
            return mk("cmp", "lt", b, a)
        if o == "eq":
            return mk("cmp", "ne", a, b)
        if o == "ne":
            return mk("cmp", "eq", a, b)
    if c.op == "and":
        return or_(*[not_(x) for x in c.args[0]])
    if c.op == "or":
        return and_(*[not_(x) for x in c.args[0]])
    return mk("not", c)


def and_(*cs):
    s = []
    for c in cs:
        if c is TRUE:
            continue
        if c is FALSE:
            return FALSE
        for x in (c.args[0] if c.op == "and" else (c,)):
            if x not in s:
                s.append(x)
    for x in s:
        if not_s(x) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk("and", tuple(sorted(s, key=lambda t: t.id)))


def not_s(c):
    """cheap negation for membership tests"""
    if c.op in ("and", "or"):
        return mk("not", c)
    return not_(c)


def or_(*cs):
    s = []
    for c in cs:
        if c is FALSE:
            continue
        if c is TRUE:
            return TRUE
        for x in (c.args[0] if c.op == "or" else (c,)):
            if x not in s:
                s.append(x)
    for x in s:
        if not_s(x) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return mk("or", tuple(sorted(s, key=lambda t: t.id)))


def _lead_sign(d):
    p = poly(d)
    its = [(m, c) for m, c in p.items() if m != ()]
    if not its:
        return 1
    its.sort(key=lambda mc: tuple((b.id, e) for b, e in mc[0]))
    return 1 if its[0][1] > 0 else -1


def cmp(op, a, b):
    if op == "gt":
        return cmp("lt", b, a)
    if op == "ge":
        return cmp("le", b, a)
    if is_num(a) and is_num(b):
        x, y = num(a), num(b)
        return const({"lt": x < y, "le": x <= y, "eq": x == y, "ne": x != y}[op])
    if op in ("lt", "le") and a.op == "const" and b.op == "const" and type(cval(a)) is type(cval(b)) and hasattr(cval(a), "isoformat"):
        return const(cval(a) < cval(b) if op == "lt" else cval(a) <= cval(b))
    if op in ("eq", "ne"):
        if a is b and a.op != "fn":
            return const(op == "eq")
        if a.op == "const" and b.op == "const":
            return const((cval(a) == cval(b)) == (op == "eq"))
        for x, y in ((a, b), (b, a)):
            if x.op == "other" and y.op == "const":
                return const(op == "ne")
            if x.op == "const" and isinstance(cval(x), (str, type(None))) and is_numeric_like(y):
                return const(op == "ne")
            if x.op == "const" and isinstance(cval(x), (str,)) and y.op == "const":
                return const(op == "ne")
        if is_numeric_like(a) and is_numeric_like(b):
            d = sub(a, b)
            if is_num(d):
                return const((num(d) == 0) == (op == "eq"))
            if sign_of(d) is not None:
                return const(op == "ne")
            if _lead_sign(d) < 0:
                d = neg(d)
            # scale to integer primitive
            d = _primitive(d)
            c0 = poly(d).get((), 0)
            rest = sub(d, const(c0))
            return mk("cmp", op, rest, const(-c0))
        if b.id < a.id and not (b.op == "const"):
            a, b = b, a
        return mk("cmp", op, a, b)
    if is_numeric_like(a) and is_numeric_like(b):
        d = sub(a, b)  # d < 0 / d <= 0
        if is_num(d):
            return const(num(d) < 0 if op == "lt" else num(d) <= 0)
        sg = sign_of(d)
        if sg is not None:
            return const(sg < 0)
        d = _primitive(d)
        c0 = poly(d).get((), 0)
        rest = sub(d, const(c0))
        if _lead_sign(rest) < 0:  # -r + c < 0  <=>  c < r
            return mk("cmp", op, const(c0), neg(rest))
        return mk("cmp", op, rest, const(-c0))
    return mk("cmp", op, a, b)


def _primitive(d):
    p = poly(d)
    g = None
    for c in p.values():
        f = abs(Fraction(c))
        g = f if g is None else Fraction(math.gcd(g.numerator * f.denominator, f.numerator * g.denominator),
                                         g.denominator * f.denominator)
    if not g or g == 1:
        return d
    return from_poly({m: Fraction(c) / g for m, c in p.items()})


def is_numeric_like(t):
    if t.op == "const":
        return isinstance(t.args[0], (int, Fraction))
    if t.op in ("poly", "sel", "cmp"):
        return True
    if t.op == "atom":
        return t.args[1] in ("s", "i", "n", "a", "p", "r")
    if t.op == "fn":
        return t.args[0] in NUMERIC_FN
    if t.op in ("inter", "stack", "store", "loopst"):
        return True
    if t.op == "ite":
        return is_numeric_like(t.args[1]) and is_numeric_like(t.args[2])
    return False


NUMERIC_FN = {
    "mod", "floordiv", "int", "sqrt", "cos", "sin", "arctan2", "arctan", "tan", "mean", "std", "median", "abs", "max", "min",
    "where", "fitsdata", "rawdata", "sum", "len", "dim", "exp", "pinv", "reduce_max", "reduce_min", "round", "floor", "ceil",
    "bigadd", "bigmul", "pow", "inf", "nan", "chunk", "var", "matmul", "reshape", "transpose", "astype", "single", "float", "lsum", "any", "all", "bitor",
    "bitand", "shl", "shr", "xor", "flip", "rot90", "repeat", "rebin", "roi", "congrid", "uninit", "fitparam", "meshgrid_x",
    "meshgrid_y", "arange", "hypot", "ceildiv", "reshapedim", "arcsin", "arccos", "log", "deg", "sign", "std_dev", "median_filter", "mfilter", "pilrotate"
}


def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if c.op == "not" or (c.op == "cmp" and c.args[0] == "ne"):
        return ite(not_(c), b, a)
    if is_boolval(a) and is_boolval(b):
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is FALSE:
            return and_(c, a)
        if b is TRUE:
            return or_(not_(c), a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", c, a, b)


def is_boolval(t):
    return t is TRUE or t is FALSE or t.op in ("cmp", "and", "or", "not")


# ---------------------------------------------------------------- shape/kind helpers
def ndim(t):
    if t._nd != -1:
        return t._nd
    r = _ndim(t)
    t._nd = r
    return r


SCALAR_FN = {"mean", "std", "median", "reduce_max", "reduce_min", "len", "dim", "inf", "nan", "any", "all", "var", "lsum_s"}


def _ndim(t):
    if t.op == "const":
        return 0
    if t.op == "atom":
        if t.args[1] in ("s", "i", "n", "p", "r"):
            return 0
        return t.args[2]
    if t.op == "poly":
        r = 0
        for m, c in t.args[0]:
            for b, e in m:
                n = ndim(b)
                if n is None:
                    return None
                r = max(r, n)
        return r
    if t.op in ("cmp",):
        a, b = ndim(t.args[1]), ndim(t.args[2])
        return None if a is None or b is None else max(a, b)
    if t.op in ("and", "or"):
        ns = [ndim(x) for x in t.args[0]]
        return None if None in ns else max(ns)
    if t.op == "not":
        return ndim(t.args[0])
    if t.op == "ite":
        a, b = ndim(t.args[1]), ndim(t.args[2])
        return a if a == b else None
    if t.op == "stack":
        ns = [ndim(x) for x in t.args[0]]
        return None if None in ns or not ns else 1 + max(ns)
    if t.op == "inter":
        return 2
    if t.op == "store":
        return ndim(t.args[0])
    if t.op in ("loopst", "iter") and SHAPES.get(t) is not None:
        return len(SHAPES[t])
    if t.op == "sel":
        n = ndim(t.args[0])
        if n is None:
            return None
        for i in t.args[1]:
            if i.op == "sl":
                continue
            if i is NONE:
                n += 1
            elif ndim(i) == 0:
                n -= 1
            else:
                return None
        return max(n, 0)
    if t.op == "fn":
        if t.args[0] in SCALAR_FN:
            return 0
        if t.args[0] in EW_FN:
            ns = [ndim(x) for x in t.args[1] if isinstance(x, T)]
            return None if None in ns or not ns else max(ns)
        if t.args[0] in ("mod", "floordiv", "int", "ceildiv", "reshapedim"):
            ns = [ndim(x) for x in t.args[1] if isinstance(x, T)]
            return None if None in ns or not ns else max(ns)
        if t.args[0] == "interp1":
            return ndim(t.args[1][1])
        if t.args[0] in ("pilrotate", "T", "rot90", "flip"):
            return ndim(t.args[1][0])
        if t.args[0] == "fitsdata":
            return 2
        if t.args[0] == "rawdata":
            a = t.args[1]
            return 1 if len(a) > 1 and is_const(a[1]) and str(cval(a[1])).lstrip("<>=|") in ("uint8", "u1", "B") else 2
        if t.args[0] == "bytestream":
            return 1
        if t.args[0] == "reshape" and len(t.args[1]) > 1 and t.args[1][1].op == "tuple":
            return len(t.args[1][1].args[0])
        if t.args[0] == "uninit":
            return None
    return None


EW_FN = {"sqrt", "cos", "sin", "tan", "arctan2", "arctan", "abs", "max", "min", "where", "exp", "log", "isnan", "hypot", "pow",
         "round", "floor", "ceil", "astype", "single", "bitor", "mod", "bitand", "shl", "shr", "xor", "sign", "isfinite", "arcsin", "arccos"}


def is_int_valued(t):
    if t.op == "const":
        return isinstance(t.args[0], int)
    if t.op == "atom":
        return t.args[1] in ("i", "n", "p")
    if t.op == "poly":
        return all((isinstance(c, int)) and all(isinstance(e, int) and e > 0 and is_int_valued(b) for b, e in m)
                   for m, c in t.args[0])
    if t.op == "fn":
        return t.args[0] in ("mod", "floordiv", "int", "len", "dim", "ceildiv", "reshapedim", "bitor", "bitand", "shl", "shr") and all(
            t.args[0] not in ("mod",) or is_int_valued(x) for x in t.args[1])
    if t.op == "ite":
        return is_int_valued(t.args[1]) and is_int_valued(t.args[2])
    if is_boolish(t):
        return True
    return False


def exact_div(a, b):
    """a / b as integer-coefficient polynomial, or None."""
    q = div(a, b)
    if is_int_valued(q):
        return q
    return None


def numden(t):
    """t = N / D with N, D integer polynomials (D single monomial) or None."""
    p = poly(t)
    den = {}
    lc = 1
    for m, c in p.items():
        f = Fraction(c)
        lc = lc * f.denominator // math.gcd(lc, f.denominator)
        for b, e in m:
            if e < 0:
                if not isinstance(e, int):
                    return None
                den[b] = max(den.get(b, 0), -e)
    D = const(lc)
    for b, e in den.items():
        D = mul(D, power(b, e))
    N = mul(t, D)
    return N, D


def floordiv(a, b):
    if is_num(a) and is_num(b) and num(b) != 0:
        return const(num(a) // num(b))
    q = div(a, b)
    if is_int_valued(a) and is_int_valued(b):
        if is_int_valued(q):
            return q
        # (b*k + r) // b with 0 <= const r < b const
        if is_int_const(b) and num(b) > 0:
            n = num(b)
            p = poly(a)
            whole, rest = {}, {}
            for m, c in p.items():
                w = (c // n) * n if isinstance(c, int) else 0
                if w:
                    whole[m] = w
                if c - w:
                    rest[m] = c - w
            if whole and rest:
                r = from_poly(rest)
                if is_num(r):
                    return add(div(from_poly(whole), b), const(num(r) // n))
                return add(div(from_poly(whole), b), mk("fn", "floordiv", (r, b)))
    return mk("fn", "floordiv", (a, b))


def to_int(t):
    if is_num(t):
        return const(math.trunc(num(t)))
    if is_int_valued(t):
        return t
    nd = numden(t)
    if nd:
        N, D = nd
        if is_int_valued(N) and is_int_valued(D) and D is not ONE and is_nonneg(N):     # truncation is not floor below zero
            return floordiv(N, D)
    if t.op == "poly" and is_nonneg(t):
        p = poly(t)
        q = p.get((), 0)
        rest = from_poly({m: k for m, k in p.items() if m != ()})
        if q != 0 and is_int_valued(rest):
            return add(rest, const(math.floor(q)))
    if t.op in ("poly", "fn", "sel") and closed(t) and CLOSED_EVAL[0] is not None:
        v = CLOSED_EVAL[0](t)
        if v is not None and abs(v) < 2 ** 40 and abs(v - round(v)) > 1e-9:
            return const(math.trunc(v))
    return mk("fn", "int", (t,))


def mod(a, b):
    if is_num(a) and is_num(b) and num(b) != 0:
        return const(num(a) % num(b))
    if is_int_valued(a) and is_int_valued(b):
        q = div(a, b)
        if is_int_valued(q):
            return ZERO
        p = poly(a)
        if is_int_const(b) and num(b) > 0:
            n = num(b)
            r = {m: c % n for m, c in p.items() if isinstance(c, int)}
            if len(r) == len(p):
                a2 = from_poly(r)
                if is_num(a2):
                    return const(num(a2) % n)
                if a2.op == "fn" and a2.args[0] == "mod" and a2.args[1][1] is b:
                    return a2
                a = a2
        else:
            rest = {m: c for m, c in p.items() if not is_int_valued(div(from_poly({m: c}), b))}
            if len(rest) < len(p):
                a = from_poly(rest)
    return mk("fn", "mod", (a, b))


# ---------------------------------------------------------------- traversal
def children(t):
    def rec(a):
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for x in a:
                yield from rec(x)
    return list(rec(t.args))


def atoms(t):
    """all sub-terms (as a frozenset), memoised"""
    if t._at is not None:
        return t._at
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        if x._at is not None:
            seen |= x._at
            continue
        seen.add(x)
        stack.extend(children(x))
    t._at = frozenset(seen)
    return t._at


def contains(t, pred):
    return any(pred(x) for x in atoms(t))


def show(t, depth=6):
    if not isinstance(t, T):
        return repr(t)
    if t.op == "const":
        return repr(t.args[0]) if not isinstance(t.args[0], Fraction) else str(t.args[0])
    if t.op == "atom":
        return str(t.args[0])
    if depth <= 0:
        return "..."
    s = lambda x: show(x, depth - 1)
    if t.op == "poly":
        parts = []
        for m, c in t.args[0]:
            ms = "*".join(s(b) + ("" if e == 1 else "^%s" % e) for b, e in m)
            parts.append(str(c) if not m else (ms if c == 1 else "%s*%s" % (c, ms)))
        return "(" + " + ".join(parts) + ")"
    if t.op == "fn":
        return "%s(%s)" % (t.args[0], ", ".join(s(x) if isinstance(x, T) else repr(x) for x in t.args[1]))
    if t.op == "cmp":
        return "(%s %s %s)" % (s(t.args[1]), {"lt": "<", "le": "<=", "eq": "==", "ne": "!="}[t.args[0]], s(t.args[2]))
    if t.op in ("and", "or"):
        return "(" + (" %s " % t.op).join(s(x) for x in t.args[0]) + ")"
    if t.op == "not":
        return "not " + s(t.args[0])
    if t.op == "ite":
        return "(%s if %s else %s)" % (s(t.args[1]), s(t.args[0]), s(t.args[2]))
    if t.op == "sl":
        f = lambda x: "" if x is NONE else s(x)
        return "%s:%s:%s" % (f(t.args[0]), f(t.args[1]), f(t.args[2]))
    if t.op == "sel":
        return "%s[%s]" % (s(t.args[0]), ", ".join(s(i) for i in t.args[1]))
    if t.op == "stack":
        return "stack[%s]" % ", ".join(s(x) for x in t.args[0])
    if t.op == "inter":
        return "interleave[%s]" % ", ".join(s(x) for x in t.args[0])
    if t.op == "store":
        return "store(%s, [%s] <- %s)" % (s(t.args[0]), ", ".join(s(i) for i in t.args[1]), s(t.args[2]))
    if t.op in ("tuple", "cat"):
        return "%s(%s)" % (t.op if t.op != "tuple" else "", ", ".join(s(x) for x in t.args[0]))
    return "%s%s" % (t.op, tuple(s(x) if isinstance(x, T) else x for x in t.args))


# ---------------------------------------------------------------- element-wise application & indexing
def sl(a=NONE, b=NONE, c=NONE):
    if c is ONE:
        c = NONE
    if a is ZERO and (c is NONE or (is_num(c) and num(c) > 0)):
        a = NONE
    return mk("sl", a, b, c)


FULL = sl()


def is_uninit(t):
    return t.op == "fn" and t.args[0] == "uninit"


@memo
def ew(name, *args):
    """element-wise function application with distribution over stacks/interleaves."""
    for a in args:
        if a.op == "stack":
            n = len(a.args[0])
            cols = []
            for k in range(n):
                row = []
                for x in args:
                    if x.op == "stack":
                        if len(x.args[0]) == n:
                            row.append(x.args[0][k])
                        elif len(x.args[0]) == 1:
                            row.append(x.args[0][0])
                        else:
                            return mk("fn", "ew_" + name, args)
                    else:
                        nx, na = ndim(x), ndim(a)
                        if nx is not None and (nx == 0 or (na is not None and nx < na)):
                            row.append(x)
                        elif nx is not None and na is not None and nx == na:
                            row.append(sel(x, (const(k),)))
                        elif nx is None or na is None:
                            row.append(x)
                        else:
                            return mk("fn", "ew_" + name, args)
                cols.append(ew(name, *row))
            return mk("stack", tuple(cols))
    if any(a.op == "inter" for a in args) and all(a.op == "inter" or ndim(a) == 0 or is_uninit(a) for a in args):
        return mk("inter", tuple(ew(name, *[(a.args[0][k] if a.op == "inter" else a) for a in args]) for k in range(4)))
    if name == "add":
        return add(*args)
    if name == "sub":
        return sub(*args)
    if name == "mul":
        return mul(*args)
    if name == "div":
        return div(*args)
    if name == "neg":
        return neg(*args)
    if name == "sqrt":
        return sqrt(*args)
    if name == "square":
        return mul(args[0], args[0])
    if name == "hypot":
        return sqrt(add(mul(args[0], args[0]), mul(args[1], args[1])))
    if name == "pow":
        if is_num(args[1]):
            return power(args[0], Fraction(num(args[1])))
        return mk("fn", "pow", args)
    if name == "deg2rad":
        return mul(args[0], PI, const(Fraction(1, 180)))
    if name == "rad2deg":
        return mul(args[0], inv(PI), const(180))
    if name in ("lt", "le", "gt", "ge", "eq", "ne"):
        return cmp(name, *args)
    if name == "and":
        return and_(*args)
    if name == "or":
        return or_(*args)
    if name == "not":
        return not_(*args)
    if name == "where":
        return where(*args)
    if name == "max":
        return vmax(*args)
    if name == "min":
        return vmin(*args)
    if name == "abs":
        return vabs(args[0])
    if name == "mod":
        return mod(*args)
    if name == "floordiv":
        return floordiv(*args)
    if name in ("round", "floor", "ceil", "trunc") and len(args) == 1:
        v = whole(name, args[0])
        if v is not None:
            return v
    if name in ("cos", "sin"):
        v = _principal(name, args[0])
        if v is not None:
            return v
    if name == "cos":
        a = args[0]
        if a is ZERO:
            return ONE
        if _lead_sign(a) < 0:
            a = neg(a)
        return mk("fn", "cos", (a,))
    if name == "sin":
        a = args[0]
        if a is ZERO:
            return ZERO
        if _lead_sign(a) < 0:
            return neg(mk("fn", "sin", (neg(a),)))
        return mk("fn", "sin", (a,))
    if name == "arctan2" and is_num(args[0]) and is_num(args[1]):
        y, x = num(args[0]), num(args[1])
        if y == 0 or x == 0 or abs(y) == abs(x):      # the eight principal directions
            e = (0 if x >= 0 else 4) if y == 0 else 2 if x == 0 else 1 if x > 0 else 3
            return mul(const(Fraction(e if y >= 0 else -e, 4)), PI)
    return mk("fn", name, args)


def whole(name, t):
    """floor, ceil, round of an integer, a constant or an integer plus a constant"""
    if is_num(t):
        q = num(t)
        if isinstance(q, float) and (q != q or abs(q) == float("inf")):
            return None
        return const({"round": round, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[name](q))
    if is_int_valued(t):
        return t
    if name != "trunc" and t.op == "poly":
        p = dict(poly(t))
        q = p.pop((), 0)
        rest = from_poly(p)
        if isinstance(q, (int, Fraction)) and is_int_valued(rest):
            if name == "round":
                return add(rest, const(math.floor(q + Fraction(1, 2)))) if Fraction(q) % 1 != Fraction(1, 2) else None
            return add(rest, const(math.floor(q) if name == "floor" else math.ceil(q)))
    return None


def vabs(a):
    if is_num(a):
        return const(abs(num(a)))
    p = poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        if m and all(isinstance(e, int) and e % 2 == 0 for b, e in m):
            return from_poly({m: abs(c)})
        if c != 1 and m:
            return mul(const(abs(c)), vabs(from_poly({m: 1})))
    if _lead_sign(a) < 0:
        a = neg(a)
    return mk("fn", "abs", (a,))


def _sorted2(name, a, b):
    if a is b:
        return a
    if is_num(a) and is_num(b):
        return const((max if name == "max" else min)(num(a), num(b)))
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk("fn", name, (x, y))


def vmax(a, b):
    return _sorted2("max", a, b)


def vmin(a, b):
    return _sorted2("min", a, b)


def where(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "not" or (c.op == "cmp" and c.args[0] == "ne"):
        return where(not_(c), b, a)
    if c.op == "cmp" and c.args[0] in ("lt", "le"):
        # max/min recognition: where(m < x, x, m) == max
        for x, y in ((a, b), (b, a)):
            d = cmp(c.args[0], x, y)   # x<y
            if d is c and not (is_num(x) and is_num(y)):
                return vmin(x, y) if x is a else vmax(x, y)
            d = cmp(c.args[0], y, x)
            if d is c:
                return vmax(x, y) if x is a else vmin(x, y)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    return mk("fn", "where", (c, a, b))


def apply_cases(t, fn):
    """map fn over the leaves of an ite tree"""
    if t.op == "ite":
        return ite(t.args[0], apply_cases(t.args[1], fn), apply_cases(t.args[2], fn))
    return fn(t)


def _parity_pat(idx):
    """idx == (j::2, i::2) -> (j,i) else None"""
    if len(idx) != 2:
        return None
    r = []
    for s in idx:
        if s.op != "sl" or s.args[1] is not NONE or not is_num(s.args[2]) or num(s.args[2]) != 2:
            return None
        a = 0 if s.args[0] is NONE else (num(s.args[0]) if is_int_const(s.args[0]) else None)
        if a not in (0, 1):
            return None
        r.append(a)
    return tuple(r)


def is_full(i):
    return i is FULL


def _norm_idx(idx):
    idx = list(idx)
    while idx and (idx[-1] is FULL or (idx[-1].op == "const" and cval(idx[-1]) is Ellipsis)):
        idx.pop()
    return tuple(idx)


def sel(c, idx):
    return _sel(c, _norm_idx(idx))


@memo
def _sel(c, idx):
    if not idx:
        return c
    if c.op == "ite":
        return ite(c.args[0], sel(c.args[1], idx), sel(c.args[2], idx))
    if idx[0] is NONE:  # newaxis
        return mk("stack", (sel(c, idx[1:]),)) if len(idx) > 1 else mk("stack", (c,))
    if c.op == "stack":
        i, rest = idx[0], idx[1:]
        comps = c.args[0]
        if is_int_const(i) and not isinstance(cval(i), bool):
            k = num(i)
            if -len(comps) <= k < len(comps):
                return sel(comps[k], rest)
            return mk("fn", "indexerror", (c, i))
        if i.op == "sl":
            vals = [None if x is NONE else (num(x) if is_int_const(x) else "?") for x in i.args]
            if "?" not in vals:
                picked = comps[slice(*vals)]
                if picked:
                    return mk("stack", tuple(sel(x, rest) for x in picked))
        if i.op == "tuple":
            if all(is_int_const(x) for x in i.args[0]):
                return mk("stack", tuple(sel(comps[num(x)], rest) for x in i.args[0]))
        return mk("sel", c, idx)
    if c.op == "inter":
        p = _parity_pat(idx)
        if p:
            return c.args[0][2 * p[0] + p[1]]
    if c.op == "fn" and c.args[0] == "arange" and len(idx) == 1 and is_int_const(idx[0]) and not isinstance(cval(idx[0]), bool) and num(idx[0]) >= 0:
        return add(c.args[1][0], mul(c.args[1][1], idx[0]))
    if c.op == "store":
        base, sidx, v = c.args
        if sidx == idx:
            return v
        if _disjoint(sidx, idx):
            return sel(base, idx)
    if c.op == "const":
        return c
    nd = ndim(c)
    if nd == 0 or is_uninit(c):
        return c
    if c.op == "atom" and c.args[0] in ("coordX", "coordY") and len(idx) == 2 and all(is_int_valued(i) for i in idx):
        return idx[1] if c.args[0] == "coordX" else idx[0]
    if c.op == "fn" and c.args[0] == "flat22" and len(idx) == 2 and is_int_const(idx[1]):
        k = num(idx[1])
        return sel(c.args[1][0], (idx[0], const(k // 2), const(k % 2)))
    scalar_or_slice = all(i.op == "sl" or ndim(i) == 0 for i in idx)
    if scalar_or_slice:
        if c.op == "poly":
            out = []
            ok = True
            for m, co in c.args[0]:
                f = [const(co)]
                for b, e in m:
                    if ndim(b) == 0:
                        f.append(power_any(b, e))
                    elif ndim(b) is None and len(c.args[0]) * len(m) > 1 and not _same_rank_ok(c):
                        ok = False
                    else:
                        f.append(power_any(sel(b, idx), e))
                out.append(mul(*f))
            if ok:
                return add(*out)
        if c.op == "fn" and c.args[0] in EW_FN:
            return ew(c.args[0], *[x if ndim(x) == 0 else sel(x, idx) for x in c.args[1]])
        if c.op == "cmp":
            a, b = [x if ndim(x) == 0 else sel(x, idx) for x in c.args[1:]]
            return cmp(c.args[0], a, b)
        if c.op in ("and", "or"):
            xs = [x if ndim(x) == 0 else sel(x, idx) for x in c.args[0]]
            return and_(*xs) if c.op == "and" else or_(*xs)
        if c.op == "sel":
            i1 = c.args[1]
            if all(i.op != "sl" and ndim(i) == 0 for i in i1):
                return sel(c.args[0], i1 + idx)
            comp = _compose(i1, idx)
            if comp is not None:
                return sel(c.args[0], comp)
    return mk("sel", c, idx)


def _same_rank_ok(c):
    ns = {ndim(b) for m, _ in c.args[0] for b, e in m if ndim(b) != 0}
    return len(ns) == 1  # all unknown alike: element-wise, treat as equal rank


def power_any(b, e):
    if isinstance(e, int):
        return power(b, e)
    return from_poly({((b, e),): 1}) if b.op != "const" else power(b, Fraction(e))


def _compose(i1, i2):
    """compose index i2 applied after i1 where i1 may contain slices; int/slice const arithmetic only"""
    out = []
    j = 0
    for a in i1:
        if a.op == "sl":
            if j < len(i2):
                b = i2[j]
                j += 1
                if a is FULL:
                    out.append(b)
                elif b is FULL:
                    out.append(a)
                elif b.op != "sl":
                    st = ZERO if a.args[0] is NONE else a.args[0]
                    sp = ONE if a.args[2] is NONE else a.args[2]
                    if is_num(st) and num(st) < 0 or is_num(sp) and num(sp) < 0:
                        return None
                    out.append(add(st, mul(sp, b)))
                else:
                    return None
            else:
                out.append(a)
        elif ndim(a) == 0:
            out.append(a)
        else:
            return None
    out.extend(i2[j:])
    return tuple(out)


def _disjoint(a, b):
    for x, y in zip(a, b):
        if x.op != "sl" and y.op != "sl":
            d = sub(x, y) if is_numeric_like(x) and is_numeric_like(y) else None
            if d is not None and is_num(d) and num(d) != 0:
                return True
        elif x.op == "sl" and y.op == "sl":
            xs, ys = x.args[2], y.args[2]
            if is_num(xs) and is_num(ys) and num(xs) == num(ys):
                sx = ZERO if x.args[0] is NONE else x.args[0]
                sy = ZERO if y.args[0] is NONE else y.args[0]
                d = sub(sx, sy)
                if is_num(d) and num(d) % num(xs) != 0:
                    return True
            # consecutive windows a*k:(a+1)*k
            if x.args[2] is NONE and y.args[2] is NONE:
                sx = ZERO if x.args[0] is NONE else x.args[0]
                sy = ZERO if y.args[0] is NONE else y.args[0]
                if x.args[1] is not NONE and x.args[1] is sy or y.args[1] is not NONE and y.args[1] is sx:
                    return True
                for p, q in ((x.args[1], sy), (y.args[1], sx)):
                    if p is not NONE:
                        d = sub(q, p)
                        pp = poly(d)
                        if all(c >= 0 and all(b.op == "atom" and b.args[1] in ("n", "p") or is_nonneg(b) for b, e in m)
                               for m, c in pp.items()):
                            return True
    return False


def is_pos(t):
    """> 0 for all values of the atoms"""
    if t.op == "const":
        return is_num(t) and num(t) > 0
    if t.op == "atom":
        return t.args[1] in ("p", "r") or t is PI
    if t.op == "poly":
        return bool(t.args[0]) and all(c > 0 and all(is_pos(b) for b, e in m) for m, c in t.args[0])
    return False


CLOSED_FN = {"cos", "sin", "tan", "sqrt", "arctan", "arctan2", "abs", "max", "min", "hypot", "pinv", "T", "reshape", "exp", "mod"}
CLOSED_EVAL = [None]     # numerical value of a term without free atoms (set by ri)
_closed = {}


def closed(t):
    """a constant: built from numbers and pi by known functions"""
    r = _closed.get(t)
    if r is None:
        if t.op == "const":
            r = isinstance(t.args[0], (int, float, Fraction))
        elif t.op == "atom":
            r = t is PI
        elif t.op == "fn":
            r = t.args[0] in CLOSED_FN and all(closed(x) for x in t.args[1] if isinstance(x, T))
        elif t.op in ("poly", "stack", "sel", "tuple"):
            r = all(closed(x) for x in children(t))
        else:
            r = False
        _closed[t] = r
    return r


def _principal(name, a):
    """cos and sin at the multiples of 30 and 45 degrees where they are rational"""
    if a is PI:
        q = Fraction(1)
    elif a.op == "poly" and len(a.args[0]) == 1 and a.args[0][0][0] == ((PI, 1),):
        q = a.args[0][0][1]
    else:
        return None
    q = Fraction(q) * 6
    if q.denominator != 1:
        return None
    k = int(q) if name == "cos" else 3 - int(q)      # sin(a) = cos(pi/2 - a)
    v = {0: Fraction(1), 2: Fraction(1, 2), 3: Fraction(0), 4: Fraction(-1, 2), 6: Fraction(-1), 8: Fraction(-1, 2), 9: Fraction(0),
         10: Fraction(1, 2)}.get(k % 12)
    return None if v is None else const(v)


def sign_of(t):
    """1, -1 when the sign follows from the kinds of the atoms or t is a constant, None otherwise"""
    if is_pos(t):
        return 1
    if t.op == "poly" and is_pos(neg(t)):
        return -1
    if t.op in ("poly", "sel", "fn") and closed(t) and CLOSED_EVAL[0] is not None:
        v = CLOSED_EVAL[0](t)
        if v is not None and abs(v) > 1e-7:
            return 1 if v > 0 else -1
    return None


def is_nonneg(t):
    if t.op == "const":
        return is_num(t) and num(t) >= 0
    if t.op == "atom":
        return t.args[1] in ("n", "p", "r")
    if t.op == "fn":
        if t.args[0] in ("mod", "len", "dim", "abs"):
            return True
        if t.args[0] in ("floordiv", "ceildiv"):
            return all(is_nonneg(x) for x in t.args[1])
    if t.op == "poly":
        return all(c >= 0 and all(is_nonneg(b) or (isinstance(e, int) and e % 2 == 0) for b, e in m) for m, c in t.args[0])
    if is_boolish(t):
        return True
    return False


def store(c, idx, v, lead=None):
    """functional array update. lead: known constant leading dimensions (tuple of ints/None) of c."""
    idx = _norm_idx(idx)
    if not idx:
        return v if (ndim(v) is None or ndim(c) is None or ndim(v) == ndim(c) or ndim(v) == 0) else (
            mk("stack", tuple(v for _ in c.args[0])) if c.op == "stack" else v)
    i = idx[0]
    if lead and lead[0] is not None and lead[0] <= 64:
        n = lead[0]
        if c.op != "stack":
            c2 = mk("stack", tuple(sel(c, (const(k),)) for k in range(n)))
        else:
            c2 = c
        if len(c2.args[0]) == n:
            if is_int_const(i) and -n <= num(i) < n:
                comps = list(c2.args[0])
                k = num(i) % n
                comps[k] = store(comps[k], idx[1:], v, lead[1:])
                return mk("stack", tuple(comps))
            if i.op == "sl":
                vals = [None if x is NONE else (num(x) if is_int_const(x) else "?") for x in i.args]
                if "?" not in vals:
                    ks = list(range(n))[slice(*vals)]
                    comps = list(c2.args[0])
                    for q, k in enumerate(ks):
                        nv = ndim(v)
                        rem = sum(1 for z in idx if z.op == "sl") + max(len(lead) - len(idx), 0)
                        if nv is not None and 0 < nv < rem:
                            vk = v          # broadcast along this axis
                        elif v.op == "stack" and len(v.args[0]) == len(ks):
                            vk = v.args[0][q]
                        elif v.op == "stack" and len(v.args[0]) == 1:
                            vk = v.args[0][0]
                        elif nv == 0:
                            vk = v
                        else:
                            vk = v if nv is not None and nv < 1 + sum(1 for z in idx[1:] if z.op == "sl") + 0 else sel(v, (const(q),))
                        comps[k] = store(comps[k], idx[1:], vk, lead[1:])
                    return mk("stack", tuple(comps))
    if len(idx) == 1 and (is_boolish(i) or i.op == "inter" and is_boolnest(i)):
        if v.op == "sel" and v.args[1] == idx:
            return ew("where", i, v.args[0], c)
        if ndim(v) == 0:
            return ew("where", i, v, c)
    if len(idx) == 1 and i.op == "stack" and c.op == "stack" and len(i.args[0]) == len(c.args[0]) and all(is_boolish(m) for m in i.args[0]):
        src = v.args[0] if v.op == "sel" and v.args[1] == idx else v if ndim(v) == 0 else None
        if src is not None:
            n = len(i.args[0])
            if src.op != "stack" or len(src.args[0]) == n:
                return mk("stack", tuple(ew("where", m, src if ndim(src) == 0 else sel(src, (const(k),)), x) for k, (m, x) in enumerate(zip(i.args[0], c.args[0]))))
    if c.op == "store" and c.args[1] == idx:
        c = c.args[0]
    p = _parity_pat(idx)
    if p and c.op == "inter":
        comps = list(c.args[0])
        comps[2 * p[0] + p[1]] = v
        return mk("inter", tuple(comps))
    r = mk("store", c, idx, v)
    if p:
        got = {}
        x = r
        while x.op == "store":
            q = _parity_pat(x.args[1])
            if q is None:
                break
            got.setdefault(q, x.args[2])
            x = x.args[0]
        if len(got) == 4:
            return mk("inter", tuple(got[(j, i_)] for j in range(2) for i_ in range(2)))
    return r


# ---------------------------------------------------------------- substitution
def subst(t, m, memo=None):
    """rebuild t with atoms replaced (smart constructors re-simplify)"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    r = _subst(t, m, memo)
    memo[t] = r
    return r


def _subst(t, m, memo):
    f = lambda x: subst(x, m, memo)
    if t.op in ("const", "atom", "ref", "undef", "other", "func", "class", "module", "ext"):
        return t
    if t.op == "poly":
        return add(*[mul(const(c), *[power_any(f(b), e) for b, e in mm]) for mm, c in t.args[0]])
    if t.op == "cmp":
        return cmp(t.args[0], f(t.args[1]), f(t.args[2]))
    if t.op == "and":
        return and_(*[f(x) for x in t.args[0]])
    if t.op == "or":
        return or_(*[f(x) for x in t.args[0]])
    if t.op == "not":
        return not_(f(t.args[0]))
    if t.op == "ite":
        return ite(f(t.args[0]), f(t.args[1]), f(t.args[2]))
    if t.op == "sl":
        return sl(*[f(x) for x in t.args])
    if t.op == "sel":
        return sel(f(t.args[0]), tuple(f(x) for x in t.args[1]))
    if t.op == "store":
        return store(f(t.args[0]), tuple(f(x) for x in t.args[1]), f(t.args[2]))
    if t.op in ("stack", "inter", "tuple", "cat"):
        return mk(t.op, tuple(f(x) for x in t.args[0]))
    if t.op == "fn":
        name, args = t.args
        args = tuple(f(x) if isinstance(x, T) else x for x in args)
        if name == "mod":
            return mod(*args)
        if name == "floordiv":
            return floordiv(*args)
        if name == "int":
            return to_int(args[0])
        if name in ("where", "max", "min", "abs", "cos", "sin"):
            return ew(name, *args)
        return mk("fn", name, args)

    def rec(a):
        if isinstance(a, T):
            return f(a)
        if isinstance(a, tuple):
            return tuple(rec(x) for x in a)
        return a
    return mk(t.op, *[rec(a) for a in t.args])
