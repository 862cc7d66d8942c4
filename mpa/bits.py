"""Bit provenance: a forward analysis that maps a value term over the bytes of a file to the exact input bits it is made of.
Values: int | Bits (tuple of 0/1/(byte, bit) entries, least significant first) | Str (tuple of characters, where a character is
a python str or an input bit) | Buf (range of the file) | list.  Nothing is executed: only the extracted terms are read."""
from __future__ import annotations
import re
from fractions import Fraction

from . import terms as tm
from .terms import T, is_const, cval, NONE


class Unk(Exception):
    pass


class Bad(Exception):
    """the decoded value depends on more than the packed bits (for instance on the number of leading zeros)"""


class Buf:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, max(lo, hi)

    def __len__(self):
        return self.hi - self.lo


class Bits(tuple):
    pass


class Str(tuple):
    pass


class VarStr:
    """a string without a fixed number of characters"""

    def __init__(self, why):
        self.why = why


def byte(i):
    return Bits((i, k) for k in range(8))


def norm(b):
    b = list(b)
    while b and b[-1] == 0:
        b.pop()
    if all(x in (0, 1) and not isinstance(x, tuple) for x in b):
        return sum(x << k for k, x in enumerate(b))
    return Bits(b)


def bits_of(v):
    if isinstance(v, Bits):
        return list(v)
    if isinstance(v, bool) or not isinstance(v, int) or v < 0:
        raise Unk("not a bit pattern")
    return [v >> k & 1 for k in range(v.bit_length())]


def slc(lo, hi, step, n, conv):
    return slice(*[None if x is NONE else conv(x) for x in (lo, hi, step)]).indices(n)


class Eval:
    def __init__(self, sizes, env=None, width=None):
        """sizes: buffer term -> number of bytes"""
        self.sizes, self.env, self.memo = sizes, dict(env or {}), {}

    def with_(self, **kw):
        e = Eval(self.sizes, self.env)
        e.memo = {} if kw else self.memo
        return e

    def bind(self, var, val):
        e = Eval(self.sizes, self.env)
        e.env[var] = val
        return e

    def int(self, t):
        v = self.ev(t)
        if isinstance(v, Fraction) and v.denominator == 1:
            v = int(v)
        if isinstance(v, bool) or not isinstance(v, int):
            raise Unk("index is not an integer")
        return v

    def ev(self, t):
        if not isinstance(t, T):
            raise Unk("not a term")
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.ev0(t)
        return r

    def ev0(self, t):
        if t in self.env:
            return self.env[t]
        if t in self.sizes:
            return Buf(0, self.sizes[t])
        op = t.op
        if op == "const":
            v = cval(t)
            if isinstance(v, str):
                return Str(v)
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, float) and v == int(v):
                return int(v)
            if isinstance(v, (int, Fraction)):
                return v
            raise Unk("constant %r" % (v,))
        if op == "poly":
            return self.poly(t)
        if op == "lmap":
            n = self.int(t.args[2])
            if n > 4096:
                raise Unk("long list")
            return [self.bind(t.args[1], k).ev(t.args[0]) for k in range(n)]
        if op in ("stack", "tuple"):
            return [self.ev(x) for x in t.args[0]]
        if op == "ite":
            return self.ev(t.args[1] if self.truth(t.args[0]) else t.args[2])
        if op == "sel":
            return self.elem(t.args[0], tuple(self.int(i) if i.op != "sl" else i for i in t.args[1]))
        if op == "fn":
            return self.fn(t, t.args[0], t.args[1])
        raise Unk(op)

    def truth(self, c):
        if c is tm.TRUE:
            return True
        if c is tm.FALSE:
            return False
        if c.op == "cmp":
            a, b = self.ev(c.args[1]), self.ev(c.args[2])
            if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
                return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[c.args[0]]
        if c.op == "not":
            return not self.truth(c.args[0])
        if c.op == "and":
            return all(self.truth(x) for x in c.args[0])
        if c.op == "or":
            return any(self.truth(x) for x in c.args[0])
        raise Unk("condition")

    def poly(self, t):
        tot, acc = 0, None
        for m, c in tm.poly(t).items():
            x = c
            b = None
            for f, p in m:
                v = self.ev(f)
                if isinstance(v, Bits):
                    if b is not None or p != 1:
                        raise Unk("product of packed values")
                    b = v
                elif isinstance(v, (int, Fraction)) and isinstance(p, int) and (p > 0 or v != 0):
                    x = x * Fraction(v) ** p
                else:
                    raise Unk("arithmetic on %s" % type(v).__name__)
            if b is None:
                tot += x
                continue
            x = Fraction(x)
            if x.denominator != 1 or x <= 0 or int(x) & (int(x) - 1):
                raise Unk("coefficient %s of a packed value" % x)
            b = [0] * (int(x).bit_length() - 1) + list(b)
            if acc is None:
                acc = b
            else:
                n = max(len(acc), len(b))
                acc += [0] * (n - len(acc))
                b += [0] * (n - len(b))
                if any(p != 0 and q != 0 for p, q in zip(acc, b)):
                    raise Unk("sum of overlapping bit patterns")
                acc = [q if p == 0 else p for p, q in zip(acc, b)]
        tot = Fraction(tot)
        if acc is None:
            return int(tot) if tot.denominator == 1 else tot
        if tot != 0:
            if tot.denominator != 1 or tot < 0:
                raise Unk("offset of a packed value")
            c = bits_of(int(tot))
            n = max(len(acc), len(c))
            acc += [0] * (n - len(acc))
            c += [0] * (n - len(c))
            if any(p != 0 and q != 0 for p, q in zip(acc, c)):
                raise Unk("sum of overlapping bit patterns")
            acc = [q if p == 0 else p for p, q in zip(acc, c)]
        return norm(acc)

    def fn(self, t, name, a):
        if name == "frombytes":
            v = self.ev(a[0])
            if isinstance(v, Buf):
                v = [byte(k) for k in range(v.lo, v.hi)]
            if not isinstance(v, list):
                raise Unk("from_bytes")
            out = []
            for x in (reversed(v) if cval(a[1]) == "big" else v):
                b = bits_of(x)
                if len(b) > 8:
                    raise Unk("byte")
                out += b + [0] * (8 - len(b))
            return norm(out)
        if name == "str" and len(a) > 1 and is_const(a[1]) and isinstance(cval(a[1]), str) and re.fullmatch(r"(0\d+)?b", cval(a[1])):
            v = self.ev(a[0])
            w = int(cval(a[1])[:-1] or 0)
            if isinstance(v, int) and v >= 0:
                return Str(format(v, cval(a[1])))
            if isinstance(v, Bits):
                if len(v) > w:
                    return VarStr("the binary digits are written without leading zeros")
                return Str(tuple("0" for _ in range(w - len(v))) + tuple(str(x) if x in (0, 1) else x for x in reversed(v)))
            raise Unk("format")
        if name in ("str", "int", "float", "nat", "astype"):
            v = self.ev(a[0])
            if name == "astype" and isinstance(v, (Bits, int)) and is_const(a[1]):
                w = {"uint8": 8, "u1": 8, "B": 8, "uint16": 16, "u2": 16, "int16": 15, "int8": 7}.get(str(cval(a[1])).lstrip("<>="))
                if w is not None:
                    v = norm(bits_of(v)[:w])
            if isinstance(v, Fraction) and name == "int":
                return int(v)
            return v
        if name == "len":
            v = self.ev(a[0])
            if isinstance(v, VarStr):
                raise Bad(v.why)
            if isinstance(v, (Buf, Str, list)):
                return len(v)
            raise Unk("len")
        if name == "nulstripped":
            raise Bad("trailing zero bytes of a part of the file are dropped")
        if name == "bslice":
            b = self.ev(a[0])
            lo = self.int(a[1])
            hi = len(b) if a[2] is NONE else self.int(a[2])
            return Buf(b.lo + min(lo, len(b)), b.lo + min(hi, len(b)))
        if name in ("item", "elem"):
            b = self.ev(a[0])
            if isinstance(b, VarStr):
                raise Bad(b.why)
            i = a[1]
            if i.op == "sl":
                s = slc(*i.args, len(b), self.int)
                if isinstance(b, Buf):
                    if s[2] != 1:
                        return [byte(b.lo + k) for k in range(*s)]
                    return Buf(b.lo + s[0], b.lo + s[1])
                return Str(b[k] for k in range(*s)) if isinstance(b, Str) else [b[k] for k in range(*s)]
            k = self.int(i)
            if isinstance(b, Buf):
                if not -len(b) <= k < len(b):
                    raise Unk("byte %d of %d" % (k, len(b)))
                return byte(b.lo + k % len(b))
            return Str((b[k],)) if isinstance(b, Str) else b[k]
        if name == "bit":
            b = self.ev(a[0])
            i, k = self.int(a[1]), self.int(a[2])
            if isinstance(b, Buf) and i < len(b):
                return Bits(((b.lo + i, k),))
            raise Unk("bit")
        if name == "bits":
            out = []
            for x in a:
                v = self.ev(x)
                out.append(v[0] if isinstance(v, Bits) and len(v) == 1 else str(v) if v in (0, 1) else None)
            if None in out:
                raise Unk("bits")
            return Str(out)
        if name in ("binstr", "binstr2"):
            v = self.ev(a[0])
            if isinstance(v, int) and v >= 0:
                return Str(bin(v)[2:] if name == "binstr2" else bin(v))
            if isinstance(v, Bits):
                return VarStr("the binary digits of a byte are written without leading zeros")
            raise Unk(name)
        if name == "call" and is_const(a[1]) and cval(a[1]) in ("zfill", "rjust") and len(a) > 2:
            src = a[0]
            w = self.int(a[2])
            if cval(a[1]) == "rjust" and not (len(a) > 3 and is_const(a[3]) and cval(a[3]) == "0"):
                raise Unk("padding")
            if src.op == "fn" and src.args[0] == "binstr2":
                v = self.ev(src.args[1][0])
                if isinstance(v, int):
                    return Str(bin(v)[2:].zfill(w))
                if isinstance(v, Bits):
                    if len(v) > w:
                        return VarStr("%d binary digits do not hold %d bits" % (w, len(v)))
                    return Str(tuple("0" for _ in range(w - len(v))) + tuple(str(x) if x in (0, 1) else x for x in reversed(v)))
            v = self.ev(src)
            if isinstance(v, Str) and all(isinstance(x, str) for x in v):
                return Str("".join(v).zfill(w))
            raise Unk("zfill")
        if name == "join":
            sep = self.ev(a[0])
            parts = self.ev(a[1])
            if not isinstance(parts, list) or len(sep):
                raise Unk("join")
            return self.cat(parts)
        if name == "strcat":
            return self.cat([self.ev(x) for x in a])
        if name == "parse":
            v = self.ev(a[0])
            base = self.int(a[1]) if len(a) > 1 else 10
            if isinstance(v, VarStr):
                raise Bad(v.why)
            if not isinstance(v, Str):
                raise Unk("parse")
            if base == 2:
                if not v:
                    raise Bad("an empty digit string is parsed")
                return norm([int(x) if isinstance(x, str) else x for x in reversed(v)])
            if base == 16:
                raise Unk("base 16")
            if all(isinstance(x, str) for x in v):
                return int("".join(v), base)
            raise Bad("bits are read as digits of base %d" % base)
        if name in ("floordiv", "mod", "ceildiv", "reshapedim"):
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)) and y:
                r = x // y if name in ("floordiv", "reshapedim") else x % y if name == "mod" else -((-x) // y)
                return int(r) if Fraction(r).denominator == 1 else r
            if isinstance(x, Bits) and isinstance(y, int) and y > 0 and not y & (y - 1):
                s = y.bit_length() - 1
                if name == "floordiv":
                    return norm(x[s:])
                if name == "mod":
                    return norm(x[:s])
            raise Unk(name)
        if name in ("shl", "shr"):
            x, s = self.ev(a[0]), self.int(a[1])
            return norm([0] * s + bits_of(x)) if name == "shl" else norm(bits_of(x)[s:])
        if name in ("bitand", "bitor", "xor"):
            x, y = bits_of(self.ev(a[0])), bits_of(self.ev(a[1]))
            n = max(len(x), len(y))
            x += [0] * (n - len(x))
            y += [0] * (n - len(y))
            out = []
            for p, q in zip(x, y):
                if name == "bitand":
                    r = 0 if 0 in (p, q) else q if p == 1 else p if q == 1 or p == q else None
                elif name == "bitor":
                    r = 1 if 1 in (p, q) else q if p == 0 else p if q == 0 or p == q else None
                else:
                    r = q if p == 0 else p if q == 0 else 0 if p == q else None
                if r is None:
                    raise Unk("mixed bits")
                out.append(r)
            return norm(out)
        if name == "bytes":
            raise Unk("another file")
        raise Unk(name)

    def cat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, VarStr):
                return p
            if not isinstance(p, Str):
                raise Unk("text of %s" % type(p).__name__)
            out.extend(p)
        return Str(out)

    # ---- one element of an array term
    def elem(self, t, idx, total=None):
        """value at idx (a tuple of ints); total = number of elements of t when known"""
        op = t.op
        if op == "loopst":
            return self.loop(t, idx)
        if op == "stack":
            x = t.args[0][idx[0]]
            return self.elem(x, idx[1:]) if len(idx) > 1 else self.ev(x)
        if op == "sel":
            src = []
            k = 0
            for i in t.args[1]:
                if i.op != "sl":
                    src.append(self.int(i))
                    continue
                lo, step = (0 if i.args[0] is NONE else self.int(i.args[0])), (1 if i.args[2] is NONE else self.int(i.args[2]))
                if lo < 0 or step < 1 or k >= len(idx):
                    raise Unk("slice")
                src.append(lo + idx[k] * step)
                k += 1
            return self.elem(t.args[0], tuple(src) + tuple(idx[k:]))
        if op == "store":
            base, ix, val = t.args[:3]
            ix = ix.args[0] if isinstance(ix, T) else ix
            if len(ix) != 1 or len(idx) != 1:
                raise Unk("store")
            i = ix[0]
            if i.op != "sl":
                return self.ev(val) if self.int(i) == idx[0] else self.elem(base, idx) if base.op != "const" else self.ev(base)
            lo, step = (0 if i.args[0] is NONE else self.int(i.args[0])), (1 if i.args[2] is NONE else self.int(i.args[2]))
            if lo < 0 or step < 1:
                raise Unk("slice")
            hi = None if i.args[1] is NONE else self.int(i.args[1])
            if hi is not None and hi < 0:
                raise Unk("slice")
            k, rem = divmod(idx[0] - lo, step)
            if rem or k < 0 or (hi is not None and idx[0] >= hi):
                return self.elem(base, idx) if base.op != "const" else self.ev(base)
            return self.elem(val, (k,)) if (tm.ndim(val) or 0) > 0 or val.op in ("sel", "fn", "poly") and tm.ndim(val) != 0 else self.ev(val)
        if op == "fn" and t.args[0] == "bytestream":
            b = self.ev(t.args[1][0])
            if not isinstance(b, Buf) or len(idx) != 1 or not idx[0] < len(b):
                raise Unk("byte")
            return byte(b.lo + idx[0])
        if op == "fn" and t.args[0] == "rawdata":
            a = t.args[1]
            if a[1] is not NONE and str(cval(a[1])).lstrip("<>=") in ("uint8", "u1", "B") and len(idx) == 1:
                b = self.ev(a[0])
                return byte(b.lo + idx[0])
            raise Unk("raw data")
        if op == "fn" and t.args[0] == "reshape":
            src = t.args[1][0]
            if len(idx) == 2:
                dims = t.args[1][1] if len(t.args[1]) > 1 and isinstance(t.args[1][1], T) and t.args[1][1].op == "tuple" else None
                if dims is None:
                    raise Unk("reshape")
                H, W = (self.int(x) for x in dims.args[0])
                if idx[1] >= W:
                    raise Unk("column")
                flat, n = idx[0] * W + idx[1], H * W
            else:
                flat, n = idx[0], total
            return self.flat(src, flat, n)
        if op == "const":
            return self.ev(t)
        if op in ("poly", "fn"):
            # element-wise operators
            return self.pointwise(t, idx)
        raise Unk("element of " + op)

    def pointwise(self, t, idx):
        arrs = [x for x in tm.children(t) if (tm.ndim(x) or 0) > 0]
        if not arrs:
            raise Unk("element of %s" % t.op)
        e = Eval(self.sizes, self.env)
        for x in arrs:
            e.env[x] = self.elem(x, idx)
        return e.ev0(t) if t.op == "poly" else e.fn(t, t.args[0], t.args[1])

    def flat(self, src, k, n):
        if src.op in ("stack", "tuple"):
            rows = src.args[0]
            if n is None or n % len(rows):
                raise Unk("rows of unequal length")
            m = n // len(rows)
            return self.elem(rows[k // m], (k % m,))
        if src.op == "fn" and src.args[0] in ("concat", "concatenate"):
            rows = src.args[1]
            if src.args[0] == "concat":
                if rows[0] is not tm.ZERO:
                    raise Unk("joined along another axis")
                rows = rows[1:]
                if len({r.args[2] for r in rows if r.op == "loopst"}) != 1 or any(r.op != "loopst" for r in rows):
                    raise Unk("rows of unequal length")
            if n is None or n % len(rows):
                raise Unk("rows of unequal length")
            m = n // len(rows)
            return self.elem(rows[k // m], (k % m,))
        return self.elem(src, (k,))

    def loop(self, t, idx):
        base, ups, loops = t.args
        if len(loops) != 1:
            raise Unk("nested loops")
        var, n = loops[0]
        n = self.int(n)
        best = None
        for u, (ix, val, how) in enumerate(ups):
            if how != "set" and not (isinstance(how, T) and is_const(how) and cval(how) == "set"):
                raise Unk("accumulation")
            ix = ix.args[0] if isinstance(ix, T) and ix.op == "tuple" else ix
            if len(ix) != len(idx) or len(ix) != 1 or ix[0].op == "sl":
                raise Unk("index")
            p0, p1 = self.bind(var, 0).int(ix[0]), self.bind(var, 1).int(ix[0])
            d = p1 - p0
            if d == 0:
                raise Unk("index")
            k, rem = divmod(idx[0] - p0, d)
            if rem or not 0 <= k < n:
                continue
            if self.bind(var, k).int(ix[0]) != idx[0]:
                raise Unk("index is not linear")
            if best is None or (k, u) > best[:2]:
                best = (k, u, val)
        if best is None:
            return self.elem(base, idx) if base.op != "const" else self.ev(base)
        return self.bind(var, best[0]).ev(best[2])


def show(v):
    if isinstance(v, Bits):
        return "bits[%s]" % " ".join(str(x) if not isinstance(x, tuple) else "b%d.%d" % x for x in reversed(v))
    return repr(v)


def packed(i):
    """sample i of a packed file: two 12-bit samples in three bytes"""
    g, k = divmod(i, 2)
    a, b, c = 3 * g, 3 * g + 1, 3 * g + 2
    if k == 0:
        return Bits([(b, 4 + j) for j in range(4)] + [(a, j) for j in range(8)])
    return Bits([(b, j) for j in range(4)] + [(c, j) for j in range(8)])
