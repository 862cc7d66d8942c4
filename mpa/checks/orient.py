"""C38 (rotations and flips)."""
from __future__ import annotations
from ..check import *
from ..catalogue import VARIANTS, HISTORIES
from .. import terms as tm

F = tm.Fraction


def quarter(t, k):
    k %= 4
    return t if k == 0 else mk("fn", "rot90", (t, const(k)))


def mirror(t, axis):
    return mk("fn", "flip", (t, const(axis)))


def c38(c):
    W = c.w
    I = W.I
    c.rule = ("every part of the object (the twelve matrix elements and the fit flags of a demodulator; the four families, the three Stokes components "
              "and the four demosaiced images of an image) = the same spatial operation applied to that part before the call")
    c.floor = 60

    def demod(steps, flags):
        """steps: list of (method, args, kw, effect on one map, exchanges the axes)"""
        st = W.st()
        d, ctx = W.demodulator(st, flags=flags)
        want = lambda t: t
        odd = False
        for name, args, kw, eff, sw in steps:
            r = returned(W.meth(st, d, name, [const(a) for a in args], {k: const(v) for k, v in kw.items()}, ctx), "%s() of a demodulator" % name, name)
            st = r.st
            want = (lambda f, g: lambda t: g(f(t)))(want, eff)
            odd ^= sw
        shape = (w_, h) if odd else (h, w_)
        key = "demodulator:" + steps[-1][0]
        mij, fl = W.val(st, d, "mij"), W.val(st, d, "fit_found_flags")
        ext = I.shape(st, W.attr(st, d, "mij"))
        if ext.op == "tuple":
            if len(ext.args[0]) != 4:
                raise Violation(key, "the matrices have %d dimensions" % len(ext.args[0]))
            for x, y in zip(ext.args[0], (const(3), const(4)) + shape):
                c.same(x, y, "extent of the matrices", "", key)
        n = 0
        for i in range(3):
            for j in range(4):
                n += 1
                c.same(sel(mij, (const(i), const(j))), want(A2("m_%d%d" % (i, j))), "matrix element (%d,%d)" % (i, j), "", key, shape=shape)
        if flags:
            if fl is NONE:
                raise Violation(key, "the fit flags are lost")
            c.same(fl, want(A2("flag")), "fit flags", "", key, shape=shape)
        elif fl is not NONE:
            raise Violation(key, "a demodulator without fit flags has some")
        return "%d elements%s" % (n, " and the flags" if flags else "")

    rot = lambda turns, *a, **kw: ("rot90", a, kw, lambda t: quarter(t, turns), bool(turns % 2))
    flip = lambda along, *a, **kw: ("flip", a, kw, lambda t: mirror(t, along), False)
    for fl in (True, False):
        tag = ", with flags" if fl else ", without flags"
        for k in (-3, -2, -1, 0, 1, 2, 3, 4, 5):
            c.ob("rot90(%d)%s" % (k, tag), demod, [rot(k, k)], fl)
            c.ob("rot90(k=%d)%s" % (k, tag), demod, [rot(k, k=k)], fl)
        c.ob("rot90()%s" % tag, demod, [rot(1)], fl)
        for ax in (0, 1):
            c.ob("flip(%d)%s" % (ax, tag), demod, [flip(ax, ax)], fl)
            c.ob("flip(axis=%d)%s" % (ax, tag), demod, [flip(ax, axis=ax)], fl)
            c.ob("flip(%d) then flip(%d)%s" % (ax, 1 - ax, tag), demod, [flip(ax, ax), flip(1 - ax, 1 - ax)], fl)
            c.ob("flip(%d) twice%s" % (ax, tag), demod, [("flip", (ax,), {}, lambda t: t, False), ("flip", (ax,), {}, lambda t: t, False)], fl)
            for k in (1, 2, 3):
                c.ob("rot90(%d) then flip(%d)%s" % (k, ax, tag), demod, [rot(k, k), flip(ax, ax)], fl)
                c.ob("flip(%d) then rot90(%d)%s" % (ax, k, tag), demod, [flip(ax, ax), rot(k, k)], fl)
        c.ob("rot90() twice%s" % tag, demod, [rot(1), rot(1)], fl)

    # ---- images
    S2 = (mul(TWO, h), mul(TWO, w_))

    def image(variant, ang, kw):
        st = W.st()
        spec = VARIANTS.get(variant) or HISTORIES.get(variant) or {}
        img = W.image(st, **spec)
        before = {a: W.val(st, img, a) for a in ("data", "Stokes_vec", "demosaiced_images")}
        r = returned(W.meth(st, img, "rotate", [] if kw else [ang], {"angle": ang} if kw else {}), "rotate()")
        out = r.v
        key = "image rotation"
        turn = lambda t: mk("fn", "pilrotate", (t, ang))
        fams = lambda s, im: W.val(s, im, "single_pol_subimages")
        f0, f1 = fams(st, img), fams(r.st, out)
        for k in range(4):
            c.same(sel(f1, (const(k),)), turn(sel(f0, (const(k),))), "family %d of the rotated image" % k, "", key, shape=(h, w_))
        S1 = W.val(r.st, out, "Stokes_vec")
        dem = before["demosaiced_images"] is not NONE and spec.get("demosaic")
        shape = S2 if dem else (h, w_)
        for k in range(3):
            c.same(sel(S1, (const(k),)), turn(sel(before["Stokes_vec"], (const(k),))), "Stokes component %d of the rotated image" % k, "", key, shape=shape)
        D1 = W.val(r.st, out, "demosaiced_images")
        if before["demosaiced_images"] is NONE:
            if D1 is not NONE:
                raise Violation(key, "the rotated image has demosaiced images, the image has none")
            return
        for k in range(4):
            c.same(sel(D1, (const(k),)), turn(sel(before["demosaiced_images"], (const(k),))), "demosaiced image %d of the rotated image" % k, "", key, shape=S2)
    for v in list(VARIANTS) + ["corrected"]:
        for ang in (atom("ang", "s"), const(90), const(-30), const(F(25, 2))):
            for kw in (False, True):
                c.ob("rotate(%s%s) of a %s image" % ("angle=" if kw else "", show(ang), v), image, v, ang, kw)
