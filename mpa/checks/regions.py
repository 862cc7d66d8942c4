"""C26 (regions and ring statistics), C27 (error propagation), C30 (line selections)."""
from __future__ import annotations
import math
from ..check import *
from ..catalogue import P, PP, lst
from .arrays import against, must_raise, stackof, Res, H2, W2
from .calib import rows
from .. import terms as tm
from .. import ri
from ..terms import is_int_const, num

F = tm.Fraction
ROI = PP + "nrgf.roi_from_polar"
NRGF = PP + "nrgf.nrgf"


def grid(W, st, name, H, Wd, kind="r"):
    return W.I.new_arr(st, rows(lambda y, x: atom("%s_%d_%d" % (name, y, x), kind), H, Wd), tup(const(H), const(Wd)), FLOAT, "input")


def angle(dy, dx):
    """polar angle in degrees, exact in the principal directions"""
    if dy == 0:
        return 0 if dx >= 0 else 180
    if dx == 0:
        return 90 if dy > 0 else 270
    return math.degrees(math.atan2(dy, dx)) % 360


def inside(y, x, yc, xc, r0, r1, t0=0, t1=360):
    """the definition: r0 < distance <= r1 (the center belongs to a selection starting at 0), t0 <= angle < t1"""
    d2 = F(y - yc) ** 2 + F(x - xc) ** 2
    a = angle(F(y) - F(yc), F(x) - F(xc))
    return (r0 <= 0 or d2 > F(r0) ** 2) and d2 <= F(r1) ** 2 and r1 >= 0 and t0 <= a < t1


def near(y, x, yc, xc, ts):
    """angle too close to a limit to be decided exactly"""
    dy, dx = y - yc, x - xc
    return dy != 0 and dx != 0 and any(abs(angle(dy, dx) - t) < 1e-6 for t in ts)


# ---------------------------------------------------------------------------------------------------- C26
def c26(c):
    W = c.w
    I = W.I
    c.rule = ("summaries of the region operations = the definition r0 < distance <= r1, t0 <= angle < t1 on pixels or superpixels, "
              "symbolically for all sizes and pixel by pixel for concrete geometries including the limits")
    c.floor = 40
    yc, xc = atom("yc", "n"), atom("xc", "n")
    ra, rb, ta, tb = [atom(n, "r") for n in ("ra", "rb", "ta", "tb")]
    fill = atom("fill", "s")
    SEEDS = tuple(range(1, 13))
    X2 = lambda st: W.plain(st, "X", H2, W2)
    R0, R1 = mul(const(F(1, 8)), ra), add(mul(const(F(1, 8)), ra), mul(const(F(1, 2)), rb))
    T0, T1 = mul(const(7), ta), add(mul(const(7), ta), mul(const(16), tb))

    def symbolic(what, kw, rng, th, spec, sargs, boolean=False):
        st = W.st()
        l = lambda v: I.new_list(st, list(v))
        k = dict(kw)
        args = [X2(st)] + ([l((yc, xc)), l(rng)] if rng is not None else [])
        if th is not None:
            k["theta"] = l(th)
        r = returned(W.call(st, ROI, args, k), what)
        r2 = returned(W.call(r.st, "mpaspec." + spec, [X2(r.st)] + list(sargs)), "reference definition")
        c.same_array(r2.st, r.v, r2.v, what, "", "polar region", (), None, True, SEEDS)
    NS = {"include_superpixels": FALSE}
    c.ob("pixels, all sizes", symbolic, "region of pixels", {**NS, "fill": fill}, (R0, R1), (T0, T1), "roi_pixels_center", (yc, xc, R0, R1, T0, T1, fill))
    c.ob("superpixels, all sizes", symbolic, "region of superpixels", {"fill": fill}, (R0, R1), (T0, T1), "roi_superpixels", (yc, xc, R0, R1, T0, T1, fill))
    c.ob("pixels, all angles", symbolic, "region of pixels", {**NS, "fill": fill}, (R0, R1), None, "roi_pixels_center", (yc, xc, R0, R1, ZERO, const(360), fill))
    c.ob("superpixels, default fill", symbolic, "region of superpixels", {}, (R0, R1), None, "roi_superpixels", (yc, xc, R0, R1, ZERO, const(360), ZERO))
    c.ob("pixels, from the center", symbolic, "disc of pixels", {**NS, "fill": fill}, (ZERO, R1), None, "roi_pixels_center", (yc, xc, ZERO, R1, ZERO, const(360), fill))
    c.ob("superpixels, from the center", symbolic, "disc of superpixels", {"fill": fill}, (ZERO, R1), None, "roi_superpixels", (yc, xc, ZERO, R1, ZERO, const(360), fill))
    c.ob("boolean map", symbolic, "boolean region", {**NS, "return_boolean": TRUE}, (R0, R1), (T0, T1), "roi_pixels_bool", (yc, xc, R0, R1, T0, T1))
    c.ob("default center and radii", symbolic, "default region", {**NS, "fill": fill}, None, None, "roi_pixels_default", (fill,))

    # ---- concrete geometries, limits included
    def pixelwise(H, Wd, cen, rho, th=None, boolean=False):
        st = W.st()
        d = grid(W, st, "s", H, Wd)
        kw = {"include_superpixels": FALSE}
        kw.update({"return_boolean": TRUE} if boolean else {"fill": const(-7)})
        if th is not None:
            kw["theta"] = lst(W, st, *th)
        r = returned(W.call(st, ROI, [d, lst(W, st, *cen), lst(W, st, *rho)], kw, {"exact": True}), "roi_from_polar")
        v = I.content(r.st, r.v)
        t = th or (0, 360)
        for y in range(H):
            for x in range(Wd):
                if near(y, x, *cen, t):
                    continue
                i = inside(y, x, *cen, *rho, *t)
                want = (TRUE if i else FALSE) if boolean else atom("s_%d_%d" % (y, x), "r") if i else const(-7)
                c.same(sel(v, (const(y), const(x))), want, "pixel (%d,%d) of the region around %s, radii %s, angles %s" % (y, x, cen, rho, t), key="polar region")
    CASES = [(6, 6, (3, 3), (0, 2)), (6, 6, (3, 3), (1, 3)), (7, 5, (3, 2), (1, 2)), (5, 9, (2, 6), (0, 5)), (8, 8, (0, 0), (2, 5)), (6, 8, (5, 7), (0, 5)),
             (6, 6, (-2, 3), (3, 5)), (9, 9, (4, 4), (F(3, 2), F(7, 2)))]
    for H, Wd, cen, rho in CASES:
        c.ob("%dx%d around %s, radii %s" % (H, Wd, cen, rho), pixelwise, H, Wd, cen, rho)
        c.ob("%dx%d around %s, radii %s, boolean" % (H, Wd, cen, rho), pixelwise, H, Wd, cen, rho, None, True)
    for H, Wd, cen, rho in ((7, 8, (F(7, 2), F(9, 4)), (0, 3)), (8, 6, (F(5, 2), F(5, 2)), (F(1, 2), 2)), (6, 9, (3, F(27, 4)), (1, F(13, 4))), (9, 7, (F(19, 4), 2), (2, 4))):
        c.ob("%dx%d around %s, radii %s" % (H, Wd, cen, rho), pixelwise, H, Wd, cen, rho)
        c.ob("%dx%d around %s, radii %s, boolean" % (H, Wd, cen, rho), pixelwise, H, Wd, cen, rho, (20, 200), True)
    for th in ((0, 90), (90, 180), (180, 270), (270, 360), (0, 180), (90, 270), (30, 100), (200, 350)):
        c.ob("angles %s" % (th,), pixelwise, 7, 9, (3, 5), (0, 4), th)
        c.ob("angles %s, off-center" % (th,), pixelwise, 6, 6, (1, 4), (1, 4), th)

    def superwise(H, Wd, cen, rho, th=None):
        st = W.st()
        d = grid(W, st, "s", H, Wd)
        kw = {"fill": const(-7)}
        if th is not None:
            kw["theta"] = lst(W, st, *th)
        r = returned(W.call(st, ROI, [d, lst(W, st, *cen), lst(W, st, *rho)], kw, {"exact": True}), "roi_from_polar")
        v = I.content(r.st, r.v)
        t = th or (0, 360)
        c2 = tuple(int(q / 2) for q in cen)
        for y in range(H):
            for x in range(Wd):
                if near(y // 2, x // 2, *c2, t):
                    continue
                i = inside(y // 2, x // 2, *c2, int(rho[0] / 2) if rho[0] > 0 else -1, int(rho[1] / 2), *t)
                c.same(sel(v, (const(y), const(x))), atom("s_%d_%d" % (y, x), "r") if i else const(-7),
                       "pixel (%d,%d) of the superpixel region around %s, radii %s, angles %s" % (y, x, cen, rho, t), key="polar region")
    for H, Wd, cen, rho in [(8, 8, (4, 4), (0, 4)), (8, 10, (4, 6), (2, 6)), (12, 8, (5, 3), (3, 7)), (8, 8, (1, 7), (2, 12)), (10, 10, (0, 0), (4, 8)), (6, 12, (2, 8), (0, 6))]:
        c.ob("superpixels %dx%d around %s, radii %s" % (H, Wd, cen, rho), superwise, H, Wd, cen, rho)
        c.ob("superpixels %dx%d around %s, radii %s, sector" % (H, Wd, cen, rho), superwise, H, Wd, cen, rho, (90, 270))

    # ---- two disjoint selections
    def partition(k):
        """consecutive rings share no pixel and miss none"""
        H = Wd = 9
        st = W.st()
        d = grid(W, st, "s", H, Wd)
        vs = []
        for a in range(0, k, 2):
            r = returned(W.call(st, ROI, [d, lst(W, st, 4, 4), lst(W, st, a, a + 2)], {"include_superpixels": FALSE, "return_boolean": TRUE}, {"exact": True}), "roi_from_polar")
            st = r.st
            vs.append(I.content(r.st, r.v))
        for y in range(H):
            for x in range(Wd):
                n = 0
                for v in vs:
                    e = sel(v, (const(y), const(x)))
                    if e not in (TRUE, FALSE):
                        raise Und("region not decided at (%d,%d): %s" % (y, x, show(e)[:200]))
                    n += e is TRUE
                if n != (1 if (y - 4) ** 2 + (x - 4) ** 2 <= k * k else 0):
                    raise Violation("consecutive rings", "pixel (%d,%d) belongs to %d of the consecutive rings of width 2 around (4,4)" % (y, x, n))
    c.ob("consecutive rings", partition, 4)
    c.ob("consecutive rings to the corners", partition, 6)

    # ---- occulter masking of images
    def masked(H, Wd, pos, kw, demo=False):
        st = W.st()
        d = grid(W, st, "s", H, Wd)
        r = returned(W.call(st, IMG, [d]), "the image constructor")
        st, img = r.st, r.v
        if demo:
            r = returned(W.meth(st, img, "demosaic", []), "demosaic()")
            st = r.st
        before = {"data": W.val(st, img, "data"), "S": W.val(st, img, "Stokes_vec")}
        dem = [I.content(st, x) for x in (I.iter_items(st, W.attr(st, img, "demosaiced_images")) or [])] if demo else []
        k = {n: const(v) for n, v in zip("yxr", pos)}
        k.update({n: const(v) for n, v in kw.items()})
        r = returned(W.meth(st, img, "mask_occulter", [], k, {"exact": True}), "mask_occulter")
        st = r.st
        R = pos[2] + kw.get("overoccult", 0)
        fl = const(kw.get("fill", 0))
        sup = lambda y, x: not inside(y // 2, x // 2, pos[0] // 2, pos[1] // 2, R // 2 if R > 0 else -1, 10 ** 6)
        after = W.val(st, img, "data")
        key = "occulter mask"
        for y in range(H):
            for x in range(Wd):
                ix = (const(y), const(x))
                c.same(sel(after, ix), fl if sup(y, x) else sel(before["data"], ix), "data pixel (%d,%d) after masking %s %s" % (y, x, pos, kw), key=key)
        if demo:
            dem2 = [I.content(st, x) for x in (I.iter_items(st, W.attr(st, img, "demosaiced_images")) or [])]
            if len(dem2) != len(dem) or len(dem) != 4:
                raise Und("demosaiced images")
            for q in range(4):
                for y in range(H):
                    for x in range(Wd):
                        ix = (const(y), const(x))
                        c.same(sel(dem2[q], ix), fl if sup(y, x) else sel(dem[q], ix), "pixel (%d,%d) of demosaiced image %d after masking %s" % (y, x, q, pos), key=key)
        S2 = W.val(st, img, "Stokes_vec")
        hS, wS = (H, Wd) if demo else (H // 2, Wd // 2)
        for i in range(3):
            for y in range(hS):
                for x in range(wS):
                    ix = (const(i), const(y), const(x))
                    m = not inside(y, x, pos[0], pos[1], R, 10 ** 6) if demo else sup(2 * y, 2 * x)
                    c.same(sel(S2, ix), fl if m else sel(before["S"], ix), "Stokes component %d at (%d,%d) after masking %s %s" % (i, y, x, pos, kw), key=key)
    for H, Wd, pos, kw in [(8, 8, (4, 4, 4), {}), (8, 10, (4, 6, 3), {"overoccult": 1}), (12, 8, (5, 3, 4), {"fill": -3}), (8, 8, (0, 7, 5), {"overoccult": 2, "fill": 9}), (8, 8, (4, 4, 4), {"overoccult": -2})]:
        c.ob("mask_occulter %dx%d %s %s" % (H, Wd, pos, kw), masked, H, Wd, pos, kw)
    c.ob("mask_occulter of a demosaiced image", masked, 6, 8, (3, 4, 2), {}, True)
    c.ob("mask_occulter of a demosaiced image, fill", masked, 8, 8, (4, 3, 3), {"fill": 5, "overoccult": 1}, True)

    # ---- cameras
    def camera(name, H, Wd, pos, over):
        st = W.st()
        r = returned(W.call(st, "micropolarray.cameras." + name, []), name)
        st, cam = r.st, r.v
        I.setattr(st, cam, "occulter_pos_last", lst(W, st, *pos), None)
        I.setattr(st, cam, "h_image", const(H), None)
        I.setattr(st, cam, "w_image", const(Wd), None)
        d = grid(W, st, "s", H, Wd)
        st0 = st.copy()
        r = returned(W.meth(st, cam, "occulter_roi", [d], {"fill": const(-7), "overoccult": const(over)}, {"exact": True}), "occulter_roi")
        v = I.content(r.st, r.v)
        R = pos[2] + over
        c2 = (pos[0] // 2, pos[1] // 2)
        for y in range(H):
            for x in range(Wd):
                i = inside(y // 2, x // 2, *c2, R // 2 if R > 0 else -1, 2500)
                c.same(sel(v, (const(y), const(x))), atom("s_%d_%d" % (y, x), "r") if i else const(-7), "occulter_roi, pixel (%d,%d)" % (y, x), key="occulter region")
        for rmax in (None, 6):
            k = {"overoccult": const(over)}
            if rmax is not None:
                k["rmax"] = const(rmax)
            r = returned(W.meth(st0.copy(), cam, "occulter_mask", [], k, {"exact": True}), "occulter_mask")
            v = I.content(r.st, r.v)
            lim = rmax if rmax is not None else min(pos[0], pos[1])
            for y in range(H):
                for x in range(Wd):
                    i = inside(y // 2, x // 2, *c2, R // 2 if R > 0 else -1, lim // 2)
                    c.same(sel(v, (const(y), const(x))), TRUE if i else FALSE, "occulter_mask, pixel (%d,%d)" % (y, x), key="occulter region")
    c.ob("camera occulter region", camera, "PolarCam", 12, 12, (6, 6, 2), 0)
    c.ob("camera occulter region, overoccult", camera, "PolarCam", 10, 12, (4, 6, 2), 2)

    # ---- ring-wise filter
    def rings(H, Wd, cen, r0, step=1, mphi=None, ophi=None):
        st = W.st()
        d = grid(W, st, "s", H, Wd)
        kw = {"y_center": const(cen[0]), "x_center": const(cen[1]), "rho_min": const(r0)}
        if step != 1:
            kw["step"] = const(step)
        if mphi:
            kw["phi_to_mean"] = lst(W, st, *mphi)
        if ophi:
            kw["output_phi"] = lst(W, st, *ophi)
        r = returned(W.call(st, NRGF, [d], kw, {"exact": True}), "nrgf")
        v = I.content(r.st, r.v)
        mphi, ophi = mphi or (0, 360), ophi or (0, 360)
        px = [(y, x) for y in range(H) for x in range(Wd)]
        rmax = int(math.sqrt(max((y - cen[0]) ** 2 + (x - cen[1]) ** 2 for y, x in px)) + 1e-12)
        want, skip = {p: ZERO for p in px}, set()
        for a in range(r0, rmax, step):
            ring = [p for p in px if a * a < (p[0] - cen[0]) ** 2 + (p[1] - cen[1]) ** 2 <= (a + step) ** 2]
            if any(near(*p, *cen, mphi) for p in ring):
                skip.update(ring)
                continue
            xs = [atom("s_%d_%d" % p, "r") for p in ring if mphi[0] <= angle(p[0] - cen[0], p[1] - cen[1]) < mphi[1]]
            for p in ring:
                if near(*p, *cen, ophi):
                    skip.add(p)
                    continue
                if not ophi[0] <= angle(p[0] - cen[0], p[1] - cen[1]) < ophi[1] or len(xs) < 2:
                    continue
                m = div(add(*xs), const(len(xs)))
                sd = mk("fn", "std", (mk("stack", tuple(sorted(xs, key=lambda t: t.id))),))
                want[p] = tm.where(cmp("gt", sd, ZERO), div(sub(atom("s_%d_%d" % p, "r"), m), sd), ZERO)
        for p in px:
            if p not in skip:
                c.same(sel(v, (const(p[0]), const(p[1]))), want[p], "filtered pixel %s around %s from radius %d, step %d, angles %s/%s" % (p, cen, r0, step, mphi, ophi), key="ring statistics")
        return "%d pixels" % (len(px) - len(skip))
    for a in [(6, 6, (3, 3), 0), (7, 5, (3, 2), 1), (6, 8, (2, 5), 2), (8, 8, (4, 4), 0, 2), (7, 7, (3, 3), 1, 3), (6, 6, (0, 0), 1), (6, 6, (5, 0), 0, 2),
              (7, 7, (3, 3), 0, 1, (0, 180)), (7, 7, (3, 3), 0, 1, None, (90, 270)), (7, 7, (3, 3), 1, 2, (0, 90), (180, 360)), (6, 8, (2, 5), 0, 1, (20, 200), (100, 300))]:
        c.ob("nrgf %s" % (a,), rings, *a)


# ---------------------------------------------------------------------------------------------------- C27
ERR = PP + "demodulation_errors."


def c27(c):
    W = c.w
    I = W.I
    c.rule = ("summaries of the error functions = first order propagation: for a quantity f of independent components, "
              "sigma_f^2 = sum (df/dx)^2 sigma_x^2, with the derivatives of S = M I, pB, DoLP and AoLP")
    c.floor = 8
    SIDE = (tm.cmp("lt", ZERO, ONE),)

    def stokes_error():
        st = W.st()
        dem, ctx = W.demodulator(st)
        r = returned(W.call(st, ERR + "get_error_on_Stokes", [W.data(st, "E"), dem], {}, ctx), "get_error_on_Stokes")
        r2 = returned(W.call(r.st, "mpaspec.error_stokes", [W.attr(r.st, dem, "mij", ctx), stackof(W, r.st, W.fam("E"))]), "reference definition")
        c.same_array(r2.st, r.v, r2.v, "error of the Stokes components", "", "Stokes error")
    c.ob("Stokes error", stokes_error)

    def inputs(st, q=None, u=None):
        S = [A2("I", h, w_), A2("Q", h, w_) if q is None else q, A2("U", h, w_) if u is None else u]
        s = [A2("sI", h, w_), A2("sQ", h, w_), A2("sU", h, w_)]
        return S, s, stackof(W, st, S), stackof(W, st, s)

    def sq(x):
        return mul(x, x)

    def formulas(S, s):
        Ic, Q, U = S
        sI, sQ, sU = s
        p2 = add(sq(Q), sq(U))
        return {
            "pB": div(add(sq(mul(Q, sQ)), sq(mul(U, sU))), p2),
            "DoLP": add(div(add(sq(mul(Q, sQ)), sq(mul(U, sU))), mul(sq(Ic), p2)), div(mul(p2, sq(sI)), mul(sq(Ic), sq(Ic)))),
            "AoLP": div(add(sq(mul(Q, sU)), sq(mul(U, sQ))), mul(const(4), sq(p2)))}

    def param(name, q=None, u=None):
        st = W.st()
        S, s, aS, aE = inputs(st, q, u)
        r = returned(W.call(st, ERR + "get_error_on_" + name, [aS, aE]), "get_error_on_" + name)
        v = I.content(r.st, r.v)
        c.same(mul(v, v), formulas(S, s)[name], "squared error of the %s" % name, key="%s error" % name, shape=(h, w_))
        # a standard deviation is the non-negative root
        v1, info = ri.compare(tm.vabs(v), v, shape=(h, w_))
        if v1 == "ne":
            raise Violation("%s error" % name, "error of the %s can be negative: %s" % (name, show(v, 6)[:300]))
        if v1 != "eq":
            raise Und("sign of the error: %s" % info)
    for name in ("pB", "DoLP", "AoLP"):
        c.ob(name + " error", param, name)
        c.ob(name + " error where Q is zero", param, name, ZERO)
        c.ob(name + " error where U is zero", param, name, None, ZERO)

    def whole(angles, demod):
        """the error object of an image"""
        st = W.st()
        dem, ctx = W.demodulator(st)
        img = W.image(st, angles=angles)
        if demod:
            r = returned(W.meth(st, img, "demodulate", [dem], {}, ctx), "demodulate")
            st, img = r.st, r.v
        r = returned(W.call(st, ERR + "MicropolImageError", [img, W.data(st, "E"), dem], {}, ctx), "MicropolImageError")
        st, e = r.st, r.v
        rs = returned(W.call(st, "mpaspec.error_stokes", [W.attr(st, dem, "mij", ctx), stackof(W, st, W.fam("E"))]), "reference definition")
        sS = W.val(rs.st, e, "sigma_S")
        c.same(sS, I.content(rs.st, rs.v), "sigma_S", key="error object", shape=(const(3), h, w_))
        Sv = W.val(rs.st, img, "Stokes_vec")
        S = [sel(Sv, (const(k),)) for k in range(3)]
        s = [sel(sS, (const(k),)) for k in range(3)]
        f = formulas(S, s)
        for name in ("pB", "DoLP", "AoLP"):
            v = W.val(rs.st, e, "sigma_" + name)
            c.same(mul(v, v), f[name], "squared sigma_%s" % name, key="error object", shape=(h, w_))
    c.ob("error object of an image", whole, None, False)
    c.ob("error object of an image with other angles", whole, ((45, 0), (90, 1), (0, 2), (-45, 3)), False)
    c.ob("error object of a demodulated image", whole, None, True)


# ---------------------------------------------------------------------------------------------------- C30
LR = PP + "linear_roi."


def c30(c):
    W = c.w
    I = W.I
    c.rule = ("coordinates computed by the line selections, for every direction of a grid of directions and an arbitrary (symbolic) start point: "
              "first = start, last = end, unit steps, at most one pixel from the straight line; values = data at the reported coordinates")
    c.floor = 60
    B = 16
    A0, B0 = add(const(B), atom("ay", "n")), add(const(B), atom("ax", "n"))

    def elements(st, v, what):
        s = I.shape(st, v)
        t = I.content(st, v)
        if s.op != "tuple" or len(s.args[0]) != 1 or not is_int_const(s.args[0][0]):
            raise Und("%s: number of points not known" % what)
        return [sel(t, (const(k),)) for k in range(num(s.args[0][0]))]

    def line(ys, xs, start, end, d, what):
        """coordinates (terms) against the definition; d: integer displacement (dy, dx)"""
        key = "line points"
        if len(ys) != len(xs) or not ys:
            raise Violation(key, "%s: %d rows and %d columns" % (what, len(ys), len(xs)))
        for t, k, n in ((ys, 0, "row"), (xs, 1, "column")):
            c.same(t[0], start[k], "%s: first %s" % (what, n), key="start of a line")
            c.same(t[-1], end[k], "%s: last %s" % (what, n), key="end of a line")
        n = max(abs(d[0]), abs(d[1]))
        if len(ys) != n + 1:
            raise Violation(key, "%s: %d points, expected %d" % (what, len(ys), n + 1))
        off = []
        for y, x in zip(ys, xs):
            o = sub(y, start[0]), sub(x, start[1])
            if not all(is_int_const(q) for q in o):
                raise Und("%s: offset of a point: %s" % (what, show(o[0])[:100]))
            off.append((num(o[0]), num(o[1])))
        for k, (p, q) in enumerate(zip(off, off[1:])):
            s = max(abs(p[0] - q[0]), abs(p[1] - q[1]))
            if s != 1:
                raise Violation("adjacent points", "%s: the step from %s to %s is not between adjacent pixels" % (what, p, q))
        for p in off:
            # distance from the segment, in units of the shorter coordinate
            if n and abs(p[0] * d[1] - p[1] * d[0]) > n:
                raise Violation("points on the line", "%s: the point %s is more than one pixel away from the line to %s" % (what, p, d))

    def dda(d, fn, values):
        st = W.st()
        s, e = (A0, B0), (add(A0, const(d[0])), add(B0, const(d[1])))
        if values:
            H, Wd = atom("H", "p"), atom("Wd", "p")
            X = W.plain(st, "X", add(H, const(4 * B)), add(Wd, const(4 * B)))
            r = returned(W.call(st, LR + "linear_roi", [X, lst_(st, s), lst_(st, e)], {}, {"exact": True}), "linear_roi")
            parts = I.iter_items(r.st, r.v)
            if parts is None or len(parts) != 3:
                raise Und("linear_roi result")
            ys, xs, vs = [elements(r.st, q, "linear_roi") for q in parts]
            if len(vs) != len(ys):
                raise Violation("values", "linear_roi to %s returns %d values for %d points" % (d, len(vs), len(ys)))
            xc = I.content(r.st, X)
            for y, x, v in zip(ys, xs, vs):
                c.same(v, sel(xc, (y, x)), "value at a point of the line to %s" % (d,), key="values")
        else:
            r = returned(W.call(st, LR + "DDA", [lst_(st, s), lst_(st, e)], {}, {"exact": True}), "DDA")
            parts = I.iter_items(r.st, r.v)
            if parts is None or len(parts) != 3:
                raise Und("DDA result")
            ys, xs = [elements(r.st, q, "DDA") for q in parts[:2]]
            c.same(I.content(r.st, parts[2]), div(sqrt(const(d[0] ** 2 + d[1] ** 2)), const(len(ys))), "density of the points of the line to %s" % (d,), key="density")
        line(ys, xs, s, e, d, "line to %s" % (d,))
        c.count("lines")
        c.count("points", len(ys))

    def lst_(st, q):
        return I.new_list(st, list(q))
    R = 4 if c.tier == "quick" else 12
    for dy in range(-R, R + 1):
        for dx in range(-R, R + 1):
            c.ob("DDA to (%d,%d)" % (dy, dx), dda, (dy, dx), "DDA", False)
    for d in [(10, 7), (-10, 7), (7, -10), (-7, -10), (13, 13), (-13, 13), (1, 15), (-15, 1), (15, -2), (-3, -14), (0, 15), (-15, 0), (6, 15), (9, -11)]:
        c.ob("DDA to %s" % (d,), dda, d, "DDA", False)
        c.ob("linear_roi to %s" % (d,), dda, d, "linear_roi", True)
    for d in [(0, 0), (1, 1), (-2, 3), (3, -2), (-4, -1), (4, 0), (0, -4)]:
        c.ob("linear_roi to %s" % (d,), dda, d, "linear_roi", True)

    def fractional(s, e, ctx=None):
        """fractional points select the pixels that contain them"""
        st = W.st()
        r = returned(W.call(st, LR + "DDA", [lst(W, st, *s), lst(W, st, *e)], {}, ctx or {"exact": True}), "DDA")
        parts = I.iter_items(r.st, r.v)
        ys, xs = [elements(r.st, q, "DDA") for q in parts[:2]]
        s, e = [int(q) for q in s], [int(q) for q in e]
        line(ys, xs, [const(q) for q in s], [const(q) for q in e], (e[0] - s[0], e[1] - s[1]), "line from %s to %s" % (s, e))
    for s, e in [((F(3, 2), F(11, 4)), (F(29, 3), F(1, 2))), ((0, 0), (F(15, 2), 3)), ((F(41, 5), 2), (2, F(49, 5)))]:
        c.ob("fractional points %s %s" % (s, e), fractional, s, e)

    # the same in double precision: rounding moves neither the end points nor the points by more than a pixel
    DOUBLE = {"exact": True, "ieee": True}
    R = 18 if c.tier == "quick" else 60
    for k, (dy, dx) in enumerate((a, b) for a in range(1, R + 1) for b in range(1, R + 1)):
        if c.tier == "quick" and k % 2 and max(dx, dy) < 10:
            continue
        sy, sx = (1, -1)[k % 2], (1, -1)[k // 2 % 2]
        s = (100 * (k % 3), 50 * (k % 5))
        c.ob("line to (%d,%d) in double precision" % (sy * dy, sx * dx), fractional, s, (s[0] + sy * dy, s[1] + sx * dx), DOUBLE)

    # lengths whose nth part, taken n times, is not the length in double precision
    short = [n for n in range(3, 60) if n * (1.0 / n) < 1]
    for n in short:
        for d in ((n, 1), (1, n), (-n, 1), (1, -n), (n, -1), (-1, n)):
            for s in ((0, 0), (n, n)):
                if min(s[0] + d[0], s[1] + d[1]) >= 0:
                    c.ob("line from %s by %s in double precision" % (s, d), fractional, s, (s[0] + d[0], s[1] + d[1]), DOUBLE)

    def polar(H, Wd, cen, th, rr, ctx=None):
        st = W.st()
        X = grid(W, st, "s", H, Wd)
        kw = {} if rr is None else {"r": lst(W, st, *rr)}
        r = returned(W.call(st, LR + "linear_roi_from_polar", [X, lst(W, st, *cen), const(th)], kw, ctx or {"exact": True}), "linear_roi_from_polar")
        parts = I.iter_items(r.st, r.v)
        if parts is None or len(parts) != 4:
            raise Und("linear_roi_from_polar result")
        vs, ys, xs = [elements(r.st, q, "linear_roi_from_polar") for q in parts[:3]]
        if len({len(vs), len(ys), len(xs)}) != 1:
            raise Violation("values", "%d values, %d rows, %d columns" % (len(vs), len(ys), len(xs)))
        if not all(is_int_const(q) for q in ys + xs):
            raise Und("coordinates: %s" % show(ys[0])[:100])
        pts = [(num(y), num(x)) for y, x in zip(ys, xs)]
        what = "selection from %s at %s degrees, radii %s" % (cen, th, rr)
        for (y, x), v in zip(pts, vs):
            if not (0 <= y < H and 0 <= x < Wd):
                raise Violation("points inside the image", "%s reports the point (%d,%d) outside of the %dx%d image" % (what, y, x, H, Wd))
            c.same(v, atom("s_%d_%d" % (y, x), "r"), "%s: value at (%d,%d)" % (what, y, x), key="values")
        for p, q in zip(pts, pts[1:]):
            if max(abs(p[0] - q[0]), abs(p[1] - q[1])) != 1:
                raise Violation("adjacent points", "%s: the step from %s to %s is not between adjacent pixels" % (what, p, q))
        C, S = math.cos(math.radians(th)), math.sin(math.radians(th))
        lo = rr[0] if rr else 0
        far = [cen[0] - S * lo, cen[1] + C * lo]
        if 0 <= far[0] < H and 0 <= far[1] < Wd and (rr is None or rr[1] > rr[0] + 2):
            if not pts:
                raise Violation("start of a line", "%s is empty" % what)
            if max(abs(pts[0][0] - far[0]), abs(pts[0][1] - far[1])) > 1.001:
                raise Violation("start of a line", "%s starts at %s" % (what, pts[0]))
            if abs((pts[-1][1] - pts[0][1]) * S) - abs((pts[-1][0] - pts[0][0]) * C) > 2 or (pts[-1][1] - pts[0][1]) * C < -1e-9:
                raise Violation("direction of a line", "%s ends at %s" % (what, pts[-1]))
            # the selection ends at the border or at the maximum radius, on the ray
            y, x = pts[-1]
            edge = y in (0, H - 1) or x in (0, Wd - 1)
            if not edge and (rr is None or math.hypot(y - cen[0], x - cen[1]) < rr[1] - 3):
                raise Violation("end of a line", "%s ends at %s, neither at the border of the %dx%d image nor at the maximum radius" % (what, pts[-1], H, Wd))
            if abs((x - cen[1]) * S + (y - cen[0]) * C) > 2:
                raise Violation("end of a line", "%s ends at %s, away from the direction of the line" % (what, pts[-1]))
        for y, x in pts:
            rho = math.hypot(y - cen[0], x - cen[1])
            if rr and not lo - 1.5 <= rho <= rr[1] + 1.5:
                raise Violation("radii of a line", "%s contains the point (%d,%d) at distance %.1f" % (what, y, x, rho))
    for th in (0, 20, 45, 65, 90, 115, 135, 160, 180, 200, 225, 250, 270, 290, 315, 340):
        c.ob("polar line, %d degrees" % th, polar, 11, 13, (5, 6), th, None)
        c.ob("polar line, %d degrees, radii" % th, polar, 15, 15, (7, 7), th, (2, 5) if th % 90 == 0 else (F(7, 4), F(11, 2)))      # (the distance is a whole number at whole steps)
    for th in (0, 90, 180, 270):
        c.ob("polar line starting outside, %d degrees" % th, polar, 10, 10, (5, 5), th, (8, 20))
        c.ob("polar line near the border, %d degrees" % th, polar, 10, 12, (1, 10), th, (1, 30))
        c.ob("polar line, %d degrees, in double precision" % th, polar, 13, 11, (6, 4), th, None, DOUBLE)
    for th in (1, 33, 77, 123, 199, 260, 301, 359) + tuple(range(0, 360, 5)) * (c.tier != "quick"):
        c.ob("polar line, %d degrees, in double precision" % th, polar, 24, 21, (11, 10), th, None, DOUBLE)
