"""C36 (NRGF filter), C37 (occulter finders)."""
from __future__ import annotations
import math
from ..check import *
from ..catalogue import PP, lst
from .calib import rows
from .arrays import must_raise
from .. import terms as tm
from .. import ri

F = tm.Fraction
NRGF = PP + "nrgf.nrgf"
HALF = const(F(1, 2))


def frame(W, st, H, Wd, name="s"):
    return W.I.new_arr(st, rows(lambda y, x: atom("%s_%d_%d" % (name, y, x), "r"), H, Wd), tup(const(H), const(Wd)), FLOAT, "input")


def mean_(xs):
    return mul(const(F(1, len(xs))), add(*xs)) if len(xs) > 1 else xs[0]


def std_(xs):
    m = mean_(xs)
    return sqrt(mean_([tm.power(sub(x, m), 2) for x in xs]))


def polar(y, x, cy, cx):
    return math.hypot(y - cy, x - cx), math.degrees(math.atan2(y - cy, x - cx)) % 360


def c36(c):
    W = c.w
    I = W.I
    c.rule = ("for frames of distinct symbols, every output pixel = (sample - mean)/std of the symbols of its own ring and averaging sector (0 where the "
              "deviation is 0 and outside the rings and the output sector); rings and sectors enumerated from centre, radius, step and angles")
    c.floor = 30

    def expected(size, cy, cx, r0, step, pm, po):
        """{(y, x): (sample, list of averaged positions) or None}; pixels on an edge of a sector are left out"""
        H, Wd = size
        pos = {(y, x): polar(y, x, cy, cx) for y in range(H) for x in range(Wd)}
        rmax = int(max(r for r, _ in pos.values()))
        out = {p: None for p in pos}
        for r in range(r0, rmax, step):
            ring = [p for p, (d, _) in pos.items() if r < d <= r + step]
            av = [p for p in ring if pm[0] <= pos[p][1] < pm[1]]
            for p in ring:
                if po[0] <= pos[p][1] < po[1]:
                    out[p] = av
        return out

    def check(size, cy, cx, r0, step, pm, po, kw, key="filtered image", fit=None):
        st = W.st()
        data = frame(W, st, *size)
        args = {k: (lst(W, st, *v) if isinstance(v, (list, tuple)) else const(v)) for k, v in kw.items()}
        ctx = {"exact": True}
        if fit:
            ctx["fit"] = fit
        r = returned(W.call(st, NRGF, [data], args, ctx), "nrgf()")
        sh = I.shape(r.st, r.v)
        if sh.op == "tuple":
            for a, b in zip(sh.args[0], size):
                c.same(a, const(b), "extents of the filtered image", "", key)
        v = I.content(r.st, r.v)
        n = 0
        for (y, x), av in expected(size, cy, cx, r0, step, pm, po).items():
            got = sel(v, (const(y), const(x)))
            s = atom("s_%d_%d" % (y, x), "r")
            if not av:
                want = ZERO
            elif len(av) == 1:
                want = ZERO
            else:
                sa = [atom("s_%d_%d" % p, "r") for p in sorted(av)]
                sd = std_(sa)
                want = ite(cmp("lt", ZERO, sd), div(sub(s, mean_(sa)), sd), ZERO)
                n += 1
            c.same(got, want, "pixel (%d,%d)" % (y, x), "", key)
        c.count("filtered pixels", n)
        return "%d filtered pixels" % n
    ALL = (0, 360)
    SIZES = [((4, 5), 2, 2), ((5, 4), 0, 3), ((6, 6), 2, 3), ((3, 7), 1, 6)] + ([((8, 9), 4, 2), ((9, 8), 7, 7)] if c.tier == "thorough" else [])
    for size, cy, cx in SIZES:
        for r0, step in ((0, 1), (1, 1), (0, 2), (1, 3), (2, 1)):
            kw = dict(y_center=cy, x_center=cx, rho_min=r0)
            if step != 1:
                kw["step"] = step
            c.ob("%dx%d, centre (%d,%d), radius %d, step %d" % (size + (cy, cx, r0, step)), check, size, cy, cx, r0, step, ALL, ALL, kw)
    # sectors whose edges meet no pixel of the grid
    for pm, po in (((3, 93), ALL), (ALL, (93, 183)), ((183, 273), (3, 93)), ((-1, 100), (50, 359)), ((10, 35), ALL), ((0, 93), (0, 360))):
        for size, cy, cx, r0, step in (((6, 7), 3, 3, 0, 2), ((5, 6), 1, 4, 1, 1)):
            kw = dict(y_center=cy, x_center=cx, rho_min=r0, step=step)
            if pm is not ALL:
                kw["phi_to_mean"] = pm
            if po is not ALL:
                kw["output_phi"] = po
            c.ob("%dx%d, averaging %s, output %s" % (size + (pm, po)), check, size, cy, cx, r0, step, pm, po, kw)
    c.ob("non-integer centre", check, (5, 6), 2, 3, 0, 1, ALL, ALL, dict(y_center=F(5, 2), x_center=F(37, 10), rho_min=0))
    c.ob("non-integer centre, nearer the next pixel", check, (5, 6), 2, 3, 1, 2, ALL, ALL, dict(y_center=F(27, 10), x_center=F(31, 10), rho_min=1, step=2))

    # omitted values come from the occulter finder, given ones are used: fitted intercepts 1, 2, 1, 2 -> centre and radius
    def finder(size, b):
        H, Wd = size
        hy, hx = H // 2, Wd // 2
        fy = int((hy - b[0] + hy + b[1]) / 2)
        fx = int((hx - b[2] + hx + b[3]) / 2)
        fr = int(((b[0] + b[1]) / 2 + (b[2] + b[3]) / 2) / 2)
        return fy, fx, fr

    def omitted(size, b, given):
        order = []

        def fit(I_, st, a):
            k = len(order) % 4
            order.append(k)
            return (ONE, ZERO, HALF, const(b[k])), tuple(tuple(ZERO for _ in range(4)) for _ in range(4))
        fy, fx, fr = finder(size, b)
        return check(size, given.get("y_center", fy), given.get("x_center", fx), given.get("rho_min", fr), 1, ALL, ALL, given, "omitted values", fit)
    for size, b in (((8, 8), (1, 3, 2, 2)), ((6, 10), (1, 1, 0, 4))):
        for given in ({}, {"y_center": 2}, {"x_center": 1}, {"rho_min": 0}, {"y_center": 2, "x_center": 5}, {"y_center": 3, "rho_min": 0}, {"x_center": 2, "rho_min": 0}, {"y_center": 0, "x_center": 0}):
            c.ob("%dx%d, given %s" % (size + (given,)), omitted, size, b, given)


def c37(c):
    W = c.w
    I = W.I
    c.rule = ("wiring of the finders: the four profiles given to the fits, the arithmetic on the fitted edges, the first-crossing rule, and the arguments "
              "and order of the circle search, as terms in the samples of the image")
    c.floor = 15
    POS = PP + "nrgf.find_occulter_position"
    S = lambda y, x: atom("s_%d_%d" % (y, x), "r")

    def profiles(H, Wd):
        hy, hx = H // 2, Wd // 2
        return {"up": [S(y, hx) for y in range(hy - 1, -1, -1)], "down": [S(y, hx) for y in range(hy, H)],
                "left": [S(hy, x) for x in range(hx - 1, -1, -1)], "right": [S(hy, x) for x in range(hx, Wd)]}

    def result(r, what):
        it = I.iter_items(r.st, r.v)
        if it is None or len(it) != 3:
            raise Violation(what, "the result of %s is not (y, x, radius)" % what) if it is not None else Und("result of %s" % what)
        return [I.content(r.st, x) for x in it]

    def sigmoid(H, Wd, kw, edges=None):
        pr = profiles(H, Wd)
        seen = {}
        curves = []

        def fit(I_, st, a):
            y = I.content(st, a["ydata"])
            n = I.shape(st, a["ydata"])
            who = None
            for d, els in pr.items():
                if n is tup(const(len(els))) and all(sel(y, (const(k),)) is e for k, e in enumerate(els)):
                    who = d
            if who is None:
                raise Violation("profiles", "a fit is given the profile %s, which runs outwards from the image centre in no direction" % show(y, 4)[:300])
            if who in seen:
                raise Violation("profiles", "the %s profile is fitted twice" % who)
            x = I.content(st, a["xdata"])
            for k in range(len(pr[who])):
                c.same(sel(x, (const(k),)), const(k), "distance %d from the centre in the %s profile" % (k, who), "", "profiles")
            seen[who] = True
            curves.append(a.get("f", a.get("func")))
            e = edges[who] if edges else atom("edge_" + who, "r")
            return (ONE, ZERO, HALF, const(e) if not isinstance(e, T) else e), tuple(tuple(ZERO for _ in range(4)) for _ in range(4))
        st = W.st()
        r = returned(W.call(st, POS, [frame(W, st, H, Wd)], {k: const(v) for k, v in kw.items()}, {"exact": True, "fit": fit}), "find_occulter_position()")
        if set(seen) != set(pr):
            raise Violation("profiles", "no edge is fitted in direction %s" % sorted(set(pr) - set(seen)))
        E = lambda d: (const(edges[d]) if edges else atom("edge_" + d, "r"))
        hy, hx = const(H // 2), const(Wd // 2)
        top, bot, lef, rig = sub(hy, E("up")), add(hy, E("down")), sub(hx, E("left")), add(hx, E("right"))
        want = [tm.to_int(mul(HALF, add(top, bot))), tm.to_int(mul(HALF, add(lef, rig))),
                tm.to_int(mul(HALF, add(mul(HALF, tm.vabs(sub(bot, top))), mul(HALF, tm.vabs(sub(rig, lef))))))]
        for n, g, w in zip(("y", "x", "radius"), result(r, "find_occulter_position()"), want):
            c.same(g, w, "occulter %s from the fitted edges" % n, "", "occulter " + n)
        # the fitted curve is an edge at its fourth parameter
        for fv in curves[:1]:
            if not isinstance(fv, T):
                raise Und("the fitted curve is not visible")
            p = [atom(n, "r") for n in ("hi", "lo", "k", "x0", "d")]

            def at(x):
                q = returned(W.run(r.st.copy(), fv, [x] + p[:4]), "the fitted curve")
                return I.content(q.st, q.v)
            mid = at(p[3])
            if ri.compare(at(add(p[3], p[4])), mid)[0] == "eq":
                raise Violation("fitted curve", "the fitted curve is the same at every distance: %s" % show(mid, 5)[:300])
            c.same(add(at(add(p[3], p[4])), at(sub(p[3], p[4]))), mul(TWO, mid), "symmetry of the fitted curve about its edge", "", "fitted curve")
    for H, Wd in ((6, 6), (8, 6), (7, 9), (4, 11)):
        c.ob("sigmoid finder, %dx%d" % (H, Wd), sigmoid, H, Wd, {})
    c.ob("sigmoid finder, named", sigmoid, 6, 8, {"method": "sigmoid"})
    for e in ((3, 4, 2, 7), (5, 2, 6, 6), (1, 1, 9, 8)):
        c.ob("sigmoid finder, edges %s" % (e,), sigmoid, 20, 18, {}, dict(zip(("up", "down", "left", "right"), e)))

    # ---- first crossing
    def crossing(H, Wd, thr):
        st = W.st()
        data = frame(W, st, H, Wd)
        kw = {"method": const("algo")}
        if thr is not None:
            kw["threshold"] = thr if isinstance(thr, T) else const(thr)
        r = W.call(st, POS, [data], kw, {"exact": True})
        if not r.ok:
            raise Und("does not return")
        s2 = W.st()
        r2 = returned(W.call(s2, "mpaspec.first_crossings", [frame(W, s2, H, Wd), const(4) if thr is None else kw["threshold"]], {}, {"exact": True}), "reference definition")
        got, want = result(r, "find_occulter_position(method='algo')"), [I.content(r2.st, x) for x in I.iter_items(r2.st, r2.v)]
        for n, g, w in zip(("y", "x", "radius"), got, want):
            c.same(g, w, "occulter %s from the first crossings" % n, "", "first crossing " + n, assume=tuple(dict.fromkeys(r.st.pc + r2.st.pc)), seeds=tuple(range(1, 13)))
    for H, Wd in ((18, 16), (16, 18)) + (((20, 22),) if c.tier == "thorough" else ()):
        for thr in (F(9, 10), F(1, 2), F(11, 10)):
            c.ob("first crossing, %dx%d, threshold %s" % (H, Wd, thr), crossing, H, Wd, thr)

    def steps(H, Wd, at, thr, level):
        """profiles that are 1 up to the given distance and `level` beyond it"""
        hy, hx = H // 2, Wd // 2
        up, down, left, right = at

        def el(y, x):
            if x == hx and y < hy and up is not None:
                return ONE if hy - 1 - y < up else const(level)
            if x == hx and y >= hy and down is not None and not (y == hy):
                return ONE if y - hy < down else const(level)
            if y == hy and x < hx and left is not None:
                return ONE if hx - 1 - x < left else const(level)
            if y == hy and x > hx and right is not None:
                return ONE if x - hx < right else const(level)
            return ONE
        st = W.st()
        data = I.new_arr(st, rows(el, H, Wd), tup(const(H), const(Wd)), FLOAT, "input")
        kw = {"method": const("algo")}
        if thr is not None:
            kw["threshold"] = const(thr)
        r = W.call(st, POS, [data], kw, {"exact": True})
        t = 4 if thr is None else thr
        if level <= t or None in at:
            return must_raise(c, r, "find_occulter_position(method='algo') without a crossing", key="no crossing")
        returned(r, "find_occulter_position(method='algo')")
        y0, y1, x0, x1 = hy - up, hy + down, hx - left, hx + right
        want = (int(F(y0 + y1, 2)), int(F(x0 + x1, 2)), int((F(y1 - y0, 2) + F(x1 - x0, 2)) / 2))
        for n, g, w in zip(("y", "x", "radius"), result(r, "find_occulter_position(method='algo')"), want):
            c.same(g, const(w), "occulter %s for edges %s" % (n, at), "", "first crossing " + n)
    def reaching(which):
        """one profile is 1, then exactly threshold x mean = 4, while the others rise to 9: it has no edge"""
        H, Wd = 24, 26
        hy, hx = H // 2, Wd // 2

        def el(y, x):
            if x == hx and y != hy:
                k, d = (0, hy - 1 - y) if y < hy else (1, y - hy)
            elif y == hy and x != hx:
                k, d = (2, hx - 1 - x) if x < hx else (3, x - hx)
            else:
                return ONE
            if d < 7:
                return ONE
            if k == which:
                return const(4) if d == 7 else ONE
            return const(9)
        st = W.st()
        data = I.new_arr(st, rows(el, H, Wd), tup(const(H), const(Wd)), FLOAT, "input")
        r = W.call(st, POS, [data], {"method": const("algo")}, {"exact": True})
        return must_raise(c, r, "find_occulter_position(method='algo') with a profile that only reaches the threshold", key="no crossing")
    for at in ((7, 8, 9, 6), (6, 6, 8, 8), (9, 7, 6, 9)):
        for thr, level in ((None, 5), (2, 3), (F(3, 2), 2), (7, 8)):
            c.ob("step edges at %s, threshold %s" % (at, thr), steps, 24, 26, at, thr, level)
    # one profile only just reaches the threshold
    for which in range(4):
        c.ob("profile %d only reaches the threshold" % which, reaching, which)
    for at, thr, level in (((7, 8, 9, 6), None, 4), ((7, 8, 9, 6), 6, 5), ((None, 8, 9, 6), None, 9), ((7, None, 9, 6), None, 9), ((7, 8, None, 6), None, 9), ((7, 8, 9, None), None, 9)):
        c.ob("no edge: %s, threshold %s, level %s" % (at, thr, level), steps, 24, 26, at, thr, level)

    # ---- circles
    def hough(args, kw, lo, hi, size=(h, w_)):
        st = W.st()
        data = W.plain(st, "X", *size)
        r = returned(W.call(st, PP + "nrgf.find_occulter_hough", [data] + args, kw, {}), "find_occulter_hough()")
        it = I.iter_items(r.st, r.v)
        if it is None or len(it) != 3:
            raise Violation("circle", "the result is not (y, x, radius)") if it is not None else Und("result")
        it = [I.content(r.st, x) for x in it]
        calls = set()
        for t in it:
            tm.contains(t, lambda z: (calls.add(z), False)[1] if z.op == "fn" and str(z.args[0]).endswith(".HoughCircles") else False)
        if not calls:
            raise Und("no circle search in the result")
        for t in calls:
            named = {cval(x.args[0][0]): x.args[0][1] for x in t.args[1] if isinstance(x, T) and x.op == "tuple" and len(x.args[0]) == 2 and is_const(x.args[0][0])}
            for nm, want in (("minRadius", lo), ("maxRadius", hi)):
                if nm in named:
                    c.same(named[nm], want, "%s of the circle search" % nm, "", "circle radii")
                else:
                    raise Und("%s of the circle search" % nm)
        comp = []
        for t in it:
            found = set()
            tm.contains(t, lambda z: (found.add(cval(z.args[1][1])), False)[1] if z.op == "fn" and z.args[0] == "item" and len(z.args[1]) == 2 and isinstance(z.args[1][1], T)
                        and is_const(z.args[1][1]) and z.args[1][0].op == "fn" and z.args[1][0].args[0] == "item" else False)
            comp.append(found)
        for n, f, w in zip(("y", "x", "radius"), comp, (1, 0, 2)):
            if not f:
                raise Und("component of the circle")
            if f != {w}:
                raise Violation("circle order", "%s of the occulter is component %s of the circle (x, y, radius)" % (n, sorted(f)))
    side = tm.vmax(h, w_)
    mn, mx = atom("mn", "p"), atom("mx", "p")
    c.ob("circle search, defaults", hough, [], {}, ONE, side)
    c.ob("circle search, radii", hough, [mn, mx], {}, mn, mx)
    c.ob("circle search, named radii", hough, [], {"minr": mn, "maxr": mx}, mn, mx)
    c.ob("circle search, least radius", hough, [], {"minr": mn}, mn, side)
    c.ob("circle search, largest radius", hough, [], {"maxr": mx}, ONE, mx)
