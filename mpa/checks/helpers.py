"""C35 (helper functions)."""
from __future__ import annotations
from ..check import *
from ..catalogue import P, PP, lst
from .images import split_spec
from .. import terms as tm

F = tm.Fraction
U = P + "utils."
H2, W2 = mul(TWO, h), mul(TWO, w_)
SEEDS = tuple(range(1, 11))


def filters(t, out=None):
    """median filter applications in a term"""
    out = set() if out is None else out
    tm.contains(t, lambda z: (out.add(z), False)[1] if z.op == "fn" and z.args[0] == "mfilter" else False)
    return out


def c35(c):
    W = c.w
    I = W.I
    c.rule = ("summaries of the helper functions for symbolic arrays, limits and factors = their documented formulas; hot pixel maps and cleaning by "
              "substitution of the flag in the extracted value of every pixel family")
    c.floor = 30

    def same(got, spec, args, what, key=None, assume=()):
        r = returned(got, what, key)
        r2 = returned(W.call(r.st, "mpaspec." + spec, args(r.st)), "reference definition")
        c.same_array(r2.st, r.v, r2.v, what, "", key or what, assume, None, False, SEEDS)
    A = lambda st: W.arr(st, A2("A"), h, w_)

    # ---- statistics
    k = atom("k", "s")
    for fn, spec, sign in (("mean_minus_std", "mean_std", -1), ("mean_plus_std", "mean_std", 1), ("median_minus_std", "median_mad", -1), ("median_plus_std", "median_mad", 1)):
        def stat(n, fn=fn, spec=spec, sign=sign, kw=False):
            st = W.st()
            args, kws = [A(st)], {}
            if n is not None and kw:
                kws["stds_n"] = n
            elif n is not None:
                args.append(n)
            same(W.call(st, U + fn, args, kws), spec, lambda s: [A(s), mul(const(sign), ONE if n is None else n)], fn + "()")
        c.ob(fn, stat, None)
        c.ob(fn + ", number of deviations", stat, k)
        c.ob(fn + ", keyword", lambda: stat(k, kw=True))

    # ---- clipping
    lo, hi = atom("lo", "s"), atom("hi", "s")

    def clip(a, b):
        st = W.st()
        same(W.call(st, U + "fix_data", [A(st), a, b]), "clip_to", lambda s: [A(s), a, b], "fix_data()", assume=(cmp("le", a, b),))
    c.ob("fix_data", clip, lo, hi)
    c.ob("fix_data(0, 4096)", clip, ZERO, const(4096))
    c.ob("fix_data, negative limits", clip, const(-5), ZERO)

    def unlimited(a, b):
        st = W.st()
        r = returned(W.call(st, U + "fix_data", [A(st), a, b]), "fix_data()")
        c.same_array(r.st, r.v, A(r.st), "fix_data() without limits", "", "fix_data()")
    for a, b in ((NONE, NONE), (NONE, hi), (lo, NONE)):
        c.ob("fix_data, limits %s %s" % (show(a), show(b)), unlimited, a, b)

    # ---- photometry
    def sigma(x):
        st = W.st()
        v = A(st) if x is None else x
        r = returned(W.call(st, U + "sigma_DN", [v]), "sigma_DN()")
        g = const(F("6.93"))
        c.same(I.content(r.st, r.v), div(sqrt(mul(g, I.content(st, v))), g), "sigma_DN()", "", "sigma_DN()", shape=(h, w_))
    c.ob("sigma_DN", sigma, None)
    c.ob("sigma_DN of a number", sigma, atom("x", "r"))

    d, ti, td = atom("d", "r"), atom("ti", "r"), atom("td", "r")

    def bsun(args, kw, want):
        st = W.st()
        r = returned(W.call(st, U + "get_Bsun_units", args, kw), "get_Bsun_units()")
        c.same(I.content(r.st, r.v), mul(const(F("1.083e-5") * F("0.28")), want), "get_Bsun_units()", "", "get_Bsun_units()", seeds=SEEDS)
    c.ob("get_Bsun_units", bsun, [d, ti, td], {}, div(td, mul(ti, d)))
    c.ob("get_Bsun_units, keywords", bsun, [d], {"texp_diffuser": td, "texp_image": ti}, div(td, mul(ti, d)))
    c.ob("get_Bsun_units, one exposure", bsun, [d], {"texp_image": ti}, div(ONE, mul(ti, d)))
    c.ob("get_Bsun_units, defaults", bsun, [d], {}, div(ONE, d))

    # ---- outliers
    def inliers(m):
        st = W.st()
        v = atom("v", "a", 1)
        ri_shapes(v, h)
        arr = lambda s: I.new_arr(s, v, tup(h), FLOAT, "input")
        r = returned(W.call(st, PP + "image_cleaning.reject_outliers", [arr(st)] + ([m] if m is not None else [])), "reject_outliers()")
        r2 = returned(W.call(r.st, "mpaspec.inliers", [arr(r.st), TWO if m is None else m]), "reference definition")
        got, want = I.content(r2.st, r.v), I.content(r2.st, r2.v)
        if want.op == "ite" and want.args[0].op == "cmp":      # deviation zero or not
            q = want.args[0]
            for k in (1, 2):
                g = tm.subst(got, {q: TRUE if k == 1 else FALSE, not_(q): FALSE if k == 1 else TRUE})
                if not (k == 1 and tm.contains(g, lambda z: z.op == "cmp" and z.args[1:] == q.args[1:])):
                    c.same(g, want.args[k], "reject_outliers() with %s median deviation" % ("zero" if k == 1 else "nonzero"), "", "reject_outliers()", seeds=SEEDS)
            return
        c.same(got, want, "reject_outliers()", "", "reject_outliers()", seeds=SEEDS)
    c.ob("reject_outliers", inliers, atom("m", "r"))
    c.ob("reject_outliers, default", inliers, None)

    # ---- header and data alignment
    ps, date, time = atom("ps", "r"), atom("date", "x"), atom("time", "x")

    def align(binning, size=None):
        st = W.st()
        s2 = H2 if size is None else const(size)
        H = h if size is None else const(size // 2)
        hd = I.new_dict(st, {const("DATE-OBS"): date, const("TIME-OBS"): time, const("OTHER"): atom("card", "x")}.items())
        sy, sx = mul(const(160), atom("sy", "r")), mul(const(160), atom("sx", "r"))
        before = I.obj(st, hd).f["items"]
        r = returned(W.call(st, U + "align_keywords_and_data", [hd, W.data(st, "P", H, H), lst(W, st, sy, sx), ps],
                            {} if binning is None else {"binning": const(binning)}), "align_keywords_and_data()")
        it = I.iter_items(r.st, r.v)
        if it is None or len(it) != 2:
            raise Und("result of align_keywords_and_data()")
        if I.obj(r.st, hd).f["items"] is not before:
            raise Violation("header", "align_keywords_and_data() changes the header it was given")
        n = binning or 1
        scale = mul(const(n), ps)
        pos = lambda v: sub(s2, tm.to_int(mul(s2, div(v, const(1952)))))
        want = {"NAXIS1": s2, "NAXIS2": s2, "CDELT1": scale, "CDELT2": scale, "CRVAL1": ZERO, "CRVAL2": ZERO, "CROTA2": const(-9),
                "CRPIX1": pos(sy), "CRPIX2": pos(sx), "CUNIT1": const("arcsec"), "CUNIT2": const("arcsec"), "CTYPE1": const("HPLN-TAN"),
                "CTYPE2": const("HPLT-TAN"), "TIME-OBS": time, "OTHER": atom("card", "x")}
        for key in sorted(want):
            g = I.getitem(r.st, it[0], const(key), None)
            c.same(I.content(r.st, g), want[key], "keyword %s set by align_keywords_and_data()" % key, "", "keyword " + key, seeds=SEEDS)
        g = I.content(r.st, I.getitem(r.st, it[0], const("DATE-OBS"), None))
        if g.op == "fn" and g.args[0] == "strcat" and len(g.args[1]) == 3:
            if [show(x) for x in g.args[1]] != [show(x) for x in (date, const("T"), time)]:
                raise Violation("keyword DATE-OBS", "DATE-OBS is %s" % show(g))
        dd = split_spec(I.content(r.st, it[1]))
        for q in range(4):
            c.same(dd[q], mk("fn", "flip", (mk("fn", "rot90", (A2("P%d" % q, H, H), const(3))), ZERO)), "family %d of the aligned data" % q, "", "aligned data", shape=(H, H))
    for b in (None, 1, 2, 4):
        c.ob("align_keywords_and_data, binning %s" % b, align, b)

    # ---- hot pixels
    def own(m, p, what, key):
        """the application of a filter to the samples of one family"""
        f = m.op == "fn" and m.args[1] or ()
        if "median" not in str(cval(f[0])):
            raise Violation(key, "%s: samples are filtered with %s" % (what, cval(f[0])))
        if f[1] is p:
            return m
        used = {t.args[0] for t in tm.atoms(f[1]) if t.op == "atom" and t.args[1] == "a"}
        size = [x.args[0][1] for x in f[2:] if x.op == "tuple" and len(x.args[0]) == 2 and x.args[0][0] is const("size")]
        if f[1].op == "stack" and len(size) == 1:
            s = size[0]
            n = num_(s) if is_const(s) else num_(s.args[0][0]) if s.op in ("tuple", "stack") and s.args[0] and is_const(s.args[0][0]) else None
            if n is not None and n > 1:
                raise Violation(key, "%s: families are filtered together (%s, size %d across the families)" % (what, sorted(used), n))
        if f[1].op == "inter" and len(size) == 1 and is_const(size[0]) and num_(size[0]) > 1:
            raise Violation(key, "%s: the samples of different families are filtered together" % what)
        raise Und("%s: filter of %s" % (what, show(f[1], 3)[:80]))
    def cleaned(q):
        st = W.st()
        img, hot = W.image(st, "P"), W.image(st, "F")
        r = returned(W.meth(st, img, "clean_hot_pixels", [hot]), "clean_hot_pixels()")
        got = split_spec(W.val(r.st, r.v, "data"))[q]
        p, f = A2("P%d" % q), A2("F%d" % q)
        c.same(tm.subst(got, {f: ZERO}), p, "clean_hot_pixels(): family %d where the flag is 0" % q, "", "unflagged pixels", shape=(h, w_))
        one = tm.subst(got, {f: ONE})
        fl = filters(one)
        if len(fl) != 1:
            raise Und("%d filters in %s" % (len(fl), show(one, 4)[:80]))
        m = own(fl.pop(), p, "clean_hot_pixels()", "flagged pixels")
        c.same(one, m, "clean_hot_pixels(): family %d where the flag is 1" % q, "", "flagged pixels", shape=(h, w_))
    for q in range(4):
        c.ob("clean_hot_pixels, family %d" % q, cleaned, q)

    def hotmap(q, thr):
        st = W.st()
        img = W.image(st, "P")
        r = returned(W.call(st, PP + "image_cleaning.get_hot_pixels", [img] + ([thr] if thr is not None else [])), "get_hot_pixels()")
        got = split_spec(W.val(r.st, r.v, "data"))[q]
        fl = filters(got)
        if not [t for t in tm.atoms(got) if t is A2("P%d" % q)]:
            raise Violation("hot pixel map", "get_hot_pixels(): the map of family %d does not depend on its samples: %s" % (q, show(got, 4)))
        if len(fl) != 1:
            raise Und("%d filters in %s" % (len(fl), show(got, 4)[:80]))
        p = A2("P%d" % q)
        m = own(fl.pop(), p, "get_hot_pixels()", "hot pixel map")
        con = div(sub(p, m), add(p, m))
        c.same(got, tm.where(cmp("gt", con, const(100) if thr is None else thr), ONE, ZERO), "get_hot_pixels(): family %d" % q, "", "hot pixel map", shape=(h, w_), seeds=SEEDS)
    for q in range(4):
        c.ob("get_hot_pixels, family %d" % q, hotmap, q, atom("thr", "s"))
    c.ob("get_hot_pixels, default threshold", hotmap, 0, None)

    # ---- superpixel trimming sizes and printing helpers have their own properties (C07); angles: C20


def num_(t):
    v = cval(t)
    return v if isinstance(v, int) and not isinstance(v, bool) else 0


def ri_shapes(a, n):
    from .. import ri
    ri.SHAPES[a] = (n,)
