"""C06 (pixel families), C07 (rebinning), C09 (shifting), C28 (dark, flat), C29 (resampling): array operations against reference
definitions (mpa/spec_src.py) that are analysed by the same interpreter."""
from __future__ import annotations
from ..check import *
from ..catalogue import P, PP, other_image
from .. import terms as tm
from .. import ri

n_ = atom("n", "p")
SY, SX, MISS = atom("sy", "i"), atom("sx", "i"), atom("missing", "s")
H2, W2 = mul(TWO, h), mul(TWO, w_)


def against(c, got, spec, args, what, key=None, assume=()):
    """result of a call (Result) = the reference definition applied to args (a function of the state)"""
    W = c.w
    returned(got, what, key)
    r2 = W.call(got.st, "mpaspec." + spec, args(got.st))
    returned(r2, "reference definition")
    c.same_array(r2.st, got.v, r2.v, what, "", key or what, assume)


def must_raise(c, r, what, exc=None, key=None):
    """the call must not return normally"""
    if r.ok:
        raise Violation(key or what, "%s returns normally instead of being rejected" % what, "")
    if not r.raised:
        raise Und("%s: no path ends" % what)
    if exc:
        names = {x[1] for x in r.raised}
        if not names & set(exc):
            raise Violation(key or what, "%s raises %s, expected %s" % (what, sorted(names), "/".join(exc)), loc(r.raised[0][2]) if r.raised[0][2] is not None else "")


def stackof(W, st, fams, H=h, Wd=w_):
    return W.I.new_arr(st, mk("stack", tuple(fams)), tup(const(len(fams)), H, Wd), FLOAT, "input")


def img_data(c, r, img):
    return c.w.attr(r.st, img, "data")


class Res:
    def __init__(self, st, v, ok=True):
        self.st, self.v, self.ok, self.raised = st, v, ok, []


def c06(c):
    W = c.w
    c.rule = ("summaries of the split, merge, demosaic, IFOV and look-up operations = reference definitions in which family k sits at "
              "row k//2, column k%2 of every superpixel")
    c.floor = 25

    def plain(what, fn, args, spec, sargs):
        st = W.st()
        against(c, W.call(st, fn, args(st)), spec, sargs, what)
    dat = lambda st: [W.data(st)]
    fam = lambda st: [stackof(W, st, W.fam("P"))]
    X2 = lambda st: [W.plain(st, "X", H2, W2)]
    c.ob("split", plain, "split_polarizations", P + "split_polarizations", X2, "split", X2)
    c.ob("split of interleaved families", plain, "split_polarizations", P + "split_polarizations", dat, "split", dat)
    c.ob("merge", plain, "merge_polarizations", P + "merge_polarizations", fam, "merge", fam)
    c.ob("demosaic mean", plain, "demosaic(mean)", P + "demosaic", lambda st: [W.data(st), const("mean")], "demosaic_mean4", fam)
    c.ob("demosaic adjacent", plain, "demosaic(adjacent)", P + "demosaic", lambda st: [W.data(st), const("adjacent")], "demosaic_adjacent4", fam)
    c.ob("demosaic default mode", plain, "demosaic()", P + "demosaic", lambda st: [W.data(st)], "demosaic_adjacent4", fam)

    def roundtrip(a, b, what):
        st = W.st()
        src = dat(st)[0] if a.startswith("split") else fam(st)[0]
        r = W.call(st, P + a, [src])
        returned(r, a)
        r2 = W.call(r.st, P + b, [r.v])
        returned(r2, b)
        src2 = dat(r2.st)[0] if a.startswith("split") else fam(r2.st)[0]
        c.same_array(r2.st, r2.v, src2, what, "", what)
    c.ob("merge after split", roundtrip, "split_polarizations", "merge_polarizations", "merge(split(data))")
    c.ob("split after merge", roundtrip, "merge_polarizations", "split_polarizations", "split(merge(families))")

    def spline(k):
        st = W.st()
        r = W.call(st, P + "demosaic", [W.data(st), const("spline")])
        returned(r, "demosaic(spline)")
        r2 = W.call(r.st, P + "congrid", [W.plain(r.st, "P%d" % k, h, w_), tup(H2, W2)])
        returned(r2, "congrid")
        c.same(sel(W.content(r2.st, r.v), (const(k),)), W.content(r2.st, r2.v), "demosaic(spline): image %d" % k, "", "demosaic(spline)")
    for k in range(4):
        c.ob("demosaic spline image %d" % k, spline, k)

    # the image class
    def subimages(perm):
        st = W.st()
        img = W.image(st, "P", angles=perm)
        v = W.attr(st, img, "single_pol_subimages")
        c.same_array(st, v, fam(st)[0], "single_pol_subimages", "", "single_pol_subimages")
    for perm in (DEFAULT, CUSTOM):
        c.ob("single_pol_subimages with angles %s" % perm, subimages, perm)

    def look(prop, ang, perm):
        st = W.st()
        img = W.image(st, "P", angles=perm)
        c.same(W.param(st, img, prop), A2("P%d" % dict(perm)[ang]), "%s" % prop, "", prop)
    import itertools
    for perm in [tuple(zip((0, 45, -45, 90), q)) for q in itertools.permutations(range(4))] + [tuple(reversed(tuple(dict(CUSTOM).items())))]:
        for prop, ang in (("pol0", 0), ("pol45", 45), ("pol_45", -45), ("pol90", 90)):
            c.ob("%s with angles %s" % (prop, perm), look, prop, ang, perm)

    def method(mode):
        st = W.st()
        img = W.image(st, "P", angles=CUSTOM)
        r = W.meth(st, img, "demosaic", [const(mode)] if mode else [])
        returned(r, "demosaic")
        d = W.attr(r.st, img, "demosaiced_images")
        r2 = W.call(r.st, "mpaspec." + ("demosaic_mean4" if mode == "mean" else "demosaic_adjacent4"), fam(r.st))
        c.same_array(r2.st, d, r2.v, "MicropolImage.demosaic(%s)" % (mode or ""), "", "MicropolImage.demosaic")
    for m in ("mean", "adjacent", None):
        c.ob("MicropolImage.demosaic(%s)" % m, method, m)

    def ifov():
        st = W.st()
        img = W.image(st, "P")
        r = W.meth(st, img, "correct_ifov", [])
        returned(r, "correct_ifov")
        against(c, Res(r.st, W.attr(r.st, img, "data")), "ifov", dat, "MicropolImage.correct_ifov")
    c.ob("correct_ifov", ifov)

    def clean(k):
        """flagged samples are replaced by the median filtered sample of the same family"""
        st = W.st()
        img = W.image(st, "P")
        hot = W.image(st, "F")
        r = W.meth(st, img, "clean_hot_pixels", [hot])
        returned(r, "clean_hot_pixels")
        d = W.val(r.st, r.v, "data")
        f = A2("P%d" % k)
        got = split_spec(d)[k]
        want = mk("fn", "where", (cmp("eq", A2("F%d" % k), ONE), atom("?", "x"), f))
        # where the flag is 0 the sample is unchanged; elsewhere the value comes from the same family only
        e = ri.Env(1)
        used = {t.args[0] for t in tm.atoms(got) if t.op == "atom" and t.args[1] == "a"}
        foreign = sorted(x for x in used if x in ("P0", "P1", "P2", "P3", "F0", "F1", "F2", "F3") and x not in ("P%d" % k, "F%d" % k))
        if foreign and got.op != "sel":
            raise Violation("clean_hot_pixels", "family %d of the cleaned image depends on other families (%s)" % (k, foreign), "")
    for k in range(4):
        c.ob("clean_hot_pixels family %d" % k, clean, k)

    def odd(fn, H, Wd, *a):
        st = W.st()
        r = W.call(st, fn, [W.plain(st, "X", const(H), const(Wd))] + list(a))
        must_raise(c, r, "%s of %dx%d data" % (fn.split(".")[-1], H, Wd), ("ValueError",), fn)
    for H, Wd in ((5, 4), (4, 5), (7, 7)):
        c.ob("split odd %dx%d" % (H, Wd), odd, P + "split_polarizations", H, Wd)
        for m in ("mean", "adjacent", "spline"):
            c.ob("demosaic %s odd %dx%d" % (m, H, Wd), odd, P + "demosaic", H, Wd, const(m))


SIZES = [(4, 4), (6, 4), (4, 10), (8, 12), (10, 6), (12, 14)]
SIZES_PLAIN = [(4, 4), (5, 4), (7, 9), (6, 11), (9, 12)]


def c07(c):
    W = c.w
    c.rule = ("summaries of the rebinning operations = reference sums (every sample of a binned pixel exactly once, samples of one "
              "family only), for symbolic sizes and binnings that divide them and for enumerated sizes that need trimming")
    c.floor = 40

    def plain_sym():
        st = W.st()
        Y, X = atom("Yb", "p"), atom("Xb", "p")
        src = lambda st: W.plain(st, "XX", mul(n_, Y), mul(n_, X))
        against(c, W.call(st, PP + "rebin.standard_rebin", [src(st), n_]), "rebin_plain", lambda s: [src(s), n_, Y, X], "standard_rebin")
    c.ob("standard_rebin, symbolic size and binning", plain_sym)

    def sup_sym(n):
        st = W.st()
        Y, X = atom("Yb", "p"), atom("Xb", "p")
        H, Wd = mul(const(n), Y), mul(const(n), X)
        src = lambda st: W.data(st, "P", H, Wd)
        against(c, W.call(st, PP + "rebin.micropolarray_rebin", [src(st), const(n)]), "rebin_superpixels", lambda s: [src(s), const(n), Y, X],
                "micropolarray_rebin")
    for n in (1, 2, 3) + ((4, 5) if c.tier == "thorough" else ()):
        c.ob("micropolarray_rebin, symbolic size, binning %d" % n, sup_sym, n)

    def plain_c(H, Wd, n, via):
        st = W.st()
        src = lambda st: W.plain(st, "XX", const(H), const(Wd))
        if via == "fn":
            r = W.call(st, PP + "rebin.standard_rebin", [src(st), const(n)])
        else:
            r0 = W.run(st, W.fn(st, BASE), [src(st)])
            r = W.meth(r0.st, r0.v, "rebin", [const(n)])
            returned(r, "rebin")
            r = Res(r.st, W.attr(r.st, r.v, "data"))
        against(c, r, "rebin_plain", lambda s: [src(s), const(n), const(H // n), const(Wd // n)], "standard_rebin" if via == "fn" else "Image.rebin")

    def sup_c(H, Wd, n, via):
        st = W.st()
        src = lambda st: W.plain(st, "XX", const(H), const(Wd))
        if via == "fn":
            r = W.call(st, PP + "rebin.micropolarray_rebin", [src(st), const(n)])
        else:
            r0 = W.run(st, W.fn(st, IMG), [src(st)])
            r = W.meth(r0.st, r0.v, "rebin", [const(n)])
            returned(r, "rebin")
            r = Res(r.st, W.attr(r.st, r.v, "data"))
        against(c, r, "rebin_superpixels", lambda s: [src(s), const(n), const(H // (2 * n)), const(Wd // (2 * n))],
                "micropolarray_rebin" if via == "fn" else "MicropolImage.rebin")
    ns = (1, 2, 3) if c.tier == "quick" else (1, 2, 3, 4, 5)
    sp = SIZES_PLAIN if c.tier == "quick" else SIZES_PLAIN + [(1, 5), (8, 8), (10, 15), (12, 13), (15, 15)]
    su = SIZES if c.tier == "quick" else SIZES + [(16, 10), (14, 18), (20, 12), (2, 8)]
    for n in ns:
        for H, Wd in sp:
            if min(H, Wd) >= n:
                c.ob("standard_rebin %dx%d by %d" % (H, Wd, n), plain_c, H, Wd, n, "fn")
        for H, Wd in su:
            if min(H, Wd) >= 2 * n:
                c.ob("micropolarray_rebin %dx%d by %d" % (H, Wd, n), sup_c, H, Wd, n, "fn")
    for H, Wd, n in ((4, 6, 2), (7, 5, 2), (9, 7, 3)):
        c.ob("Image.rebin %dx%d by %d" % (H, Wd, n), plain_c, H, Wd, n, "method")
    for H, Wd, n in ((4, 8, 2), (8, 10, 2), (12, 14, 3)):
        c.ob("MicropolImage.rebin %dx%d by %d" % (H, Wd, n), sup_c, H, Wd, n, "method")

    def trim(H, Wd, n):
        st = W.st()
        r = W.call(st, P + "trim_to_match_binning", [const(H), const(Wd), const(n)])
        if not r.ok or r.v.op != "tuple":
            raise Und("trim_to_match_binning")
        for got, want, nm in zip(r.v.args[0], (H // n * n, Wd // n * n), ("height", "width")):
            c.same(got, const(want), "trim_to_match_binning(%d, %d, %d): %s" % (H, Wd, n, nm), "", "trim_to_match_binning")
    for H, Wd, n in ((7, 9, 2), (9, 7, 3), (8, 8, 4), (5, 11, 1), (10, 10, 3)):
        c.ob("trim_to_match_binning(%d, %d, %d)" % (H, Wd, n), trim, H, Wd, n)

    def demodrebin(i, j):
        st = W.st()
        H, Wd = mul(const(4), atom("Yb", "p")), mul(const(4), atom("Xb", "p"))
        d, ctx = W.demodulator(st, H, Wd)
        r = W.meth(st, d, "rebin", [TWO], {}, ctx)
        returned(r, "Demodulator.rebin")
        m = W.val(r.st, r.v, "mij")
        r2 = W.call(r.st, "mpaspec.rebin_mean", [W.plain(r.st, "m_%d%d" % (i, j), H, Wd), TWO, div(H, TWO), div(Wd, TWO)])
        c.same(sel(m, (const(i), const(j))), W.content(r2.st, r2.v), "Demodulator.rebin: element %d%d" % (i, j), "", "Demodulator.rebin",
               shape=(div(H, TWO), div(Wd, TWO)))
    for i in range(3):
        for j in range(4):
            c.ob("Demodulator.rebin element %d%d" % (i, j), demodrebin, i, j)

    def rejected(cls, n):
        st = W.st()
        img = W.image(st, "P", cls=cls)
        r = W.meth(st, img, "rebin", [const(n)])
        must_raise(c, r, "%s.rebin(%d)" % (cls.split(".")[-1], n), ("ValueError",), cls.split(".")[-1] + ".rebin")
    for cls in (IMG, BASE):
        for n in (0, -1, -2):
            c.ob("%s.rebin(%d) is rejected" % (cls.split(".")[-1], n), rejected, cls, n)

    def odd(H, Wd):
        st = W.st()
        r = W.call(st, PP + "rebin.micropolarray_rebin", [W.plain(st, "XX", const(H), const(Wd)), TWO])
        must_raise(c, r, "superpixel rebinning of %dx%d data" % (H, Wd), ("ValueError",), "micropolarray_rebin")
    for H, Wd in ((5, 4), (4, 7), (9, 9)):
        c.ob("micropolarray_rebin of odd %dx%d data" % (H, Wd), odd, H, Wd)


def c09(c):
    W = c.w
    c.rule = "summaries of the shift operations = reference translation with fill, for symbolic sizes, shifts of both signs and fill values"
    c.floor = 12

    def plain(sy, sx, m, H=h, Wd=w_):
        st = W.st()
        X = lambda s: W.plain(s, "X", H, Wd)
        against(c, W.call(st, PP + "shift.shift", [X(st), sy, sx, m]), "shift_plain", lambda s: [X(s), sy, sx, m], "shift")

    def base(sy, sx, m, kw):
        st = W.st()
        X = lambda s: W.plain(s, "X", h, w_)
        r0 = W.run(st, W.fn(st, BASE), [X(st)])
        r = W.meth(r0.st, r0.v, "shift", [sy, sx], {"missing": m} if kw else {})
        returned(r, "Image.shift")
        mm = m if kw else ZERO
        against(c, Res(r.st, W.attr(r.st, r.v, "data")), "shift_plain", lambda s: [X(s), sy, sx, mm], "Image.shift")

    def fams(sy, sx, m):
        st = W.st()
        against(c, W.call(st, PP + "shift.shift_micropol", [W.data(st), sy, sx, m]), "shift_families", lambda s: [W.data(s), sy, sx, m], "shift_micropol")

    def image(sy, sx, m, kw, demosaic):
        st = W.st()
        img = W.image(st, "P", angles=CUSTOM, demosaic=demosaic)
        r = W.meth(st, img, "shift", [sy, sx], {"missing": m} if kw else {})
        returned(r, "MicropolImage.shift")
        mm = m if kw else ZERO
        against(c, Res(r.st, W.attr(r.st, r.v, "data")), "shift_families", lambda s: [W.data(s), sy, sx, mm], "MicropolImage.shift")
    big = lambda k: add(atom("k%d" % k, "n"), h if k == 0 else w_)
    for nm, sy, sx in (("symbolic", SY, SX), ("0,0", ZERO, ZERO), ("+2,-1", TWO, const(-1)), ("-2,+1", const(-2), ONE), ("+3,+2", const(3), TWO),
                       ("-1,-3", const(-1), const(-3))):
        c.ob("shift %s" % nm, plain, sy, sx, MISS)
        c.ob("shift_micropol %s" % nm, fams, sy, sx, MISS)
        c.ob("Image.shift %s" % nm, base, sy, sx, MISS, True)
        c.ob("MicropolImage.shift %s" % nm, image, sy, sx, MISS, True, None)
    for H, Wd in ((2, 3), (3, 5)):      # shifts larger than the image
        for sy, sx in ((4, 0), (0, -6), (-5, 7), (2, 3), (-2, -3)):
            c.ob("shift %d,%d of a %dx%d image" % (sy, sx, H, Wd), plain, const(sy), const(sx), MISS, const(H), const(Wd))
    def integers(fn, fam):
        """a frame of integers: the fill value is kept as given"""
        st = W.st()
        frame, W.frame = W.frame, const("uint16")
        try:
            x = W.data(st) if fam else W.plain(st, "X", h, w_)
            r = W.call(st, PP + fn, [x, SY, SX, MISS])
        finally:
            W.frame = frame
        returned(r, fn)
        for ev in r.evs("truncate"):
            raise Violation("%s: fill of integer data" % fn, "%s of a frame of integers: the fill value is stored into an array of %s, which drops its fractional part" % (
                fn, ev["dtype"]), ev.get("loc") or "")
    c.ob("shift of integers", integers, "shift.shift", False)
    c.ob("shift_micropol of integers", integers, "shift.shift_micropol", True)
    c.ob("Image.shift default fill", base, SY, SX, MISS, False)
    c.ob("MicropolImage.shift default fill", image, SY, SX, MISS, False, None)
    c.ob("MicropolImage.shift of a demosaiced image", image, SY, SX, MISS, True, "mean")


def c28(c):
    W = c.w
    c.rule = "summaries of the dark and flat corrections and image arithmetic = reference definitions"
    c.floor = 30

    def dark(variant):
        st = W.st()
        img = W.image(st, "P", **variant)
        r = W.meth(st, img, "subtract_dark", [W.image(st, "B")])
        returned(r, "subtract_dark")
        against(c, Res(r.st, W.attr(r.st, img, "data")), "dark_subtracted", lambda s: [W.data(s), W.data(s, "B")], "subtract_dark")

    def flat(variant):
        st = W.st()
        img = W.image(st, "P", **variant)
        r = W.meth(st, img, "correct_flat", [W.image(st, "B")])
        returned(r, "correct_flat")
        against(c, Res(r.st, W.attr(r.st, img, "data")), "flat_corrected", lambda s: [W.data(s), W.data(s, "B")], "correct_flat")
    for nm, v in (("plain", {}), ("custom", {"angles": CUSTOM}), ("demosaiced", {"demosaic": "mean"})):
        c.ob("subtract_dark on a %s image" % nm, dark, v)
        c.ob("correct_flat on a %s image" % nm, flat, v)

    def ctor(d, f, src):
        st = W.st()
        kw = {}
        if d:
            kw["dark"] = W.image(st, "D")
        if f:
            kw["flat"] = W.image(st, "F")
        a = W.data(st) if src == "data" else W.image(st, "P")
        r = W.run(st, W.fn(st, IMG), [a], kw)
        returned(r, "constructor")
        st2, x = r.st, W.data(r.st)
        if d:
            q = W.call(st2, "mpaspec.dark_subtracted", [x, W.data(st2, "D")])
            st2, x = q.st, q.v
        if f:
            q = W.call(st2, "mpaspec.flat_corrected", [x, W.data(st2, "F")])
            st2, x = q.st, q.v
        c.same_array(st2, W.attr(st2, r.v, "data"), x, "data of MicropolImage(%s%s%s)" % (src, ", dark" if d else "", ", flat" if f else ""), "", "MicropolImage(dark, flat)")
    for src in ("data", "image"):
        for d, f in ((1, 0), (0, 1), (1, 1), (0, 0)):
            c.ob("constructor from %s%s%s" % (src, ", dark" if d else "", ", flat" if f else ""), ctor, d, f, src)

    def arith(op, cls, kind, variant):
        st = W.st()
        img = W.image(st, "P", cls=cls, **variant)
        x = W.val(st, img, "data")
        if kind == "image":
            b = W.image(st, "B", cls=cls)
            y = W.val(st, b, "data")
        elif kind == "scalar":
            b = y = atom("scalar", "s")
        else:
            b = W.plain(st, "N", H2, W2)
            y = W.content(st, b)
        r = W.meth(st, img, op, [b])
        returned(r, op)
        want = {"__add__": lambda: add(x, y), "__sub__": lambda: sub(x, y), "__mul__": lambda: mul(x, y),
                "__truediv__": lambda: tm.where(cmp("ne", y, ZERO), div(x, y), ZERO)}[op]()
        d = W.attr(r.st, r.v, "data")
        c.same(W.content(r.st, d), want, "data of image %s %s" % (op.strip("_"), kind), "", "%s.%s" % (cls.split(".")[-1], op), shape=(H2, W2))
    for cls, vs in ((IMG, ({}, {"angles": CUSTOM}, {"demosaic": "mean"})), (BASE, ({},))):
        for v in vs:
            for op in ("__add__", "__sub__", "__mul__", "__truediv__"):
                for kind in ("image", "scalar", "array"):
                    c.ob("%s %s %s %s" % (cls.split(".")[-1], op, kind, v or ""), arith, op, cls, kind, v)


def c29(c):
    W = c.w
    c.rule = ("summary of the resampling operation = bilinear reference interpolation keeping the corner samples, applied to every pixel "
              "family separately; target sizes are trimmed to even numbers")
    c.floor = 8

    def plain(H, Wd, H2_, W2_):
        st = W.st()
        X = lambda s: W.plain(s, "X", const(H) if isinstance(H, int) else H, const(Wd) if isinstance(Wd, int) else Wd)
        against(c, W.call(st, P + "congrid", [X(st), W.I.new_list(st, [const(H2_), const(W2_)])]), "resampled",
                lambda s: [X(s), const(H2_), const(W2_)], "congrid")
    for a in ((4, 5, 7, 9), (6, 4, 3, 3), (5, 5, 5, 5), (3, 7, 6, 2), (8, 2, 2, 8), (4, 3, 1, 5), (3, 4, 6, 1), (1, 4, 3, 6), (5, 1, 2, 4), (1, 1, 3, 3), (2, 3, 1, 1)):
        c.ob("congrid %dx%d to %dx%d" % a, plain, *a)

    def sym():
        plain(add(h, TWO), add(w_, TWO), 9, 5)
    c.ob("congrid of a symbolic size to 9x5", sym)

    def image(ny, nx, k):
        st = W.st()
        H, Wd = const(4), const(3)
        img = W.image(st, "P", H=H, W=Wd)
        r = W.meth(st, img, "congrid", [const(ny), const(nx)])
        returned(r, "congrid")
        d = W.attr(r.st, r.v, "data")
        sh = W.I.shape(r.st, d)
        ey, ex = ny // 2 * 2, nx // 2 * 2
        if sh.op == "tuple":
            for got, want, nm in zip(sh.args[0], (ey, ex), ("height", "width")):
                c.same(got, const(want), "MicropolImage.congrid(%d, %d): %s" % (ny, nx, nm), "", "MicropolImage.congrid")
        r2 = W.call(r.st, "mpaspec.resampled", [W.plain(r.st, "P%d" % k, H, Wd), const(ey // 2), const(ex // 2)])
        returned(r2, "reference")
        c.same(split_spec(W.content(r2.st, d))[k], W.content(r2.st, r2.v), "MicropolImage.congrid: family %d" % k, "", "MicropolImage.congrid",
               shape=(const(ey // 2), const(ex // 2)))
    for ny, nx in ((8, 10), (9, 7), (6, 4), (2, 6), (4, 3)):
        for k in range(4):
            c.ob("MicropolImage.congrid(%d, %d) family %d" % (ny, nx, k), image, ny, nx, k)

    def demodulated(ny, nx, demosaicing, flags):
        st = W.st()
        H, Wd = const(4), const(3)
        img = W.image(st, "P", H=H, W=Wd)
        d, ctx = W.demodulator(st, H, Wd, flags=flags)
        r = returned(W.meth(st, img, "demodulate", [d], {"demosaicing": const(demosaicing)}, ctx), "demodulation")
        st, img = r.st, r.v
        before = W.val(st, img, "Stokes_vec")
        r = returned(W.meth(st, img, "congrid", [const(ny), const(nx)]), "congrid of a demodulated image")
        n = 1 if demosaicing else 2
        ey, ex = const(ny // 2 * 2 // n), const(nx // 2 * 2 // n)
        what = "MicropolImage.congrid(%d, %d) of a demodulated image" % (ny, nx)
        S = W.attr(r.st, r.v, "Stokes_vec")
        sh = W.I.shape(r.st, S)
        if sh.op == "tuple":
            for got, want, nm in zip(sh.args[0], (const(3), ey, ex), ("components", "height", "width")):
                c.same(got, want, "%s: Stokes %s" % (what, nm), "", "MicropolImage.congrid:Stokes")
        big = (mul(TWO, H), mul(TWO, Wd)) if demosaicing else (H, Wd)
        want = []
        for k in range(3):
            a = W.I.new_arr(r.st, sel(before, (const(k),)), tup(*big), FLOAT, "input")
            r2 = returned(W.call(r.st, "mpaspec.resampled", [a, ey, ex]), "reference")
            want.append(W.content(r2.st, r2.v))
            c.same(sel(W.content(r.st, S), (const(k),)), want[k], "%s: Stokes component %d" % (what, k), "", "MicropolImage.congrid:Stokes", shape=(ey, ex))
        dolp = W.param(r.st, r.v, "pB")
        c.same(dolp, sqrt(add(mul(want[1], want[1]), mul(want[2], want[2]))), "%s: pB" % what, "", "MicropolImage.congrid:pB", shape=(ey, ex))
    for ny, nx in ((8, 10), (9, 7), (6, 4)):
        for dm in (False, True):
            for fl in ((True, False) if c.tier == "thorough" else (True,)):
                c.ob("MicropolImage.congrid(%d, %d) of an image demodulated %s demosaicing%s" % (ny, nx, "with" if dm else "without", "" if fl else ", no flags"), demodulated, ny, nx, dm, fl)
