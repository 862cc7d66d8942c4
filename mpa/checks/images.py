"""C03 (polarization parameters follow the data), C04 (angles and header are kept), C05 (Stokes formulas)."""
from __future__ import annotations
import itertools
from ..check import *
from ..catalogue import (catalogue, execute, VARIANTS, Q_VARIANTS, HISTORIES, IDENTITY_METHODS, image_method, other_image, A_IMG, A_NUM, A_ARR, A_SHIFTM, A_DEMOD,
                         A_DEMOD_NOFLAG, K, COPY_METHODS, INPLACE_METHODS, ARGTAG, Scene, P)
from .. import terms as tm
from .. import ri

HALF = const(tm.Fraction(1, 2))


def derived(I_, Q, U):
    """pB, DoLP, AoLP of Stokes components (specification)"""
    pb = sqrt(add(mul(Q, Q), mul(U, U)))
    dolp = tm.where(cmp("ne", I_, ZERO), div(pb, I_), ZERO)
    aolp = mul(HALF, mk("fn", "arctan2", (U, Q)))
    return pb, dolp, aolp


def stokes_of(c, st, img, angles, key, what):
    """the Stokes vector an image must have, from its current data or demosaiced images"""
    W = c.w
    data = W.val(st, img, "data")
    demo = W.attr(st, img, "demosaiced_images")
    demo = W.I.simp(st, demo) if demo is not None else NONE
    if demo is NONE:
        fams = split_spec(data)
    else:
        dc = W.content(st, demo)
        fams = [sel(dc, (const(k),)) for k in range(4)]
    return stokes_spec(fams, angles), demo is not NONE


def check_params(c, st, img, want, key, where=""):
    """the six public polarization parameters of an image"""
    W = c.w
    pb, dolp, aolp = derived(*want)
    for name, w in zip(("I", "Q", "U", "pB", "DoLP", "AoLP"), list(want) + [pb, dolp, aolp]):
        try:
            f = W.param(st, img, name)
        except Und:
            raise
        c.same(f, w, "%s: %s of the result" % (key, name), where, key + ":" + name)


def different(x, y):
    """two extents that are proven different: separated, or their difference is a sum of positive and non-negative terms"""
    if ri.compare(x, y)[0] == "ne":
        return True
    p = tm.poly(sub(x, y))
    signs = {c > 0 for c in p.values()}
    known = all(a.op == "atom" and (a.args[1] in ("n", "r") or a.args[0] in ("h", "w")) and e > 0 for m in p for a, e in m)
    return len(signs) == 1 and known and any(all(a.args[0] in ("h", "w") for a, _ in m) for m in p)


def check_demosaiced(c, st, img, mode, key, required):
    """demosaiced images must be the demosaicing of the current data"""
    W = c.w
    demo = W.attr(st, img, "demosaiced_images")
    if demo is None or W.I.simp(st, demo) is NONE:
        if required:
            raise Violation(key + ":demosaiced", "the demosaiced images of the result are not available after demosaicing", "")
        return
    if mode is None:
        return
    data = W.attr(st, img, "data")
    r = W.call(st, P + "demosaic", [data, const(mode)])
    returned(r, "demosaic() of the result")
    got, want = W.I.shape(st, demo), W.I.shape(r.st, r.v)
    if got.op == want.op == "tuple" and any(different(x, y) for x, y in zip(got.args[0], want.args[0])):
        raise Violation(key + ":demosaiced", "%s: the demosaiced images of the result have shape %s, those of its data %s"
                        % (key, tm.show(got), tm.show(want)), "")
    c.same(W.content(r.st, demo), W.content(r.st, r.v), "%s: demosaiced images of the result" % key, "", key + ":demosaiced")


MODE = {"demosaiced-mean": "mean", "demosaiced": "adjacent", "demosaiced-custom": "mean", "redemosaiced": "adjacent"}
WARM = ("pB", "DoLP", "AoLP", "I", "pol0", "single_pol_subimages")


def warm(W, st, img):
    for p in WARM:
        v = W.attr(st, img, p)
        if v is not None:
            W.I.getattr(st, v, "data", None) if p != "single_pol_subimages" else None
    W.attr(st, img, "polparam_list")


def c03(c):
    W = c.w
    c.rule = ("value equality of symbolic summaries: for every operation producing or updating a micropolarizer image, the six "
              "polarization parameters of the result = the Stokes formula applied to the result's own data (or to its own demosaiced "
              "images), and those demosaiced images = demosaic(result data); also after earlier reads of the parameters and after "
              "sequences of operations")
    c.floor = 80
    variants = list(VARIANTS) + list(HISTORIES)

    def verify(st, img, variant, name, mode, must):
        angles = VARIANTS.get(variant, {}).get("angles") or DEFAULT
        want, demo = stokes_of(c, st, img, angles, name, "")
        check_params(c, st, img, want, name)
        if name.split("(")[0] not in ("rotate",):
            check_demosaiced(c, st, img, mode, name, must)

    def one(e, variant, name, warmup, dmode):
        sc = e()
        if warmup:
            warm(W, sc.st, sc.me)
        r = execute(W, sc)
        returned(r, "does not return")
        img = sc.me if e.inplace else r.v
        mode = dmode or MODE.get(variant)
        must = bool(dmode) or ("demosaiced" in variant and name not in ("demodulate",) and not (
            name.startswith("__") and e.argtag != "image"))
        verify(r.st, img, variant, name, mode, must and e.inplace)
        if warmup:
            warm(W, r.st, img)

    def mkentry(v, name, argf, kwf, inplace):
        f = image_method(W, v, name, argf, kwf)

        def make():
            return f()
        make.inplace = inplace
        make.argtag = ARGTAG.get(argf, "")
        return make
    dm = {0: "adjacent", 1: "mean", 2: "spline"}
    for v in variants:
        n = 0
        for name, argf, kwf in COPY_METHODS:
            if name == "demodulate":
                continue
            for wm in (False, True):
                if wm and c.tier == "quick" and v not in ("plain", "demosaiced-mean"):
                    continue
                c.ob("%s(%s) on a %s image%s" % (name, ARGTAG.get(argf, ""), v, ", parameters read before" if wm else ""),
                     one, mkentry(v, name, argf, kwf, False), v, name, wm, None)
        for k, (name, argf, kwf) in enumerate(INPLACE_METHODS):
            if name == "mask_occulter":
                continue
            for wm in (False, True):
                if wm and c.tier == "quick" and v not in ("plain", "demosaiced-mean"):
                    continue
                c.ob("%s #%d on a %s image%s" % (name, k, v, ", parameters read before" if wm else ""),
                     one, mkentry(v, name, argf, kwf, True), v, name, wm, dm.get(k) if name == "demosaic" else None)

    # constructors
    def ctor(kind, warmup):
        st = W.st()
        kw = {}
        variant = "plain"
        if kind == "data":
            a = W.data(st, "P")
        elif kind == "data+dark+flat":
            a = W.data(st, "P")
            kw = {"dark": other_image(W, st, "B"), "flat": other_image(W, st, "F")}
        elif kind == "data+angles":
            a, variant = W.data(st, "P"), "custom-angles"
            kw = {"angle_dic": W.angles(st, CUSTOM)}
        elif kind == "data+angles+dark":
            a, variant = W.data(st, "P"), "custom-angles"
            kw = {"angle_dic": W.angles(st, CUSTOM), "dark": other_image(W, st, "B")}
        elif kind == "data+angles+flat":
            a, variant = W.data(st, "P"), "custom-angles"
            kw = {"angle_dic": W.angles(st, CUSTOM), "flat": other_image(W, st, "B")}
        elif kind.startswith("image:"):
            variant = kind.split(":")[1].split("+")[0]
            a = W.image(st, "P", header=True, **(VARIANTS.get(variant) or HISTORIES.get(variant) or {}))
            if warmup:
                warm(W, st, a)
            if kind.endswith("+dark"):
                kw = {"dark": other_image(W, st, "B")}
            if kind.endswith("+flat"):
                kw = {"flat": other_image(W, st, "B")}
        r = W.run(st, W.fn(st, IMG), [a], kw)
        returned(r, "does not return")
        verify(r.st, r.v, variant, "MicropolImage(%s)" % kind, MODE.get(variant), False)
    kinds = ["data", "data+dark+flat", "data+angles", "data+angles+dark", "data+angles+flat"] + ["image:" + v for v in variants] + [
        "image:plain+dark", "image:plain+flat", "image:demosaiced-mean+dark", "image:demosaiced-mean+flat"]
    for v in ("plain", "demosaiced", "redemosaiced"):
        for n, (name, argf, kwf) in enumerate(IDENTITY_METHODS):
            c.ob("%s(identity #%d) on a %s image" % (name, n, v), one, mkentry(v, name, argf, kwf, False), v, name, False, None)
    for kd in kinds:
        c.ob("MicropolImage(%s)" % kd, ctor, kd, False)
        if kd.startswith("image:"):
            c.ob("MicropolImage(%s), parameters read before" % kd, ctor, kd, True)

    # sequences of two operations on one image
    ops = {
        "+scalar": ("__add__", A_NUM, False), "*image": ("__mul__", lambda W, st: [other_image(W, st, "C")], False),
        "-image": ("__sub__", lambda W, st: [other_image(W, st, "D")], False),
        "rebin": ("rebin", lambda W, st: [TWO], False), "shift": ("shift", A_SHIFTM, False),
        "demosaic": ("demosaic", lambda W, st: [const("mean")], True), "subtract_dark": ("subtract_dark", lambda W, st: [other_image(W, st, "E")], True),
        "correct_flat": ("correct_flat", lambda W, st: [other_image(W, st, "F")], True), "correct_ifov": ("correct_ifov", None, True),
        "rotate": ("rotate", lambda W, st: [atom("ang", "s")], False),
    }

    def seq(names):
        st = W.st()
        img = W.image(st, "P", angles=CUSTOM, header=True, H=mul(TWO, h), W=mul(TWO, w_)) if "rebin" in names else W.image(
            st, "P", angles=CUSTOM, header=True)
        mode = None
        for nm in names:
            meth, argf, inplace = ops[nm]
            H2, W2 = None, None
            a = argf(W, st) if argf else []
            warm(W, st, img)
            r = W.meth(st, img, meth, a)
            if not r.ok:
                raise Und("%s does not return" % nm)
            st = r.st
            img = img if inplace else r.v
            if nm == "demosaic":
                mode = "mean"
        verify(st, img, "custom-angles", "+".join(names), None if names[-1] == "rotate" else mode, names[-1] == "demosaic")
    firsts = ["+scalar", "demosaic", "shift", "subtract_dark", "*image", "correct_flat", "correct_ifov", "rotate"]
    pairs = [(a, b) for a in firsts for b in firsts]
    if c.tier == "quick":
        pairs = [p for k, p in enumerate(pairs) if "demosaic" in p or p[0] == p[1] or k % 4 == 0]
    for p in pairs:
        c.ob(" then ".join(p), seq, p)
    if c.tier == "thorough":
        for p in [("demosaic", "subtract_dark", "correct_flat"), ("demosaic", "+scalar", "shift"), ("+scalar", "demosaic", "*image"),
                  ("demosaic", "demosaic", "-image"), ("shift", "demosaic", "shift"), ("subtract_dark", "correct_flat", "demosaic")]:
            c.ob(" then ".join(p), seq, p)


def angle_map(W, st, img):
    d = W.attr(st, img, "angle_dic")
    if d is None or d.op != "ref":
        raise Und("angle dictionary")
    o = W.I.obj(st, d)
    it = o.f.get("items")
    if o.kind != "dict" or it is None or it.op != "dictt":
        raise Und("angle dictionary not resolved")
    return {cval(k): cval(v) for k, v in it.args[0]}


def c04(c):
    W = c.w
    c.rule = ("symbolic summaries: angle dictionary and header of every derived micropolarizer image = those of the image it "
              "derives from; constructed images use the given angles, otherwise the default ones")
    c.floor = 60

    def check_angles(st, img, want, key):
        got = angle_map(W, st, img)
        if got != dict(want):
            raise Violation(key + ":angles", "%s: the angle dictionary of the result is %s, expected %s" % (key, got, dict(want)), "")

    def card(st, img, name):
        hd = W.attr(st, img, "header")
        if hd is None or W.I.simp(st, hd) is NONE:
            return None
        try:
            return W.I.getitem(st, hd, const(name), None)
        except NoReturn:
            return None

    def check_header(st, img, key, card_="CARD_P"):
        got = card(st, img, card_)
        if got is None:
            raise Violation(key + ":header", "%s: a header card of the original is missing from the result's header" % key, "")
        c.same(W.content(st, got), atom("card_P", "x"), "%s: header card of the result" % key, "", key + ":header")

    def check_shape_cards(st, img, key):
        d = W.attr(st, img, "data")
        sh = W.I.shape(st, d)
        if sh.op != "tuple":
            raise Und("shape of the result not known")
        for nm, k in (("NAXIS1", 1), ("NAXIS2", 0)):
            got = card(st, img, nm)
            if got is None:
                return
            c.same(W.content(st, got), sh.args[0][k], "%s: header card %s" % (key, nm), "", key + ":" + nm)
        for nm, k in (("width", 1), ("height", 0)):
            got = W.attr(st, img, nm)
            if got is not None:
                c.same(got, sh.args[0][k], "%s: %s" % (key, nm), "", key + ":" + nm)

    def one(v, name, argf, kwf, inplace, cls=IMG):
        sc = image_method(W, v, name, argf, kwf, cls=cls)()
        key = name
        r = execute(W, sc)
        returned(r, "does not return")
        img = sc.me if inplace else r.v
        check_angles(r.st, img, VARIANTS.get(v, {}).get("angles") or DEFAULT, key)
        check_header(r.st, img, key)
        check_shape_cards(r.st, img, key)
        if not inplace:     # the original keeps its own
            check_angles(r.st, sc.me, VARIANTS.get(v, {}).get("angles") or DEFAULT, key + " (original)")
            check_header(r.st, sc.me, key + " (original)")
    vs = ["custom-angles", "demosaiced-custom", "plain"] + list(HISTORIES) + (["demosaiced-mean", "demosaiced"] if c.tier == "thorough" else [])
    for v in vs:
        for n, (name, argf, kwf) in enumerate(COPY_METHODS):
            c.ob("%s(%s) #%d on a %s image" % (name, ARGTAG.get(argf, ""), n, v), one, v, name, argf, kwf, False)
        for n, (name, argf, kwf) in enumerate(INPLACE_METHODS):
            c.ob("%s #%d on a %s image" % (name, n, v), one, v, name, argf, kwf, True)

    # constructors
    def ctor(kind):
        st = W.st()
        kw, want, hdr = {}, DEFAULT, False
        if kind == "image":
            a, want, hdr = W.image(st, "P", header=True, angles=CUSTOM), CUSTOM, True
        elif kind == "demosaiced image":
            a, want, hdr = W.image(st, "P", header=True, angles=SHUFFLED, demosaic="mean"), SHUFFLED, True
        elif kind == "image, dark, flat":
            a, want, hdr = W.image(st, "P", header=True, angles=CUSTOM), CUSTOM, True
            kw = {"dark": other_image(W, st, "B"), "flat": other_image(W, st, "F")}
        elif kind == "base image":
            a, hdr = W.image(st, "P", header=True, cls=BASE), True
        elif kind == "data, angles":
            a, want = W.data(st, "P"), CUSTOM
            kw = {"angle_dic": W.angles(st, CUSTOM)}
        elif kind == "data, angles, dark, flat":
            a, want = W.data(st, "P"), SHUFFLED
            kw = {"angle_dic": W.angles(st, SHUFFLED), "dark": other_image(W, st, "B"), "flat": other_image(W, st, "F")}
        elif kind == "base image, angles":
            a, hdr, want = W.image(st, "P", header=True, cls=BASE), True, SHUFFLED
            kw = {"angle_dic": W.angles(st, SHUFFLED)}
        elif kind == "data, defaults set":
            r = W.call(st, P + "set_default_angles", [W.angles(st, SHUFFLED)])
            st, want = r.st, SHUFFLED
            a = W.data(st, "P")
        elif kind == "data, defaults set twice":
            st = W.call(st, P + "set_default_angles", [W.angles(st, SHUFFLED)]).st
            r = W.run(st, W.fn(st, IMG), [W.data(st, "Q")], {})
            st = W.call(r.st, P + "set_default_angles", [W.angles(r.st, CUSTOM)]).st
            want = CUSTOM
            check_angles(st, r.v, SHUFFLED, "earlier image after set_default_angles()")
            a = W.data(st, "P")
        elif kind == "data after a custom image":
            W.image(st, "Z", angles=CUSTOM)
            a = W.data(st, "P")
        elif kind == "data":
            a = W.data(st, "P")
        r = W.run(st, W.fn(st, IMG), [a], kw)
        returned(r, "does not return")
        key = "MicropolImage(%s)" % kind
        check_angles(r.st, r.v, want, key)
        if hdr:
            check_header(r.st, r.v, key)
        check_shape_cards(r.st, r.v, key)
    for kd in ("image", "demosaiced image", "image, dark, flat", "base image", "data, angles", "data, angles, dark, flat", "base image, angles",
               "data", "data, defaults set", "data, defaults set twice", "data after a custom image"):
        c.ob("MicropolImage(%s)" % kd, ctor, kd)

    # micropolarizer families looked up through the angle dictionary
    def fam(prop, ang, perm):
        st = W.st()
        img = W.image(st, "P", angles=perm)
        f = W.param(st, img, prop)
        c.same(f, A2("P%d" % dict(perm)[ang]), "%s" % prop, "", prop)
    for perm in (DEFAULT, CUSTOM, SHUFFLED):
        for prop, ang in (("pol0", 0), ("pol45", 45), ("pol_45", -45), ("pol90", 90)):
            c.ob("%s with angles %s" % (prop, perm), fam, prop, ang, perm)


def c05(c):
    W = c.w
    c.rule = ("normal forms of the extracted formulas: Stokes I, Q, U of theoretical and demodulated images, pB, DoLP, AoLP, "
              "the Malus curve and the modulation/demodulation product, for all 24 assignments of orientations to pixel families")
    c.floor = 35

    def theo(perm, demo):
        st = W.st()
        img = W.image(st, "P", angles=perm, demosaic=demo)
        fams = W.fam("P")
        if demo:
            r = W.call(st, "mpaspec.demosaic_mean4", [W.I.new_arr(st, mk("stack", tuple(fams)), tup(const(4), h, w_), FLOAT, "input")])
            st2 = r.st
            dc = W.content(st2, r.v)
            want = stokes_spec([sel(dc, (const(k),)) for k in range(4)], perm)
        else:
            want = stokes_spec(fams, perm)
        check_params(c, st, img, want, "demosaiced" if demo else "theoretical")
    orders = list(itertools.permutations(range(4)))
    for o in orders:
        perm = list(zip((0, 45, -45, 90), o))
        c.ob("theoretical Stokes, angles %s" % perm, theo, perm, None)
    for perm in (DEFAULT, CUSTOM, SHUFFLED):
        c.ob("demosaiced Stokes, angles %s" % perm, theo, perm, "mean")

    def demod(perm, demosaicing, flags, before=None):
        st = W.st()
        img = W.image(st, "P", angles=perm, demosaic=before)
        d, ctx = W.demodulator(st, flags=flags)
        r = W.meth(st, img, "demodulate", [d], {"demosaicing": TRUE} if demosaicing else {}, ctx)
        returned(r, "does not return")
        fams = W.fam("P")
        m = {(i, j): A2("m_%d%d" % (i, j)) for i in range(3) for j in range(4)}
        fl = A2("flag")
        if not demosaicing:
            prod = [add(*[mul(m[i, j], fams[j]) for j in range(4)]) for i in range(3)]
            th = stokes_spec(fams, perm)
            want = [tm.where(cmp("eq", fl, ONE), p_, t_) for p_, t_ in zip(prod, th)] if flags else prod
        else:
            r2 = W.call(r.st, P + "demosaic", [W.data(r.st, "P"), const("adjacent")])
            dc = W.content(r2.st, r2.v)
            df = [sel(dc, (const(k),)) for k in range(4)]
            up = lambda x: mk("inter", (x, x, x, x))
            prod = [add(*[mul(up(m[i, j]), df[j]) for j in range(4)]) for i in range(3)]
            th = stokes_spec(df, perm)
            want = [tm.where(cmp("eq", up(fl), ONE), p_, t_) for p_, t_ in zip(prod, th)] if flags else prod
        check_params(c, r.st, r.v, want, "demodulate(demosaicing)" if demosaicing else "demodulate")
    for perm in (DEFAULT, SHUFFLED):
        for dd in (False, True):
            for fl in (True, False):
                c.ob("demodulated Stokes of a demosaiced image, angles %s%s%s" % (perm, ", demosaicing" if dd else "", ", fit flags" if fl else ""), demod, perm, dd, fl, "mean")
    for perm in (DEFAULT, CUSTOM, SHUFFLED) + (tuple(list(zip((0, 45, -45, 90), o)) for o in orders[::5]) if c.tier == "thorough" else ()):
        for dd in (False, True):
            for fl in (True, False):
                c.ob("demodulated Stokes, angles %s%s%s" % (perm, ", demosaicing" if dd else "", ", fit flags" if fl else ""), demod, perm, dd, fl)

    def params():
        st = W.st()
        S = [A2("S%d" % k) for k in range(3)]
        sv = W.I.new_arr(st, mk("stack", tuple(S)), tup(const(3), h, w_), FLOAT, "input")
        pb, dolp, aolp = derived(*S)
        for n, w in (("pB", pb), ("DoLP", dolp), ("AoLP", aolp)):
            r = W.call(st, P + "polarization_functions." + n, [sv])
            if not r.ok:
                raise Und(n)
            c.same(W.content(r.st, r.v), w, "polarization_functions.%s" % n, "", n)
    c.ob("polarization_functions", params)

    def malus():
        """a Malus curve of the fit = the row of the modulation matrix built from the same parameters times the Stokes vector"""
        st = W.st()
        a, t, e, p = atom("angle", "s"), atom("t", "s"), atom("e", "s"), atom("phi", "s")
        r = W.call(st, P + "processing.demodulation.Malus", [a, t, e, p])
        returned(r, "Malus")
        two = lambda x: mul(TWO, x)
        cos, sin = lambda x: ew("cos", x), lambda x: ew("sin", x)
        row = [mul(HALF, t), mul(HALF, t, e, cos(two(p))), mul(HALF, t, e, sin(two(p)))]
        S = [ONE, cos(two(a)), sin(two(a))]
        c.same(W.content(r.st, r.v), add(*[mul(x, y) for x, y in zip(row, S)]), "Malus curve", "", "Malus")
    c.ob("Malus curve", malus)
