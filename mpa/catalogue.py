"""The API catalogue: every public operation of the package with abstract arguments.  Shared by the aliasing, mutation,
initialisation, name-resolution and history checks."""
from __future__ import annotations
from .check import *
from . import ri

OPT = mk("other", "option")   # a string different from every literal of the program


class Entry:
    def __init__(self, name, make, inplace=False, kind="fn", tags=()):
        self.name, self.make, self.inplace, self.kind, self.tags = name, make, inplace, kind, set(tags)


class Scene:
    """one prepared call: state, callee, arguments; sources = caller-visible inputs; me = receiver"""

    def __init__(self, st, f, args=(), kw=None, ctx=None, me=None, extra=()):
        self.st, self.f, self.args, self.kw, self.ctx, self.me = st, f, list(args), kw or {}, ctx, me
        self.extra = list(extra)

    def sources(self):
        return ([self.me] if self.me is not None else []) + self.args + list(self.kw.values()) + self.extra


VARIANTS = {
    "plain": dict(),
    "custom-angles": dict(angles=CUSTOM),
    "demosaiced-mean": dict(demosaic="mean"),
    "demosaiced": dict(demosaic="adjacent"),
    "demosaiced-custom": dict(demosaic="mean", angles=SHUFFLED),
}
# images on which operations were performed before
HISTORIES = {
    "corrected": dict(ops=(("subtract_dark", "@X"), ("correct_flat", "@Y"))),
    "redemosaiced": dict(ops=(("demosaic", "mean"), ("correct_flat", "@Y"), ("demosaic", "adjacent"))),
}
Q_VARIANTS = ["plain", "custom-angles", "demosaiced-mean", "demosaiced-custom"]


def image_method(W, variant, name, argf=None, kwf=None, cls=IMG, ctx=None):
    def make():
        st = W.st()
        if variant == "demodulated":
            base = W.image(st, "P", header=True)
            d, dctx = W.demodulator(st)
            r = W.meth(st, base, "demodulate", [d])
            if not r.ok:
                raise Und("demodulate() does not return")
            st.become(r.st)
            img = r.v
        else:
            img = W.image(st, "P", header=True, cls=cls, **(VARIANTS.get(variant) or HISTORIES[variant] if variant != "plain" else {}))
        args = argf(W, st) if argf else []
        kw = kwf(W, st) if kwf else {}
        c = ctx
        if args and isinstance(args[-1], dict):
            c = args.pop()
        f = W.attr(st, img, name)
        if f is None:
            raise AnalysisBroken("method %s not found" % name)
        return Scene(st, f, args, kw, c, img)
    return make


def other_image(W, st, prefix="B", cls=IMG):
    return W.image(st, prefix, header=True, cls=cls)


A_IMG = lambda W, st: [other_image(W, st)]
A_NUM = lambda W, st: [atom("scalar", "s")]
A_ARR = lambda W, st: [W.plain(st, "N", mul(TWO, h), mul(TWO, w_))]
A_SHIFT = lambda W, st: [atom("sy", "i"), atom("sx", "i")]
A_SHIFTM = lambda W, st: [atom("sy", "i"), atom("sx", "i"), atom("missing", "s")]


def A_DEMOD(W, st):
    d, ctx = W.demodulator(st)
    return [d, ctx]


def A_DEMOD_NOFLAG(W, st):
    d, ctx = W.demodulator(st, flags=False)
    return [d, ctx]


def K(**kw):
    return lambda W, st: {k: (const(v) if not isinstance(v, T) else v) for k, v in kw.items()}


# methods returning a new image (copy semantics)
COPY_METHODS = [
    ("rebin", lambda W, st: [TWO], None),
    ("rotate", lambda W, st: [atom("ang", "s")], None),
    ("shift", A_SHIFTM, None),
    ("congrid", lambda W, st: [const(90), const(70)], None),
    ("clean_hot_pixels", lambda W, st: [other_image(W, st, "H")], None),
    ("__add__", A_IMG, None), ("__add__", A_NUM, None), ("__add__", A_ARR, None),
    ("__sub__", A_IMG, None), ("__sub__", A_NUM, None), ("__sub__", A_ARR, None),
    ("__mul__", A_IMG, None), ("__mul__", A_NUM, None), ("__mul__", A_ARR, None),
    ("__truediv__", A_IMG, None), ("__truediv__", A_NUM, None), ("__truediv__", A_ARR, None),
    ("demodulate", A_DEMOD, None), ("demodulate", A_DEMOD, K(demosaicing=True)),
    ("demodulate", A_DEMOD_NOFLAG, None), ("demodulate", A_DEMOD_NOFLAG, K(demosaicing=True)),
]
ARGTAG = {A_IMG: "image", A_NUM: "scalar", A_ARR: "array", A_DEMOD: "tensor+flags", A_DEMOD_NOFLAG: "tensor"}
INPLACE_METHODS = [
    ("demosaic", None, None), ("demosaic", lambda W, st: [const("mean")], None), ("demosaic", lambda W, st: [const("spline")], None),
    ("subtract_dark", A_IMG, None), ("correct_flat", A_IMG, None), ("correct_ifov", None, None),
    ("mask_occulter", lambda W, st: [atom("oy", "i"), atom("ox", "i"), atom("orad", "n")], None),
]
# parameters for which an operation changes nothing
IDENTITY_METHODS = [
    ("rebin", lambda W, st: [ONE], None), ("rotate", lambda W, st: [ZERO], None), ("rotate", lambda W, st: [const(360)], None),
    ("shift", lambda W, st: [ZERO, ZERO], None), ("shift", lambda W, st: [ZERO, ZERO, atom("missing", "s")], None),
    ("__add__", lambda W, st: [ZERO], None), ("__sub__", lambda W, st: [ZERO], None), ("__mul__", lambda W, st: [ONE], None),
    ("__truediv__", lambda W, st: [ONE], None),
]
FILE = lambda n: (lambda W, st: [const(n)])
READ_METHODS = [
    ("save_as_fits", FILE("out/a.b.fits"), None),
    ("save_as_fits", FILE("out/a.fits"), lambda W, st: {"fixto": W.I.new_list(st, [atom("lo", "s"), atom("hi", "s")], origin="input")}),
    ("save_as_raw", FILE("out/a.raw"), None),
    ("save_single_pol_images", FILE("out/a.fits"), None),
    ("save_single_pol_images", FILE("out/a.fits"), lambda W, st: {"fixto": W.I.new_list(st, [atom("lo", "s"), atom("hi", "s")], origin="input")}),
    ("save_param_as_fits", lambda W, st: [const("pB"), const("out/a.fits")], None),
    ("save_param_as_fits", lambda W, st: [const("Q"), const("out/a.fits")], lambda W, st: {"fixto": W.I.new_list(st, [atom("lo", "s"), atom("hi", "s")], origin="input")}),
    ("save_all_pol_params_as_fits", FILE("out/a.fits"), None),
    ("show", None, None), ("show", None, K(vmin=0, vmax=3)), ("show_histogram", None, None), ("show_histogram", None, K(split_pols=False)),
    ("show_with_pol_params", None, None), ("show_pol_params", None, None), ("show_single_pol_images", None, None),
    ("show_pol_param", lambda W, st: [const("AoLP")], None), ("show_pol_param", lambda W, st: [const("I")], K(vmin=0, vmax=1)),
]
DEMO_READ = [
    ("save_demosaiced_images_as_fits", FILE("out/a.fits"), None),
    ("show_demo_images", None, None), ("show_demo_images", None, K(vmin=0, vmax=1)),
]
PROPS = ["I", "Q", "U", "pB", "AoLP", "DoLP", "polparam_list", "single_pol_subimages", "pol0", "pol45", "pol_45", "pol90"]


def fnentry(W, dotted, build):
    def make():
        st = W.st()
        a = build(W, st)
        kw, ctx, extra = {}, None, ()
        if isinstance(a, tuple):
            a, kw, *rest = a
            ctx = rest[0] if rest else None
        return Scene(st, W.fn(st, dotted), a, kw, ctx, None, extra)
    return make


P = "micropolarray."
PP = "micropolarray.processing."


def D(prefix="P"):
    return lambda W, st: W.data(st, prefix)


def stack4(W, st, prefix="P", H=h, Wd=w_):
    return W.I.new_arr(st, mk("stack", tuple(W.fam(prefix, H, Wd))), tup(const(4), H, Wd), W.frame, "input")


def stokes(W, st, prefix="S"):
    return W.I.new_arr(st, mk("stack", tuple(A2("%s%d" % (prefix, k)) for k in range(3))), tup(const(3), h, w_), FLOAT, "input")


def lst(W, st, *xs):
    return W.I.new_list(st, [x if isinstance(x, T) else const(x) for x in xs], origin="input")


def raw_ctx():
    return {}


def calib_args(W, st, n=4, procs=(1, 1), size=None, occulter=False, dark=False, flat=False, norm="num", pols=(0, 45, 90, -45), **extra):
    kw = {"polarizer_orientations": lst(W, st, *pols), "filenames_list": lst(W, st, *["/in/p%d.fits" % k for k in range(len(pols))]),
          "micropol_phases_previsions": lst(W, st, 0, 45, -45, 90), "gain": atom("gain", "p"), "output_dir": const("/out/cal"),
          "procs_grid": lst(W, st, *procs)}
    if norm == "num":
        kw["normalizing_S"] = atom("normS", "s")
    if occulter:
        kw["occulter"] = lst(W, st, atom("oy", "n"), atom("ox", "n"), atom("orad", "n"))
    if dark:
        kw["dark_filename"] = const("/in/dark.fits")
    if flat:
        kw["flat_filename"] = const("/in/flat.fits")
    kw.update(extra)
    return [], kw, calib_ctx(W, size or (mul(const(2), h), mul(const(2), w_)))


def calib_ctx(W, size):
    H, Wd = size

    def fits_data(I, st, src, i):
        nm = str(cval(src)).split("/")[-1] if is_const(src) else show(src)
        return I.new_arr(st, A2("f_" + nm, H, Wd), tup(H, Wd), W.frame, "file")
    return {"fits_data": fits_data, "exists": lambda p, what: True}


def catalogue(W, variants=Q_VARIANTS):
    """list of entries"""
    out = []

    def tag(argf, kwf):
        t = ARGTAG.get(argf, "")
        if kwf is not None:
            t += " kw"
        return t
    for v in variants + ["demodulated"]:
        for name, argf, kwf in COPY_METHODS:
            if v == "demodulated" and name == "demodulate":
                continue
            out.append(Entry("MicropolImage.%s(%s) on a %s image" % (name, tag(argf, kwf), v), image_method(W, v, name, argf, kwf),
                             kind="copy", tags={name, v}))
        for n, (name, argf, kwf) in enumerate(INPLACE_METHODS):
            out.append(Entry("MicropolImage.%s(%s) #%d on a %s image" % (name, tag(argf, kwf), n, v), image_method(W, v, name, argf, kwf),
                             inplace=True, kind="inplace", tags={name, v}))
    for v in ("plain", "demosaiced-mean"):
        for n, (name, argf, kwf) in enumerate(READ_METHODS + (DEMO_READ if v != "plain" else [])):
            out.append(Entry("MicropolImage.%s #%d on a %s image" % (name, n, v), image_method(W, v, name, argf, kwf), kind="read", tags={name, v}))
    # plain Image class
    for name, argf, kwf in [("shift", A_SHIFTM, None), ("rebin", lambda W, st: [TWO], None),
                            ("__add__", None, None), ("__sub__", None, None), ("__mul__", None, None), ("__truediv__", None, None)]:
        for kind in (("image", "scalar", "array") if name.startswith("__") else ("",)):
            af = argf or {"image": lambda W, st: [other_image(W, st, cls=BASE)], "scalar": A_NUM, "array": A_ARR}[kind]
            out.append(Entry("Image.%s(%s)" % (name, kind), image_method(W, "plain", name, af, kwf, cls=BASE), kind="copy", tags={name, "Image"}))
    for n, (name, argf, kwf) in enumerate(READ_METHODS[:3] + READ_METHODS[8:11]):
        out.append(Entry("Image.%s #%d" % (name, n), image_method(W, "plain", name, argf, kwf, cls=BASE), kind="read", tags={name, "Image"}))

    for v in ("plain", "demosaiced-mean"):
        for n, (name, argf, kwf) in enumerate(IDENTITY_METHODS):
            out.append(Entry("MicropolImage.%s(identity #%d) on a %s image" % (name, n, v), image_method(W, v, name, argf, kwf), kind="copy", tags={name, v, "identity"}))
    for n, (name, argf, kwf) in enumerate(IDENTITY_METHODS):
        if name != "rotate":
            out.append(Entry("Image.%s(identity #%d)" % (name, n), image_method(W, "plain", name, argf, kwf, cls=BASE), kind="copy", tags={name, "Image", "identity"}))

    # constructors
    def ctor(cls, variant=None, argf=None, kwf=None):
        def make():
            st = W.st()
            if variant == "data":
                a = [W.data(st, "P")]
            elif variant == "files":
                a = [lst(W, st, "/in/a.fits", "/in/b.fits")]
            elif variant == "file":
                a = [const("/in/a.fits")]
            elif variant == "demodulated":
                b = W.image(st, "P", header=True)
                d, _ = W.demodulator(st)
                r = W.meth(st, b, "demodulate", [d])
                st.become(r.st)
                a = [r.v]
            elif variant.startswith("base:"):
                a = [W.image(st, "P", header=True, cls=BASE)]
            else:
                a = [W.image(st, "P", header=True, **VARIANTS[variant])]
            kw = kwf(W, st) if kwf else {}
            return Scene(st, W.fn(st, cls), a, kw, calib_ctx(W, (mul(TWO, h), mul(TWO, w_))))
        return make
    for v in list(VARIANTS) + ["demodulated", "data", "file", "files", "base:"]:
        out.append(Entry("MicropolImage(%s)" % v, ctor(IMG, v), kind="copy", tags={"ctor", v}))
        out.append(Entry("Image(%s)" % v, ctor(BASE, v), kind="copy", tags={"ctor", v, "Image"}))
    out.append(Entry("MicropolImage(data, angle_dic)", ctor(IMG, "data", None, lambda W, st: {"angle_dic": W.angles(st, CUSTOM)}), kind="copy", tags={"ctor"}))
    out.append(Entry("MicropolImage(data, dark, flat)", ctor(IMG, "data", None, lambda W, st: {"dark": other_image(W, st, "B"), "flat": other_image(W, st, "F")}), kind="copy", tags={"ctor"}))
    out.append(Entry("MicropolImage(image, dark, flat)", ctor(IMG, "plain", None, lambda W, st: {"dark": other_image(W, st, "B"), "flat": other_image(W, st, "F")}), kind="copy", tags={"ctor"}))
    out.append(Entry("MicropolImage(files, summed)", ctor(IMG, "files", None, K(averageimages=False)), kind="copy", tags={"ctor"}))

    # demodulator
    def dem(name, argf=None, kwf=None, **kw2):
        def make():
            st = W.st()
            d, ctx = W.demodulator(st)
            return Scene(st, W.attr(st, d, name), argf(W, st) if argf else [], kwf(W, st) if kwf else {}, ctx, d)
        return make
    out.append(Entry("Demodulator.rebin", dem("rebin", lambda W, st: [TWO]), kind="copy", tags={"demod"}))
    out.append(Entry("Demodulator.show", dem("show"), kind="read", tags={"demod"}))
    out.append(Entry("Demodulator.rot90", dem("rot90"), inplace=True, kind="inplace", tags={"demod"}))
    out.append(Entry("Demodulator.flip", dem("flip", lambda W, st: [ZERO]), inplace=True, kind="inplace", tags={"demod"}))
    for prop in ("eff", "tk", "phi"):
        out.append(Entry("Demodulator." + prop, propentry(W, lambda st: W.demodulator(st), prop), kind="read", tags={"demod"}))
    for prop in PROPS:
        out.append(Entry("MicropolImage." + prop, propentry(W, lambda st: (W.image(st), None), prop), kind="read", tags={"prop"}))

    # module functions
    F = lambda name, build, kind="copy", **k: out.append(Entry(name, fnentry(W, name, build), kind=kind, tags={"fn"}, **k))
    F(P + "split_polarizations", lambda W, st: [W.data(st)])
    F(P + "merge_polarizations", lambda W, st: [stack4(W, st)])
    for m in ("mean", "adjacent", "spline"):
        out.append(Entry(P + "demosaic(%s)" % m, fnentry(W, P + "demosaic", lambda W, st, m=m: [W.data(st), const(m)]), kind="copy", tags={"fn"}))
    F(PP + "rebin.standard_rebin", lambda W, st: [W.data(st), TWO])
    F(PP + "rebin.micropolarray_rebin", lambda W, st: [W.data(st), TWO])
    for n, a in ((PP + "rebin.standard_rebin", [ONE]), (PP + "rebin.micropolarray_rebin", [ONE]), (PP + "shift.shift", [ZERO, ZERO, ZERO]),
                 (PP + "shift.shift_micropol", [ZERO, ZERO, ZERO]), (P + "roi_from_polar", [])):
        out.append(Entry(n + "(identity)", fnentry(W, n, lambda W, st, a=a: [W.data(st)] + a), kind="copy", tags={"fn", "identity"}))
    out.append(Entry(PP + "image_cleaning.remove_outliers_simple", fnentry(W, PP + "image_cleaning.remove_outliers_simple", lambda W, st: [
        W.I.new_arr(st, mk("stack", tuple(atom("v%d" % k, "s") for k in range(7))), tup(const(7)), FLOAT, "input")]), kind="copy", tags={"fn"}))
    F(P + "trim_to_match_binning", lambda W, st: [mul(TWO, h), mul(TWO, w_), TWO])
    F(PP + "shift.shift", lambda W, st: [W.plain(st, "X", h, w_), atom("sy", "i"), atom("sx", "i"), atom("missing", "s")])
    F(PP + "shift.shift_micropol", lambda W, st: [W.data(st), atom("sy", "i"), atom("sx", "i"), atom("missing", "s")])
    F(P + "congrid", lambda W, st: [W.plain(st, "X", h, w_), lst(W, st, 90, 80)])
    F(P + "roi_from_polar", lambda W, st: ([W.data(st), lst(W, st, atom("cy", "n"), atom("cx", "n")), lst(W, st, atom("r0", "n"), atom("r1", "n"))], {}))
    F(P + "nrgf", lambda W, st: [W.data(st), atom("cy", "n"), atom("cx", "n"), const(3)])
    F(P + "linear_roi", lambda W, st: [W.plain(st, "X", h, w_), lst(W, st, const(3), const(4)), lst(W, st, const(9), const(7))])
    F(P + "linear_roi_from_polar", lambda W, st: [W.plain(st, "X", h, w_), lst(W, st, atom("cy", "n"), atom("cx", "n")), atom("theta", "s")])
    for m in ("sigmoid", "algo"):
        out.append(Entry(P + "find_occulter_position(%s)" % m, fnentry(W, P + "find_occulter_position", lambda W, st, m=m: [W.data(st), const(m)]), kind="copy", tags={"fn"}))
    F(P + "find_occulter_hough", lambda W, st: [W.data(st)])
    F(P + "normalize2pi", lambda W, st: [lst(W, st, atom("a0", "s"), atom("a1", "s"))])
    out.append(Entry(P + "normalize2pi(scalar)", fnentry(W, P + "normalize2pi", lambda W, st: [atom("a0", "s")]), kind="copy", tags={"fn"}))
    F(P + "normalize2piarray", lambda W, st: [W.plain(st, "X", h, w_)])
    F(P + "polarization_functions.normalize2pi", lambda W, st: [lst(W, st, atom("a0", "s"), atom("a1", "s"))])
    for n in ("mean_minus_std", "mean_plus_std", "median_minus_std", "median_plus_std"):
        F(P + n, lambda W, st: [W.data(st)])
    F(P + "sigma_DN", lambda W, st: [W.data(st)])
    F(P + "get_Bsun_units", lambda W, st: [atom("diff", "s"), atom("t1", "s"), atom("t2", "s")])
    F(P + "get_malus_normalization", lambda W, st: [stack4(W, st)])
    out.append(Entry(P + "get_malus_normalization(show)", fnentry(W, P + "get_malus_normalization", lambda W, st: ([stack4(W, st)], {"show_hist": TRUE})), kind="copy", tags={"fn"}))
    F(P + "utils.fix_data", lambda W, st: [W.plain(st, "X", h, w_), atom("lo", "s"), atom("hi", "s")])
    for n in ("AoLP", "DoLP", "pB"):
        F(P + "polarization_functions." + n, lambda W, st: [stokes(W, st)])
    F(P + "auto_threshold", lambda W, st: [W.plain(st, "X", h, w_)])
    F(P + "get_hot_pixels", lambda W, st: [W.image(st, "P", header=True)])

    def hdr(W, st):
        im = W.image(st, "P", header=True)
        hd = W.attr(st, im, "header")
        W.I.setitem(st, hd, const("DATE-OBS"), atom("dateobs", "str"), None)
        W.I.setitem(st, hd, const("TIME-OBS"), atom("timeobs", "str"), None)
        return [hd, W.data(st, "P"), lst(W, st, atom("sy", "s"), atom("sx", "s")), atom("ps", "s")]
    F(P + "align_keywords_and_data", hdr)
    F(PP + "demodulation_errors.get_error_on_Stokes", lambda W, st: (lambda d: ([W.data(st, "E"), d[0]], {}, d[1]))(W.demodulator(st)))
    for n in ("pB", "DoLP", "AoLP"):
        F(PP + "demodulation_errors.get_error_on_" + n, lambda W, st: [stokes(W, st, "S"), stokes(W, st, "E")])
    F(P + "MicropolImageError", lambda W, st: (lambda d: ([W.image(st), W.data(st, "E"), d[0]], {}, d[1]))(W.demodulator(st)))
    F(P + "set_default_angles", lambda W, st: [W.angles(st, CUSTOM)])
    F(P + "chen_wan_liang_calibration", lambda W, st: ([W.data(st), const("/cal")], {}, calib_ctx(W, (mul(TWO, h), mul(TWO, w_)))))
    F(PP + "chen_wan_liang_calibration.calculate_chen_wan_lian_calibration", lambda W, st: (
        [lst(W, st, 0, 45, 90, -45), lst(W, st, "/in/a.fits", "/in/b.fits", "/in/c.fits", "/in/d.fits"), lst(W, st, 0, 45, -45, 90), const("/out/cal")], {},
        calib_ctx(W, (mul(TWO, h), mul(TWO, w_)))), kind="read")
    F(P + "convert_rawfile_to_fits", lambda W, st: [const("/in/a.raw"), h, w_], kind="read")
    F(P + "merge_rawfiles_to_fits", lambda W, st: [lst(W, st, "/in/a.raw", "/in/b.raw"), const("/out/s.fits"), h, w_], kind="read")
    F(P + "average_rawfiles_to_fits", lambda W, st: [lst(W, st, "/in/a.raw", "/in/b.raw"), const("/out/s.fits"), h, w_], kind="read")
    F(P + "convert_set", lambda W, st: [lst(W, st, "/in/a.bin", "/in/b.bin"), const("/out/s.fits"), const(1952), const(1952)], kind="read")
    F(P + "calculate_demodulation_tensor", lambda W, st: calib_args(W, st), kind="read")
    out.append(Entry(P + "calculate_demodulation_tensor(occulter, dark, flat)", fnentry(W, P + "calculate_demodulation_tensor", lambda W, st: calib_args(
        W, st, occulter=True, dark=True, flat=True)), kind="read", tags={"fn"}))
    for cam in ("PolarCam", "Kasi"):
        def mkc(meth, a, cam=cam):
            def make():
                st = W.st()
                r = W.call(st, P + cam)
                st.become(r.st)
                return Scene(st, W.attr(st, r.v, meth), a(W, st), {}, None, r.v)
            return make
        out.append(Entry("%s.occulter_roi" % cam, mkc("occulter_roi", lambda W, st: [W.data(st)]), kind="copy", tags={"cam"}))
        out.append(Entry("%s.occulter_mask" % cam, mkc("occulter_mask", lambda W, st: []), kind="copy", tags={"cam"}))
    F(P + "Antarticor", lambda W, st: [], kind="read")
    return out


class PropCall:
    """property read as a call"""


def propentry(W, build, prop):
    def make():
        st = W.st()
        obj, ctx = build(st)
        sc = Scene(st, None, [], {}, ctx, obj)
        sc.prop = prop
        return sc
    return make


def execute(W, sc):
    """run a scene -> Result"""
    I = W.I
    if getattr(sc, "prop", None):
        prop = sc.prop
        from .interp import Result
        I.events, I.loops, I.stack, I.handlers, I.kernel, I.sinks = [], (), [], [], 0, [[]]
        old = I.ctx
        if sc.ctx is not None:
            I.ctx = sc.ctx
        try:
            try:
                v, ok = I.getattr(sc.st, sc.me, prop, None), True
            except NoReturn:
                v, ok = None, False
        finally:
            I.ctx = old
        r = Result(sc.st, v, ok, I.sinks[0], I.events)
        I.sinks, I.events = [], []
        return r
    return W.run(sc.st, sc.f, sc.args, sc.kw, sc.ctx)


def options(W):
    """further calls that exercise the documented options of the public operations"""
    out = []
    X = lambda W, st: W.plain(st, "X", h, w_)

    def F(label, dotted, build, kind="copy", **k):
        out.append(Entry(label, fnentry(W, dotted, build), kind=kind, tags={"fn", "option"}, **k))

    def M(label, name, argf=None, kwf=None, variant="plain", kind="read", cls=IMG, inplace=False):
        out.append(Entry("MicropolImage.%s %s" % (name, label), image_method(W, variant, name, argf, kwf, cls=cls), kind=kind, tags={name, "option"}, inplace=inplace))
    for v in ("plain", "demosaiced-mean", "demodulated"):
        M("figsize on %s" % v, "show_pol_params", None, lambda W, st: {"figsize": tup(const(9), const(9)), "cmap": const("viridis")}, v)
        M("cmap on %s" % v, "show_with_pol_params", None, K(cmap="viridis"), v)
        M("cmap on %s" % v, "show_single_pol_images", None, K(cmap="viridis"), v)
        for p in ("I", "Q", "U", "pB", "AoLP", "DoLP"):
            M("%s on %s" % (p, v), "show_pol_param", lambda W, st, p=p: [const(p)], None, v)
            M("%s on %s" % (p, v), "save_param_as_fits", lambda W, st, p=p: [const(p), const("out/x.fits")], None, v)
        M("split on %s" % v, "show_histogram", None, K(split_pols=True), v)
        M("joint on %s" % v, "show_histogram", None, K(split_pols=False), v)
        M("limits on %s" % v, "save_single_pol_images", FILE("out/a.fits"), lambda W, st: {"fixto": lst(W, st, 0, 10)}, v)
        M("on %s" % v, "save_all_pol_params_as_fits", FILE("out/a.fits"), None, v)
        M("mask on %s" % v, "mask_occulter", None, None, v, kind="inplace", inplace=True)
        M("mask with options on %s" % v, "mask_occulter", None, lambda W, st: {"y": atom("oy", "n"), "x": atom("ox", "n"), "r": atom("orad", "n"),
                                                                       "overoccult": const(5), "fill": atom("fill", "s")}, v, kind="inplace", inplace=True)
    for m in (None, "vmin", "vmax", "both"):
        kw = {None: {}, "vmin": {"vmin": 0}, "vmax": {"vmax": 5}, "both": {"vmin": 0, "vmax": 5}}[m]
        M("limits %s" % m, "show_demo_images", None, K(**kw), "demosaiced-mean")
        M("limits %s" % m, "show_pol_param", lambda W, st: [const("pB")], K(**kw))
        M("limits %s" % m, "show", None, K(**kw))
    M("with limits", "save_demosaiced_images_as_fits", FILE("out/a.fits"), lambda W, st: {"fixto": lst(W, st, 0, 10)}, "demosaiced-mean")
    M("with limits", "save_param_as_fits", lambda W, st: [const("DoLP"), const("out/a.fits")], lambda W, st: {"fixto": lst(W, st, 0, 10)})
    M("raw", "save_as_raw", FILE("out/a.raw"), None, "demosaiced-mean")
    for mode in ("mean", "adjacent", "spline"):
        M(mode, "demosaic", lambda W, st, mode=mode: [const(mode)], None, "demosaiced-mean", kind="inplace", inplace=True)
    M("without fill", "shift", A_SHIFT, None, kind="copy")
    M("odd target", "congrid", lambda W, st: [const(91), const(71)], None, kind="copy")

    def dem(label, name, argf=None, kwf=None, flags=True, inplace=False, files=None):
        def make():
            st = W.st()
            d, ctx = W.demodulator(st, flags=flags)
            return Scene(st, W.attr(st, d, name), argf(W, st) if argf else [], kwf(W, st) if kwf else {}, ctx, d)
        out.append(Entry("Demodulator.%s %s" % (name, label), make, kind="inplace" if inplace else "read", tags={"demod", "option"}, inplace=inplace))
    dem("options", "show", None, K(vmin=0, vmax=1, cmap="viridis", dpi=100))
    dem("k=2", "rot90", None, K(k=2), inplace=True)
    dem("axis 1", "flip", lambda W, st: [ONE], inplace=True)
    dem("without flags", "rebin", lambda W, st: [TWO], flags=False)
    for prop in ("eff", "tk", "phi", "Cij", "angle_dic"):
        out.append(Entry("Demodulator.%s (option)" % prop, propentry(W, lambda st: W.demodulator(st), prop), kind="read", tags={"demod", "option"}))
    # regions
    ctr = lambda W, st: lst(W, st, atom("cy", "n"), atom("cx", "n"))
    for label, kw in (("defaults", {}), ("center only", {"center": 1}), ("radii only", {"rho": 1}), ("all", {"center": 1, "rho": 1, "theta": 1, "fill": 1}),
                      ("boolean", {"center": 1, "return_boolean": 1}), ("pixels", {"include_superpixels": 0}), ("pixels, all", {"include_superpixels": 0, "center": 1, "rho": 1})):
        def bld(W, st, kw=kw):
            k = {}
            for n in kw:
                k[n] = {"center": lambda: ctr(W, st), "rho": lambda: lst(W, st, atom("r0", "n"), atom("r1", "n")), "theta": lambda: lst(W, st, atom("t0", "s"), atom("t1", "s")),
                        "fill": lambda: atom("fill", "s"), "return_boolean": lambda: TRUE, "include_superpixels": lambda: FALSE}[n]()
            return [W.data(st)], k
        F("roi_from_polar " + label, P + "roi_from_polar", bld)
    F("nrgf defaults", P + "nrgf", lambda W, st: [W.data(st)])
    F("nrgf all", P + "nrgf", lambda W, st: ([W.data(st), atom("cy", "n"), atom("cx", "n"), const(3)], {
        "step": TWO, "phi_to_mean": lst(W, st, 10, 80), "output_phi": lst(W, st, 20, 300)}))
    F("find_occulter_hough radii", P + "find_occulter_hough", lambda W, st: ([W.data(st)], {"minr": const(3), "maxr": const(90)}))
    F("find_occulter_position threshold", P + "find_occulter_position", lambda W, st: ([W.data(st)], {"method": const("algo"), "threshold": const(3)}))
    F("map_polar_coordinates", PP + "nrgf.map_polar_coordinates", lambda W, st: [h, w_, tup(atom("cy", "n"), atom("cx", "n"))])
    F("sigmoid", PP + "nrgf.sigmoid", lambda W, st: [atom("x", "s"), atom("a", "s"), atom("b", "s"), atom("c", "s"), atom("d", "s")])
    # line selections
    F("linear_roi_from_polar radii", P + "linear_roi_from_polar", lambda W, st: ([X(W, st), lst(W, st, 30, 40), const(30)], {"r": lst(W, st, 3, 20)}))
    F("DDA", PP + "linear_roi.DDA", lambda W, st: [lst(W, st, 0, 0), lst(W, st, 3, 9)])
    F("bresenham", PP + "linear_roi.bresenham", lambda W, st: [lst(W, st, 0, 0), lst(W, st, 3, 9)])
    # numbers
    for n in ("mean_minus_std", "mean_plus_std", "median_minus_std", "median_plus_std"):
        F(n + " n", P + n, lambda W, st: ([W.data(st)], {"stds_n": const(3)}))
    F("get_hot_pixels threshold", P + "get_hot_pixels", lambda W, st: ([W.image(st, "P", header=True)], {"threshold": const(2)}))
    F("reject_outliers", PP + "image_cleaning.reject_outliers", lambda W, st: [X(W, st)])
    F("congrid kinds", P + "congrid", lambda W, st: ([X(W, st), lst(W, st, 90, 80)], {"kind": const("linear")}))
    F("congrid tuple", P + "congrid", lambda W, st: [X(W, st), tup(const(90), const(80))])
    F("get_malus_normalization show", P + "get_malus_normalization", lambda W, st: ([stack4(W, st)], {"show_hist": TRUE}))
    F("Malus", PP + "demodulation.Malus", lambda W, st: [atom("ang", "s"), atom("t", "s"), atom("e", "s"), atom("ph", "s")])
    for pl in ("0", "90"):
        pass
    # constructors
    for label, kw in (("dark", {"dark": 1}), ("flat", {"flat": 1}), ("dark and flat", {"dark": 1, "flat": 1})):
        F("MicropolImage with " + label, IMG, lambda W, st, kw=kw: ([W.data(st)], {k: other_image(W, st, k[0].upper()) for k in kw}))
    CT = lambda W: calib_ctx(W, (mul(TWO, h), mul(TWO, w_)))
    for cls, nm in ((IMG, "MicropolImage"), (BASE, "Image")):
        for avg in (True, False):
            F("%s of files averaged=%s" % (nm, avg), cls, lambda W, st, avg=avg: ([lst(W, st, "/in/a.fits", "/in/b.fits", "/in/c.fits")], {"averageimages": const(avg)}, CT(W)))
        F("%s of a one-element list" % nm, cls, lambda W, st: ([lst(W, st, "/in/a.fits")], {}, CT(W)))
    # calibration
    H2, W2 = mul(TWO, h), mul(TWO, w_)
    CD = P + "calculate_demodulation_tensor"
    F("calibration dark", CD, lambda W, st: calib_args(W, st, dark=True), kind="read")
    F("calibration flat", CD, lambda W, st: calib_args(W, st, flat=True), kind="read")
    F("calibration own normalization", CD, lambda W, st: calib_args(W, st, norm=None), kind="read")
    F("calibration own normalization 135", CD, lambda W, st: calib_args(W, st, norm=None, pols=(0, 45, 90, 135)), kind="read")
    F("calibration normalization image", CD, lambda W, st: calib_args(W, st, norm=None, normalizing_S=W.plain(st, "NS", H2, W2)), kind="read")
    F("calibration normalization series", CD, lambda W, st: calib_args(W, st, norm=None, normalizing_S=W.I.new_arr(
        st, mk("stack", tuple(A2("NS%d" % k, H2, W2) for k in range(4))), tup(const(4), H2, W2), mk("ext", "builtins.float"), "input")), kind="read")
    F("calibration boundaries", CD, lambda W, st: calib_args(W, st, tk_boundary=lst(W, st, atom("tk0", "s"), atom("tk1", "s"), atom("tk2", "s")),
                                                             eff_boundary=lst(W, st, atom("ef0", "s"), atom("ef1", "s"), atom("ef2", "s"))), kind="read")
    F("calibration parallel", CD, lambda W, st: calib_args(W, st, procs=(2, 2), size=(const(4), const(4))), kind="read")
    F("calibration occulter", CD, lambda W, st: calib_args(W, st, occulter=True), kind="read")
    F("calibration binning", CD, lambda W, st: calib_args(W, st, binning=TWO, size=(mul(const(4), h), mul(const(4), w_))), kind="read")
    F("chen-wan calibration occulter, dark, flat", PP + "chen_wan_liang_calibration.calculate_chen_wan_lian_calibration", lambda W, st: (
        [lst(W, st, 0, 45, 90, -45), lst(W, st, "/in/a.fits", "/in/b.fits", "/in/c.fits", "/in/d.fits"), lst(W, st, 0, 45, -45, 90), const("/out/cal")],
        {"occulter": TRUE, "dark_filename": const("/in/dark.fits"), "flat_filename": const("/in/flat.fits")}, CT(W)), kind="read")
    # raw files
    F("convert_rawfile_to_fits removing", P + "convert_rawfile_to_fits", lambda W, st: ([const("/in/a.raw"), h, w_], {"remove_old": TRUE}), kind="read")
    F("merge_rawfiles average", P + "merge_rawfiles_to_fits", lambda W, st: ([lst(W, st, "/in/a.raw", "/in/b.raw"), const("/out/s.fits"), h, w_], {"mode": const("average")}), kind="read")
    F("merge_rawfiles sum", P + "merge_rawfiles_to_fits", lambda W, st: ([lst(W, st, "/in/a.raw", "/in/b.raw"), const("/out/s.fits"), h, w_], {"mode": const("sum")}), kind="read")
    for m in ("average", "sum"):
        F("merge_rawfiles %s of no files" % m, P + "merge_rawfiles_to_fits", lambda W, st, m=m: ([lst(W, st), const("/out/s.fits"), h, w_], {"mode": const(m)}), kind="read")
    F("convert_set of no files", P + "convert_set", lambda W, st: [lst(W, st), const("/out/s.fits"), const(1952), const(1952)], kind="read")
    F("nparr_from_binary", PP + "convert.nparr_from_binary", lambda W, st: [const("/in/a.bin")], kind="read")
    F("align_keywords binned", P + "align_keywords_and_data", lambda W, st: (hdr_args(W, st), {"binning": TWO}))
    return out


def hdr_args(W, st):
    im = W.image(st, "P", header=True)
    hd = W.attr(st, im, "header")
    W.I.setitem(st, hd, const("DATE-OBS"), atom("dateobs", "str"), None)
    W.I.setitem(st, hd, const("TIME-OBS"), atom("timeobs", "str"), None)
    return [hd, W.data(st, "P"), lst(W, st, atom("sy", "s"), atom("sx", "s")), atom("ps", "s")]
