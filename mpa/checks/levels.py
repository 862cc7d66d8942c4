"""C39 (normalisation level of the Malus fits, automatic threshold)."""
from __future__ import annotations
from ..check import *
from ..catalogue import lst
from .calib import rows, Cal
from .. import terms as tm
from .. import ri
from ..terms import is_int_const, is_num, num

F = tm.Fraction
HALF = const(F(1, 2))


def c39(c):
    W = c.w
    I = W.I
    c.rule = ("the Gaussian of the normalisation level is fitted to the bins about the highest one of the histogram of half the sum of the frames, and the "
              "level is its centre plus four widths; the automatic threshold splits the filtered data with the least variance within the two classes")
    c.floor = 15
    LEVEL = "micropolarray.utils.get_malus_normalization"
    THR = "micropolarray.processing.image_cleaning.auto_threshold"

    def watch(total, shape, peak, height, tie=None):
        """histogram of which only the bins around `peak` (None: the last one) are filled, and the fit to it"""
        lo, d = atom("lo", "s"), atom("dbin", "r")
        hist = {}
        fits = []

        def histogram(I_, st_, data, bins, kw):
            if not is_int_const(bins) or any(v is not NONE for v in kw.values()):
                raise Und("options of the histogram")
            n = num(bins)
            total(data)
            p = n - 1 if peak is None else peak if peak >= 0 else n + peak
            cnt = [0] * n
            for k in range(n):
                cnt[k] = max(0, height - 7 * abs(k - p) - (k > p))
            if tie:
                cnt[min(n - 1, p + tie)] = height
            hist["n"], hist["p"], hist["c"] = n, p, cnt
            return [const(x) for x in cnt], [add(lo, mul(const(k), d)) for k in range(n + 1)]

        def fit(I_, st_, a):
            sx, sy = I.shape(st_, a["xdata"]), I.shape(st_, a["ydata"])
            if sx.op != "tuple" or not all(is_int_const(x) for x in sx.args[0] + sy.args[0]):
                raise Und("number of fitted bins")
            n = num(sx.args[0][0])
            if sx is not sy or n < 4:
                raise Violation("fitted bins", "%s abscissae and %s counts are fitted when the highest bin is bin %d of %d" % (show(sx), show(sy), hist["p"], hist["n"]))
            xs = [sel(I.content(st_, a["xdata"]), (const(k),)) for k in range(n)]
            ys = [sel(I.content(st_, a["ydata"]), (const(k),)) for k in range(n)]
            where = {add(lo, mul(const(F(2 * k + 1, 2)), d)): k for k in range(hist["n"])}
            ks = []
            for x in xs:
                k = [kk for t, kk in where.items() if t is x] or [kk for t, kk in where.items() if tm.num_equal(t, x)]
                if not k:
                    raise Violation("fitted bins", "the fit is given the abscissa %s, which is the centre of no bin" % show(x, 5)[:200])
                ks.append(k[0])
            if hist["p"] not in ks:
                raise Violation("fitted bins", "the highest bin (%d of %d) is not among the fitted bins %d to %d" % (hist["p"], hist["n"], ks[0], ks[-1]))
            if len(set(ks)) != len(ks):
                raise Violation("fitted bins", "a bin is fitted twice")
            # counts proportional to those of the same bins
            for k, y in zip(ks, ys):
                c.same(mul(y, const(hist["c"][hist["p"]])), mul(ys[ks.index(hist["p"])], const(hist["c"][k])), "fitted count of bin %d" % k, "", "fitted bins")
            fits.append(a.get("f"))
            return (atom("norm", "r"), atom("centre", "r"), atom("width", "r")), tuple(tuple(ZERO for _ in range(3)) for _ in range(3))
        return hist, fits, histogram, fit

    def curve(st, f):
        """the fitted curve is symmetric about its second parameter and as high as its first"""
        if not isinstance(f, T):
            raise Und("the fitted curve is not visible")
        p = [atom("n_", "r"), atom("x_", "s"), atom("s_", "r")]
        e = atom("e_", "r")

        def at(x):
            q = returned(W.run(st.copy(), f, [x] + p), "the fitted curve")
            return I.content(q.st, q.v)
        c.same(at(add(p[1], e)), at(sub(p[1], e)), "symmetry of the fitted curve about its second parameter", "", "fitted curve")
        c.same(at(p[1]), p[0], "height of the fitted curve", "", "fitted curve")
        if ri.compare(at(add(p[1], e)), at(p[1]))[0] == "eq":
            raise Violation("fitted curve", "the fitted curve is constant")

    def level(peak, height, kind, tie=None):
        st = W.st()
        frames = [W.plain(st, "X%d" % k, h, w_) for k in range(4)]
        X = [I.content(st, f) for f in frames]
        hist, fits, histogram, fit = watch(lambda data: c.same(data, mul(HALF, add(*X)), "values of the histogram", "", "histogrammed values", shape=(h, w_)), None, peak, height, tie)
        arg = lst(W, st, *frames) if kind == "list" else I.new_arr(st, mk("stack", tuple(X)), tup(const(4), h, w_), FLOAT, "input")
        r = W.call(st, LEVEL, [arg], {}, {"exact": True, "fit": fit, "histogram": histogram})
        if r.raised and not r.ok:
            raise Violation("fitted bins", "get_malus_normalization() raises %s when the highest bin is bin %s of %s" % (r.raised[0][1], hist.get("p"), hist.get("n")))
        returned(r, "get_malus_normalization()")
        if not fits:
            raise Und("no fit")
        c.same(I.content(r.st, r.v), add(atom("centre", "r"), mul(const(4), atom("width", "r"))), "normalisation level", "", "normalisation level")
        curve(r.st, fits[0])
        return "%d bins" % hist["n"]
    for peak in (400, 11, 10, 9, 5, 1, 0, None, -2, -6, -10, -11):
        for height in (100, 41):
            c.ob("highest bin %s, height %d" % (peak if peak is not None else "last", height), level, peak, height, "list")
    c.ob("highest bin 300, frames as one array", level, 300, 60, "array")
    for tie in (1, 7, 300):
        c.ob("two equal highest bins, distance %d" % tie, level, 200, 60, "list", tie)

    def tensor(peak, height, pols, kw):
        """the same level, estimated by calculate_demodulation_tensor() when none is given"""
        four = [k for k, p in enumerate(pols) if p in ((0, 45, 90, -45) if -45 in pols else (0, 45, 90, 135))]
        n = kw.get("binning", 1)
        size = kw.get("size", (4, 4))

        def frame(k):
            blocks = lambda y, x: [(2 * (y // 2 * n + a) + y % 2, 2 * (x // 2 * n + b) + x % 2) for a in range(n) for b in range(n)]
            return rows(lambda y, x: add(*[atom("d%d_%d_%d" % (k, yy, xx), "r") for yy, xx in blocks(y, x)]), *cal_size)
        cal_size = (2 * (size[0] // (2 * n)), 2 * (size[1] // (2 * n)))

        def total(data):
            X = [frame(k) for k in four]
            for y in range(cal_size[0]):
                for x in range(cal_size[1]):
                    at = lambda t: sel(t, (const(y), const(x)))
                    c.same(at(data), mul(HALF, add(*[at(q) for q in X])), "histogrammed value of pixel (%d,%d)" % (y, x), "", "histogrammed values")
        hist, fits, histogram, fit = watch(total, None, peak, height)
        k = Cal(W, pols=pols, norm=None, ctx={"histogram": histogram}, level=fit, **kw)
        what = "calculate_demodulation_tensor() without a normalisation level"
        if k.r.raised and not k.r.ok:
            raise Violation("fitted bins", "%s raises %s when the highest bin is bin %s of %s" % (what, k.r.raised[0][1], hist.get("p"), hist.get("n")))
        returned(k.r, what)
        if not fits:
            raise Und("no fit")
        curve(k.r.st, fits[0])
        lev = add(atom("centre", "r"), mul(const(4), atom("width", "r")))
        order = sorted(range(len(pols)), key=lambda i: (pols[i], k.names[i]))
        for (y, x), fs_ in k.fits.items():
            for f in fs_:
                for i, m in enumerate(order):
                    c.same(mul(lev, sel(f["ydata"], (const(i),))), sel(frame(m), (const(y), const(x))), "sample of frame %d at pixel (%d,%d) times the level" % (m, y, x),
                           "", "normalisation level")
        return "%d bins" % hist["n"]
    P4, P5, PM = (0, 45, 90, -45), (90, 20, 0, -45, 45), (135, 0, 90, 45)
    for peak in (500, 10, 9, 3, 1, 0, None, -2, -5, -9, -10):
        c.ob("tensor: highest bin %s" % (peak if peak is not None else "last"), tensor, peak, 80, P4, {})
    for pols in (P5, PM, PM + (30, 60)):
        c.ob("tensor: orientations %s" % (pols,), tensor, 321, 90, pols, {})
    c.ob("tensor: binning", tensor, 321, 90, P5, {"binning": 2, "size": (8, 12)})
    c.ob("tensor: grid of processes", tensor, 321, 90, PM, {"size": (4, 8), "grid": (2, 2)})

    def threshold(data):
        H, Wd = len(data), len(data[0])
        flat = [x for row in data for x in row]
        st = W.st()
        shown = W.plain(st, "X", const(H), const(Wd))
        filt = rows(lambda y, x: const(data[y][x]), H, Wd)
        used = []

        def ndimage(I_, st_, name, content, shape):
            if "median" not in name:
                return None
            c.same(content, I.content(st_, shown), "filtered data", "", "filtered data", shape=(const(H), const(Wd)))
            used.append(1)
            return filt
        r = returned(W.call(st, THR, [shown], {}, {"exact": True, "ndimage": ndimage}), "auto_threshold()")
        if not used:
            raise Und("no filter")
        t = I.content(r.st, r.v)
        if not is_num(t):
            raise Und("threshold %s" % show(t, 4)[:200])

        def within(th):
            v = F(0)
            for cl in ([x for x in flat if x >= th], [x for x in flat if x < th]):
                if cl:
                    m = F(sum(cl), len(cl))
                    v += sum((x - m) ** 2 for x in cl) / len(flat)
            return v
        n = min(len(flat), 1000)
        lo, hi = min(flat) + 1, max(flat)
        cand = [lo + F(hi - lo, n - 1) * k for k in range(n)]
        best = min(within(x) for x in cand)
        if within(num(t)) > best:
            raise Violation("threshold", "the threshold %s of %s leaves the variance %s within the classes, %s is possible" % (num(t), data, within(num(t)), best))
        if not lo <= num(t) <= hi:
            raise Violation("threshold", "the threshold %s lies outside of the data" % num(t))
    for data in (((1, 2, 3), (40, 42, 45)), ((10, 90, 11, 12), (13, 9, 95, 14), (99, 12, 10, 11)), ((0, 0, 0, 50), (0, 0, 50, 50)),
                 ((5, 60, 61), (62, 63, 64)), ((1, 2, 3, 4, 5, 6), (101, 102, 103, 104, 105, 900)), ((7, 30, 31, 33), (80, 81, 86, 84))):
        c.ob("threshold of %s" % (data,), threshold, data)
