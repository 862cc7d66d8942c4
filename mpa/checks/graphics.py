"""C34 (figures show each quantity under its own title)."""
from __future__ import annotations
from ..check import *
from ..catalogue import P, PP, CUSTOM, SHUFFLED
from .. import terms as tm
from .images import stokes_spec, derived, DEFAULT

BASE_IMG = BASE
PARAMS = {"Stokes I": "I", "Stokes Q": "Q", "Stokes U": "U", "Polarized brightness": "pB", "Angle of Linear Polarization": "AoLP",
          "Degree of Linear Polarization": "DoLP"}
UNITS = {"I": "DN", "Q": "DN", "U": "DN", "pB": "DN", "AoLP": "rad", "data": "DN", "pol": "DN", "demo": "DN"}
ALLUNITS = {"DN", "[DN]", "rad", "[rad]", "deg", "[deg]", "%", "[%]"}
MINMAX = {"vmin": "reduce_min", "vmax": "reduce_max"}


def text(t):
    """the constant beginning of a string term"""
    if t is None:
        return None
    if is_const(t) and isinstance(cval(t), str):
        return cval(t)
    if t.op == "fn" and t.args[0] == "strcat":
        out = ""
        for p in t.args[1]:
            s = text(p)
            out += s if s is not None else "\0"
        return out
    if t.op == "fn" and t.args[0] == "str" and t.args[1] and is_const(t.args[1][0]):
        v = cval(t.args[1][0])
        return str(v) if len(t.args[1]) < 2 or cval(t.args[1][1]) == "" else None
    return None


def pieces(t):
    """the values printed in a string term"""
    if t.op == "fn" and t.args[0] in ("strcat", "str"):
        for p in t.args[1] if t.args[0] == "strcat" else t.args[1][:1]:
            yield from pieces(p)
    else:
        yield t


def quantity(title):
    """(kind, key) named by a title"""
    s = text(title)
    if s is None:
        return None
    for k, v in PARAMS.items():
        if s.startswith(k):
            return ("param", v)
    if s.startswith("Image data"):
        return ("data", None)
    for a in (-45, 45, 90, 0):
        if s.startswith("%d deg orientation" % a):
            return ("pol", a)
        if s == "Demosaiced image %d" % a:
            return ("demo", a)
    return None


class Panel:
    def __init__(self):
        self.shown, self.titles, self.bars, self.stairs = [], [], [], []


def panels(r):
    out = {}
    for e in r.evs("opaque"):
        o = e["obj"]
        if o.op == "fn" and o.args[0] == "mplax":
            p = out.setdefault(o, Panel())
            if e["name"] in ("imshow", "matshow", "pcolormesh"):
                p.shown.append(e)
            elif e["name"] == "set_title":
                p.titles.append(e)
            elif e["name"] == "stairs":
                p.stairs.append(e)
        elif e["name"] == "colorbar":
            a = e["kw"].get("ax") or (e["args"][2] if len(e["args"]) > 2 else None)
            if a is not None and a.op == "fn" and a.args[0] == "mplax":
                out.setdefault(a, Panel()).bars.append(e)
        elif e["name"] == "sca" or e["name"] == "set":
            raise Und("panels drawn through %s()" % e["name"])
    return out


def c34(c):
    W = c.w
    I = W.I
    c.rule = ("for every drawing call on every panel of every figure: the array passed to imshow is the array of the quantity named by the title "
              "set on the same panel (terms over symbolic images), the colour bar belongs to the same drawing and has its unit, the histograms are of "
              "the data and of the pixel families, the printed averages are of the displayed array")
    c.floor = 55

    def image(v, cls=IMG):
        """(state, image, expected arrays by quantity, extents)"""
        st = W.st()
        if v == "demodulated":
            img0 = W.image(st, "P")
            d, ctx = W.demodulator(st)
            r = returned(W.meth(st, img0, "demodulate", [d], {}, ctx), "demodulate")
            st.become(r.st)
            img = r.v
            S = [sel(W.content(st, W.attr(st, img, "Stokes_vec")), (const(k),)) for k in range(3)]
            return st, img, S, DEFAULT, (h, w_)
        ang = {"plain": None, "custom": CUSTOM, "shuffled": SHUFFLED, "demosaiced": None, "demosaiced-custom": SHUFFLED}[v]
        img = W.image(st, "P", angles=ang, demosaic="mean" if v.startswith("demo") else None, cls=cls)
        perm = list(ang or DEFAULT)
        if v.startswith("demosaiced"):
            dc = W.content(st, W.attr(st, img, "demosaiced_images"))
            S = stokes_spec([sel(dc, (const(k),)) for k in range(4)], perm)
            return st, img, S, perm, (mul(TWO, h), mul(TWO, w_))
        return st, img, stokes_spec(W.fam("P"), perm) if cls == IMG else None, perm, (h, w_)

    def expected(st, img, S, perm, q):
        kind, key = q
        if kind == "data":
            return W.content(st, W.attr(st, img, "data"))
        if kind == "pol":
            return W.fam("P")[dict(perm)[key]]
        if kind == "demo":
            return sel(W.content(st, W.attr(st, img, "demosaiced_images")), (const(dict(perm)[key]),))
        return dict(zip("IQU", S)).get(key) or dict(zip(("pB", "DoLP", "AoLP"), derived(*S)))[key]

    def figure(v, meth, args, kw, quantities, cls=IMG, limits=None):
        st, img, S, perm, ext = image(v, cls)
        r = returned(W.meth(st, img, meth, args, dict(kw)), "%s()" % meth)
        ps = {k: p for k, p in panels(r).items() if p.titles}
        if not ps:
            raise Und("no titled panel seen")
        seen = []
        for ax, p in ps.items():
            where = p.titles[-1].get("loc") or ""
            q = quantity((p.titles[-1]["args"] or [p.titles[-1]["kw"].get("label")])[0])
            if q is None:
                raise Und("title %s" % show((p.titles[-1]["args"] or [NONE])[0], 4)[:100])
            name = "%s() of a %s image: panel %r" % (meth, v, " ".join(str(x) for x in q if x is not None))
            if len(p.shown) != 1:
                if not p.shown:
                    raise Und("%s: nothing displayed with imshow" % name)
                raise Violation("panel", "%s displays %d arrays" % (name, len(p.shown)), where)
            e = p.shown[0]
            got = e["args"][0] if e["args"] else e["kw"].get("X")
            want = expected(st, img, S, perm, q)
            c.same(got, want, name, e.get("loc") or where, "panel", shape=(mul(TWO, h), mul(TWO, w_)) if q[0] in ("data", "demo") else (h, w_) if q[0] == "pol" else ext)
            # averages printed in the title and limits of the colours are of the displayed array
            for s in pieces(p.titles[-1]["args"][0]) if p.titles[-1]["args"] else []:
                if s.op == "fn" and s.args[0] in ("mean", "std", "median"):
                    c.same(s.args[1][0], got, "%s: array whose %s is printed" % (name, s.args[0]), where, "printed averages", shape=ext)
            for lim in ("vmin", "vmax"):
                if limits is not None and lim in limits:
                    c.same(e["kw"].get(lim, NONE), limits[lim], "%s: %s" % (name, lim), e.get("loc") or where, "limits")
            for b in p.bars:
                if b["args"] and b["args"][0].op == "fn" and b["args"][0].args[0] == "call":
                    src = b["args"][0].args[1][0]
                    if src.op == "fn" and src.args[0] == "meth" and src.args[1][0].op == "fn" and src.args[1][0].args[0] == "mplax" and src.args[1][0] is not ax:
                        raise Violation("colour bar", "%s has the colour bar of another panel" % name, b.get("loc") or "")
                lb = text(b["kw"].get("label"))
                u = UNITS.get(q[1] if q[0] == "param" else q[0])
                if lb is not None and u is not None and lb in ALLUNITS and lb.strip("[]") != u:
                    raise Violation("unit", "%s has a colour bar in %s, expected %s" % (name, lb, u), b.get("loc") or "")
            seen.append(q)
        if sorted(map(str, seen)) != sorted(map(str, quantities)):
            raise Violation("panels of %s" % meth, "%s() shows %s instead of %s" % (meth, seen, quantities))
        return "%d panels" % len(seen)
    six = [("param", k) for k in ("I", "Q", "U", "pB", "AoLP", "DoLP")]
    fams = [("pol", a) for a in (0, 45, 90, -45)]
    VS = ["plain", "custom", "shuffled", "demosaiced", "demosaiced-custom", "demodulated"]
    for v in VS:
        c.ob("show_pol_params, %s" % v, figure, v, "show_pol_params", [], {}, six)
        c.ob("show_with_pol_params, %s" % v, figure, v, "show_with_pol_params", [], {}, six + [("data", None)])
        c.ob("show, %s" % v, figure, v, "show", [], {}, [("data", None)])
        c.ob("show_single_pol_images, %s" % v, figure, v, "show_single_pol_images", [], {}, fams)
        for k in [q[1] for q in six]:
            c.ob("show_pol_param(%s), %s" % (k, v), figure, v, "show_pol_param", [const(k)], {}, [("param", k)])
        if v.startswith("demosaiced"):
            c.ob("show_demo_images, %s" % v, figure, v, "show_demo_images", [], {}, [("demo", a) for a in (0, 45, 90, -45)])
    lo, hi = atom("lo", "s"), atom("hi", "s")
    lim = {"vmin": lo, "vmax": hi}
    c.ob("show, limits", figure, "plain", "show", [], lim, [("data", None)], IMG, lim)
    c.ob("show, image without polarization", figure, "plain", "show", [], {}, [("data", None)], BASE)
    c.ob("show_pol_param, limits", figure, "plain", "show_pol_param", [const("pB")], lim, [("param", "pB")], IMG, lim)
    c.ob("show_demo_images, limits", figure, "demosaiced", "show_demo_images", [], lim, [("demo", a) for a in (0, 45, 90, -45)], IMG, lim)
    c.ob("show_single_pol_images, limits", figure, "plain", "show_single_pol_images", [], lim, fams, IMG, lim)
    c.ob("show, lower limit only", figure, "plain", "show", [], {"vmin": lo}, [("data", None)], IMG, {"vmin": lo})
    c.ob("show, upper limit only", figure, "plain", "show", [], {"vmax": hi}, [("data", None)], IMG, {"vmax": hi})
    c.ob("show, zero limits", figure, "plain", "show", [], {"vmin": ZERO, "vmax": ZERO}, [("data", None)], IMG, {"vmin": ZERO, "vmax": ZERO})
    c.ob("show_pol_param, zero limit", figure, "plain", "show_pol_param", [const("Q")], {"vmin": ZERO, "vmax": ONE}, [("param", "Q")], IMG, {"vmin": ZERO, "vmax": ONE})
    c.ob("show_demo_images, zero limit", figure, "demosaiced", "show_demo_images", [], {"vmin": ZERO}, [("demo", a) for a in (0, 45, 90, -45)], IMG, {"vmin": ZERO})

    def histogram(v, split, cls=IMG):
        st, img, S, perm, ext = image(v, cls)
        kw = {} if split is None else {"split_pols": TRUE if split else FALSE}
        r = returned(W.meth(st, img, "show_histogram", [], kw), "show_histogram()")
        st_ = [e for p in panels(r).values() for e in p.stairs]
        if not st_:
            raise Und("no histogram drawn with stairs")
        data = W.content(st, W.attr(st, img, "data"))
        fam = W.fam("P")
        n = []
        for e in st_:
            lb = text(e["kw"].get("label"))
            a = e["args"]
            if len(a) < 2 or a[0].op != "fn" or a[0].args[0] != "histcounts" or a[1].op != "fn" or a[1].args[0] != "histedges":
                raise Und("histogram %s" % (show(a[0], 4)[:80] if a else ""))
            if lb is None:
                raise Und("label of a histogram")
            want = data if lb == "Total histogram" else fam[int(lb[6:])] if lb[:6] == "pixel " and lb[6:] in "0123" else None
            if want is None:
                raise Und("histogram labelled %r" % lb)
            for x in a[:2]:
                c.same(x.args[1][0], want, "show_histogram() of a %s image: %r" % (v, lb), e.get("loc") or "", "histogram", shape=None)
            n.append(lb)
        want = ["Total histogram"] + (["pixel %d" % k for k in range(4)] if split is not False and cls == IMG else [])
        if sorted(n) != sorted(want):
            raise Violation("histogram", "show_histogram(split_pols=%s) draws %s instead of %s" % (split, n, want))
        return "%d histograms" % len(n)
    for v in ("plain", "custom", "shuffled", "demosaiced", "demosaiced-custom"):
        for sp in (None, True, False):
            c.ob("show_histogram, %s, split_pols=%s" % (v, sp), histogram, v, sp)
    c.ob("show_histogram, image without polarization", histogram, "plain", None, BASE)
