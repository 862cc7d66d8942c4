"""C08 (bounds of compiled loops) and C10 (no dependence on uninitialised memory)."""
from __future__ import annotations
from ..check import *
from ..catalogue import P, PP, catalogue, options, execute, Q_VARIANTS, lst, calib_ctx, other_image
from .. import terms as tm
from .. import bounds, ri
from .arrays import Res

H, WD = atom("H", "p"), atom("W", "p")
N_, SY, SX = atom("n", "p"), atom("sy", "i"), atom("sx", "i")


def sized(c):
    """(name, run) of operations on data of arbitrary (odd or even) size"""
    W = c.w
    D = lambda st: W.plain(st, "X", H, WD)

    def fn(name, args, kw=None, ctx=None):
        def go():
            st = W.st()
            return W.call(st, name, args(st), kw(st) if kw else {}, ctx)
        return go

    def img(cls, name, args, pre=None):
        def go():
            st = W.st()
            r = W.run(st, W.fn(st, cls), [D(st)], {})
            if not r.ok:
                return r
            st2 = r.st
            ev = list(r.events)
            r2 = W.meth(st2, r.v, name, args(st2))
            r2.events[:0] = ev
            return r2
        return go
    out = []
    for m in ("mean", "adjacent", "spline"):
        out.append(("demosaic(%s)" % m, fn(P + "demosaic", lambda st, m=m: [D(st), const(m)])))
        out.append(("MicropolImage.demosaic(%s)" % m, img(IMG, "demosaic", lambda st, m=m: [const(m)])))
    out.append(("merge_polarizations", fn(P + "merge_polarizations", lambda st: [W.I.new_arr(st, mk("stack", tuple(A2("F%d" % k, H, WD) for k in range(4))),
                                                                                  tup(const(4), H, WD), FLOAT, "input")])))
    out.append(("split_polarizations", fn(P + "split_polarizations", lambda st: [D(st)])))
    for b in (N_, ONE, TWO, const(3), const(4), const(5)):
        l = "n" if b is N_ else str(cval(b))
        out.append(("micropolarray_rebin by %s" % l, fn(PP + "rebin.micropolarray_rebin", lambda st, b=b: [D(st), b])))
        out.append(("standard_rebin by %s" % l, fn(PP + "rebin.standard_rebin", lambda st, b=b: [D(st), b])))
        out.append(("MicropolImage.rebin(%s)" % l, img(IMG, "rebin", lambda st, b=b: [b])))
        out.append(("Image.rebin(%s)" % l, img(BASE, "rebin", lambda st, b=b: [b])))
    for y, x in ((SY, SX), (const(2), const(-3)), (const(-1), const(1)), (ZERO, const(4)), (const(-7), ZERO), (SY, ZERO)):
        l = "%s, %s" % (show(y), show(x))
        out.append(("shift(%s)" % l, fn(PP + "shift.shift", lambda st, y=y, x=x: [D(st), y, x, ZERO])))
        out.append(("shift_micropol(%s)" % l, fn(PP + "shift.shift_micropol", lambda st, y=y, x=x: [D(st), y, x, ZERO])))
        out.append(("Image.shift(%s)" % l, img(BASE, "shift", lambda st, y=y, x=x: [y, x])))
        out.append(("MicropolImage.shift(%s)" % l, img(IMG, "shift", lambda st, y=y, x=x: [y, x])))
    out.append(("correct_ifov", img(IMG, "correct_ifov", lambda st: [])))
    out.append(("Image constructor", img(BASE, "rebin", lambda st: [ONE])))

    def cwl_ctx():
        def fits_data(I, st, src, i):
            nm = str(cval(src)).split("/")[-1] if is_const(src) else show(src)
            return I.new_arr(st, A2("f_" + nm, H, WD), tup(H, WD), FLOAT, "file")
        return {"fits_data": fits_data, "exists": lambda p, what: True}
    out.append(("chen_wan_liang_calibration", fn(PP + "chen_wan_liang_calibration.chen_wan_liang_calibration", lambda st: [D(st), const("/cwl")], None, cwl_ctx())))
    return out


def c08(c):
    W = c.w
    c.rule = ("access summaries of the compiled loops: for all sizes (odd and even), bin sizes and shifts that reach the kernel under its path "
              "condition, every scalar index lies within the extent of its dimension")
    c.floor = 60
    c.assume = ["integer parameters are enumerated over small values (sizes up to %d, all parities; shifts beyond the size)" % (9 if c.tier == "quick" else 14),
                "slices inside kernels are clipped by numba; a store with a mismatching length raises"]
    big = 9 if c.tier == "quick" else 14
    done = {}

    def check(r, what):
        und = []
        n = acc = 0
        for e in r.events:
            if e["kind"] != "access":
                continue
            acc += 1
            key = (e["idx"], e["shape"], e["pc"], e["loc"])
            if key not in done:
                c.count("accesses")
                try:
                    done[key] = bounds.search(e, big, budget=200000 if c.tier == "quick" else 3000000)
                except bounds.Unk as u:
                    done[key] = u
            v = done[key]
            if isinstance(v, bounds.Unk):
                und.append("%s: %s" % (e["loc"], v))
                continue
            w, tried = v
            c.count("index assignments", tried)
            if w:
                d, a = w[0]
                raise Violation("%s" % (e.get("fn") or what), "%s: %s of element %s (dimension %d) of an array of extent %s with %s" % (
                    what, e["rw"], a["index"], d, a["extent"], ", ".join("%s=%s" % kv for kv in sorted(a.items()) if kv[0] not in ("index", "extent"))), e["loc"])
        if und:
            raise Und("; ".join(sorted(set(und))[:3]))
        return "%d accesses" % acc

    def one(run, what):
        return check(run(), what)
    for name, run in sized(c):
        c.ob(name, one, run, name)

    def entry(e):
        return check(execute(W, e.make()), e.name)
    for e in catalogue(W, Q_VARIANTS[:1]) + list(options(W)):
        c.ob("catalogue: " + e.name, entry, e)
    if not c.counters.get("accesses"):
        raise AnalysisBroken("no compiled loop found")


# ---------------------------------------------------------------------------------------------------- C10
def fillers(t):
    return sorted({x for x in tm.atoms(t) if tm.is_uninit(x)}, key=lambda x: show(x))


def c10(c):
    W = c.w
    c.rule = ("non-interference of unassigned allocations: substituting two different fill values for the unassigned elements leaves every "
              "result, stored attribute and written file of every operation unchanged")
    c.floor = 250

    def check_term(t, shp, what, where):
        us = fillers(t)
        if not us:
            return
        c.count("values that mention an allocation")
        a = tm.subst(t, {u: const(tm.Fraction(7 * k + 57, 8)) for k, u in enumerate(us)})
        b = tm.subst(t, {u: const(tm.Fraction(-11 * k - 91, 4)) for k, u in enumerate(us)})
        if a is b:
            return
        v, info = ri.compare(a, b, shape=shp)
        if v == "ne":
            raise Violation(what.split(" ")[0].split("(")[0], "%s depends on memory that was allocated but never assigned (%s)" % (what, ", ".join(show(u) for u in us)), where)
        if v == "unk":
            raise Und("%s: cannot decide (%s)" % (what, info))

    def one(e, run=None):
        if run is None:
            sc = e.make()
            r = execute(W, sc)
            roots = [sc.me] if sc.me is not None and e.inplace else []
            name = e.name
        else:
            r, roots, name = run(), [], e
        if not r.ok:
            raise Und("does not return") if run is None else Und("rejected")
        st = r.st
        n = 0
        for oid, path in W.reach(st, *([r.v] if r.v is not None else []) + roots).items():
            o = st.heap[oid]
            if o.kind == "arr":
                n += 1
                s = o.f.get("shape")
                sh = tuple(s.args[0]) if isinstance(s, T) and s.op == "tuple" else None
                check_term(o.f["val"], sh, name + path[4:], "")
        if r.v is not None and r.v.op != "ref":
            n += 1
            check_term(W.content(st, r.v), None, name, "")
        for ev in r.events:
            if ev["kind"] in ("fs", "filewrite") and isinstance(ev.get("data"), T):
                n += 1
                check_term(ev["data"], None, name + " (file %s)" % show(ev["path"], 3), ev.get("loc") or "")
        c.count("values checked", n)
        return "%d values" % n
    for e in catalogue(W, Q_VARIANTS if c.tier == "quick" else None or Q_VARIANTS) + list(options(W)):
        c.ob(e.name, one, e)
    for name, run in sized(c):
        c.ob("any size: " + name, one, name, run)
