"""C33 (Chen-Wang-Liang calibration and correction)."""
from __future__ import annotations
from ..check import *
from ..catalogue import P, PP, lst
from .arrays import must_raise
from .calib import rows, PREVS
from .files import final_files, fs
from .. import terms as tm

F = tm.Fraction
CALC = PP + "chen_wan_liang_calibration.calculate_chen_wan_lian_calibration"
CORR = PP + "chen_wan_liang_calibration.chen_wan_liang_calibration"
PREV = (0, 45, -45, 90)
HALF = const(F(1, 2))


def pinv(m):
    return mk("fn", "pinv", (mk("stack", tuple(mk("stack", tuple(r)) for r in m)),))


def at(m, i, j):
    return sel(m, (const(i), const(j)))


def plus(v):
    return ite(cmp("ge", v, ZERO), v, ZERO)


class Series:
    """a series of frames, dark and flat as symbols per pixel; the definition of the calibration"""
    def __init__(self, H, Wd, pols, prev=PREV, dark=False, flat=False, occulter=FALSE):
        self.occulter = occulter
        self.H, self.Wd, self.pols, self.prev, self.dark, self.flat = H, Wd, pols, prev, dark, flat
        self.names = ["/in/p%d.fits" % k for k in range(len(pols))]

    def sym(self, n, y, x):
        return atom("%s_%d_%d" % (n, y, x), "r")

    def data(self, I, st, src, i):
        if not is_const(src):
            raise Und("name of an opened file")
        n = str(cval(src)).split("/")[-1].split(".")[0]
        return I.new_arr(st, rows(lambda y, x: self.sym(n, y, x), self.H, self.Wd), tup(const(self.H), const(self.Wd)), FLOAT, "file")

    def gain(self):
        """the flat normalised by its maximum"""
        g = {}
        for y in range(self.H):
            for x in range(self.Wd):
                v = self.sym("flat", y, x)
                if self.dark:
                    v = sub(v, self.sym("dark", y, x))
                    v = ite(cmp("gt", v, ZERO), v, ONE)
                g[y, x] = v
        top = None
        for v in g.values():
            top = v if top is None else tm.vmax(top, v)
        return {k: div(v, top) for k, v in g.items()}

    def definition(self):
        """{file name: rows of terms}"""
        n = len(self.pols)
        g = self.gain() if self.flat else None
        C = [[{} for _ in range(4)] for _ in range(4)]
        D = {}
        ideal = []
        for a in self.prev:
            p = mul(const(F(a, 90)), tm.PI)
            ideal.append((HALF, mul(HALF, ew("cos", p)), mul(HALF, ew("sin", p))))
        pos = {a: k for k, a in enumerate(self.prev)}
        for Y in range(0, self.H, 2):
            for X in range(0, self.Wd, 2):
                px = [(Y + k // 2, X + k % 2) for k in range(4)]
                Cs, ds = [], []
                for f in self.names:
                    nm = f.split("/")[-1].split(".")[0]
                    P_ = []
                    for y, x in px:
                        v = self.sym(nm, y, x)
                        if self.dark:
                            v = plus(sub(v, self.sym("dark", y, x)))
                        if g is not None:
                            v = ite(tm.cmp("ne", g[y, x], ZERO), div(v, g[y, x]), v)
                        P_.append(v)
                    p0, p45, m45, p90 = [P_[pos[a]] for a in (0, 45, -45, 90)]
                    S = (add(p0, p90), sub(p0, p90), sub(p45, m45), ONE)
                    Si = pinv([(s,) for s in S])
                    Wd = [[mul(P_[i], at(Si, 0, j)) for j in range(4)] for i in range(4)]
                    Wi = pinv([r[:3] for r in Wd])
                    Cs.append([[add(*[mul(ideal[i][q], at(Wi, q, j)) for q in range(3)]) for j in range(4)] for i in range(4)])
                    ds.append([Wd[i][3] for i in range(4)])
                for i in range(4):
                    for j in range(4):
                        v = mul(const(F(1, n)), add(*[m[i][j] for m in Cs]))
                        for q in px:
                            C[i][j][q] = v
                    D[px[i]] = mul(const(F(1, n)), add(*[d[i] for d in ds]))
        tab = lambda m: rows(lambda y, x: m[y, x], self.H, self.Wd)
        out = {"C%d%d.fits" % (i, j): tab(C[i][j]) for i in range(4) for j in range(4)}
        out["d_ij.fits"] = tab(D)
        return out


def c33(c):
    W = c.w
    I = W.I
    c.rule = ("summary of the Chen-Wang-Liang calibration with one symbol per pixel and frame = its definition (uninterpreted pseudo-inverses), "
              "file by file and pixel by pixel; summary of the correction for symbolic files = C (P - d) per superpixel, then the mean of the four nearest superpixels")
    c.floor = 14
    SEEDS = tuple(range(1, 9))

    def run(s, **kw):
        st = W.st()
        k = {"occulter": s.occulter} if s.occulter is not None else {}
        if s.dark:
            k["dark_filename"] = const("/in/dark.fits")
        if s.flat:
            k["flat_filename"] = const("/in/flat.fits")
        k.update(kw)
        return W.call(st, CALC, [lst(W, st, *s.pols), lst(W, st, *s.names), lst(W, st, *s.prev), const("/out/cwl")], k,
                      {"exact": True, "fits_data": s.data, "exists": lambda p, w: True})

    def written(s, what):
        r = returned(run(s), what)
        got, gone = final_files(fs(r), what)
        got = {p.split("/")[-1]: (d, e, p) for p, (d, h, e) in got.items()}
        want = s.definition()
        for n in sorted(want):
            if n not in got:
                raise Violation("files", "%s does not write %s" % (what, n))
            d, e, p = got[n]
            if not p.startswith("/out/cwl/"):
                raise Violation("files", "%s writes %s" % (what, p), e.get("loc") or "")
            c.same(d, want[n], "%s: %s" % (what, n), e.get("loc") or "", "calibration matrices" if n[0] == "C" else "offsets",
                   shape=(const(s.H), const(s.Wd)), seeds=SEEDS)
        for n in got:
            if n not in want:
                raise Violation("files", "%s also writes %s" % (what, n), got[n][1].get("loc") or "")
    CASES = [("2x2", dict(H=2, Wd=2, pols=(0, 45, 90, -45))), ("4x2", dict(H=4, Wd=2, pols=(0, 45, 90, -45))), ("4x6", dict(H=4, Wd=6, pols=(90, -45, 0, 45))),
             ("six frames", dict(H=2, Wd=4, pols=(30, 0, 45, 90, -45, 120))), ("eight frames", dict(H=2, Wd=2, pols=(0, 45, 90, -45) * 2)),
             ("dark", dict(H=2, Wd=4, pols=(0, 45, 90, -45), dark=True)),
             ("flat", dict(H=2, Wd=2, pols=(0, 45, 90, -45), flat=True)), ("dark and flat", dict(H=2, Wd=2, pols=(-45, 90, 45, 0), dark=True, flat=True))]
    # small frames are outside of the default occulter
    CASES += [("default occulter", dict(H=4, Wd=2, pols=(0, 45, 90, -45), occulter=None)),
              ("default occulter, dark and flat", dict(H=4, Wd=4, pols=(0, 45, 90, -45), occulter=None, dark=True, flat=True))]
    for pr in PREVS:
        if tuple(pr) != PREV and set(pr) == set(PREV):
            CASES.append(("previsions %s" % (pr,), dict(H=2, Wd=4, pols=(0, 45, 90, -45), prev=tuple(pr))))
    if c.tier == "thorough":
        import itertools
        CASES += [("previsions %s" % (pr,), dict(H=2, Wd=2, pols=(0, 45, 90, -45), prev=pr)) for pr in itertools.permutations(PREV)]
        CASES += [("6x8", dict(H=6, Wd=8, pols=(0, 45, 90, -45, 15))), ("4x4 dark and flat", dict(H=4, Wd=4, pols=(0, 45, 90, -45), dark=True, flat=True))]
    for name, kw in CASES:
        c.ob("calibration: " + name, written, Series(**kw), "the calibration (%s)" % name)

    # ---- correction
    def corr(H, Wd, swap=None):
        st = W.st()
        ref = lambda n: "c%s" % n[1:3] if n[0] == "C" else "off"

        def fd(I_, s, src, i):
            if not is_const(src):
                raise Und("name of an opened file")
            p = str(cval(src))
            if not p.startswith("/cal/"):
                raise Violation("folder", "the correction reads %s, not a file of the given folder" % p)
            n = p.split("/")[-1]
            if n not in ["C%d%d.fits" % (a, b) for a in range(4) for b in range(4)] + ["d_ij.fits"]:
                raise Violation("folder", "the correction reads %s, which the calibration does not write" % p)
            if n[0] == "C":          # equal on the four pixels of a superpixel, as the calibration writes
                f = lambda y, x: atom("%s_%d_%d" % (ref(n), y // 2, x // 2), "s")
            else:
                f = lambda y, x: atom("off_%d_%d" % (y, x), "s")
            return I_.new_arr(s, rows(f, H, Wd), tup(const(H), const(Wd)), FLOAT, "file")
        X = I.new_arr(st, rows(lambda y, x: atom("p_%d_%d" % (y, x), "r"), H, Wd), tup(const(H), const(Wd)), FLOAT, "input")
        return W.call(st, CORR, [X, const("/cal")], {}, {"exact": True, "fits_data": fd, "exists": lambda p, w: True})

    def corrected(H, Wd):
        r = returned(corr(H, Wd), "the correction")
        q = {}
        for Y in range(0, H, 2):
            for X in range(0, Wd, 2):
                px = [(Y + k // 2, X + k % 2) for k in range(4)]
                pd = [sub(atom("p_%d_%d" % p, "r"), atom("off_%d_%d" % p, "s")) for p in px]
                for i in range(4):
                    q[px[i]] = add(*[mul(atom("c%d%d_%d_%d" % (i, j, Y // 2, X // 2), "s"), pd[j]) for j in range(4)])
        v = I.content(r.st, r.v)
        want = rows(lambda y, x: ZERO if y < 2 or x < 2 else mul(const(F(1, 4)), add(q[y, x], q[y - 2, x], q[y, x - 2], q[y - 2, x - 2])), H, Wd)
        c.same(I.shape(r.st, r.v), tup(const(H), const(Wd)), "shape of the corrected frame", "", "correction")
        c.same(v, want, "corrected frame", "", "correction", shape=(const(H), const(Wd)), seeds=SEEDS)
        return "%d pixels" % (H * Wd)
    for H, Wd in ((2, 2), (4, 4), (4, 6), (6, 4)) + (((8, 8), (6, 10)) if c.tier == "thorough" else ()):
        c.ob("correction %dx%d" % (H, Wd), corrected, H, Wd)

    def odd(H, Wd):
        must_raise(c, corr(H, Wd), "the correction of a %dx%d frame" % (H, Wd), key="odd frames")
    c.ob("odd frames are rejected", odd, 4, 5)
    c.ob("odd frames are rejected (rows)", odd, 5, 4)
