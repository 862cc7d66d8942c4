"""C16 (calibration output = demodulation input), C17 (unusable inputs rejected), C18 (independence of the process grid),
C19 (truthful fit flags), C20 (angle units)."""
from __future__ import annotations
import fnmatch
import posixpath
import re
from ..check import *
from ..catalogue import P, PP, lst
from .arrays import must_raise
from .files import final_files, fs
from .. import terms as tm
from .. import ri

F = tm.Fraction
CALIBRATE = PP + "demodulation.calculate_demodulation_tensor"
DATA = re.compile(r"^d(\d+)_(\d+)_(\d+)$")
POLS = (0, 45, 90, -45)
PREV = (0, 45, -45, 90)


def rows(f, H, W):
    return mk("stack", tuple(mk("stack", tuple(f(y, x) for x in range(W))) for y in range(H)))


# fitted parameters (hundredths; phase: offset) of superpixels whose matrix has far too large elements of one sign only
ONESIDED = {"high": ((1, 2, 2, 90), (2, 90, 3, 2), (10, 10, -25, 25)), "low": ((50, 1, 1, 50), (90, 2, 3, 5), (-5, 10, -10, -25))}


class Cal:
    """one calibration: what it was given, what the fits were given, and what it wrote"""

    def __init__(self, W, grid=(1, 1), size=(4, 4), pols=POLS, prev=PREV, outcome=lambda y, x: "ok", norm="num", binning=1,
                 occulter=None, dark=False, flat=False, names=None, symbolic=False, extra=None, phase=None, ctx=None, level=None, scale=1):
        self.W, self.size, self.prev, self.pols, self.binning = W, size, prev, pols, binning
        H, Wd = size
        self.H, self.Wd = 2 * (H // (2 * binning)), 2 * (Wd // (2 * binning))
        self.outcome, self.symbolic, self.phase, self.level, self.scale = outcome, symbolic, phase, level, const(scale)
        self.fits, self.funcs = {}, []
        st = self.st = W.st()
        names = names if names is not None else ["/in/p%d.fits" % k for k in range(len(pols))]
        self.names = names
        kw = {"polarizer_orientations": lst(W, st, *pols), "filenames_list": lst(W, st, *names),
              "micropol_phases_previsions": lst(W, st, *prev), "gain": atom("gain", "r"), "output_dir": const("/out/cal"),
              "procs_grid": lst(W, st, *grid)}
        if norm == "num":
            kw["normalizing_S"] = atom("normS", "r")
        elif norm == "image":
            kw["normalizing_S"] = W.I.new_arr(st, rows(lambda y, x: atom("S_%d_%d" % (y, x), "r"), H, Wd), tup(const(H), const(Wd)), FLOAT, "input")
        elif norm == "series":
            kw["normalizing_S"] = W.I.new_arr(st, mk("stack", tuple(rows(lambda y, x: atom("S%d_%d_%d" % (k, y, x), "r"), H, Wd) for k in range(len(pols)))),
                                              tup(const(len(pols)), const(H), const(Wd)), FLOAT, "input")
        self.norm = norm
        if binning != 1:
            kw["binning"] = const(binning)
        if occulter is not None:
            kw["occulter"] = lst(W, st, *occulter)
        if dark:
            kw["dark_filename"] = const("/in/dark.fits")
        if flat:
            kw["flat_filename"] = const("/in/flat.fits")
        kw.update(extra(W, st) if callable(extra) else extra or {})
        ctx = dict({"fits_data": self.data, "exists": lambda p, what: True, "fit": self.fit, "exact": True}, **(ctx or {}))
        self.r = W.call(st, CALIBRATE, [], kw, ctx)

    def data(self, I, st, src, i):
        nm = str(cval(src)).split("/")[-1] if is_const(src) else show(src)
        H, Wd = self.size
        full = [n.split("/")[-1] for n in self.names]
        if nm in full:
            k = full.index(nm)

            def el(y, x):
                if self.outcome(*self.binned(y, x)) == "dead":
                    return ZERO
                return mul(self.scale, atom("d%d_%d_%d" % (k, y, x), "r"))
        else:
            el = lambda y, x: atom("%s_%d_%d" % (nm.split(".")[0], y, x), "r")
        return I.new_arr(st, rows(el, H, Wd), tup(const(H), const(Wd)), FLOAT, "file")

    def binned(self, y, x):
        n = self.binning
        return 2 * (y // (2 * n)) + y % 2, 2 * (x // (2 * n)) + x % 2

    def par(self, y, x):
        """fitted transmittance, efficiency, phase (radians) of a pixel"""
        if self.symbolic:
            return tuple(atom("%s_%d_%d" % (n, y, x), "r") for n in ("t", "eff", "phi"))
        n = y * self.Wd + x
        if self.outcome(y, x) in ONESIDED:
            t, e, p = [F(v[2 * (y % 2) + x % 2], 100) for v in ONESIDED[self.outcome(y, x)]]
            return (const(t), const(e), add(mul(const(F(self.prev[2 * (y % 2) + x % 2], 180)), tm.PI), const(p)))
        t = const(F(80 + n % 17, 100) if self.outcome(y, x) != "big" else F(1 + n, 1000000))
        p = self.prev[2 * (y % 2) + x % 2]
        e = const(F(93 - n % 13, 100) if self.outcome(y, x) != "weak" else F(60 + n % 17, 1000))
        return (t, e, add(mul(const(F(p, 180)), tm.PI), const(self.phase if self.phase is not None else F(n % 11 - 5, 100))))

    def cov(self, y, x):
        return tuple(tuple(atom("c%d%d_%d_%d" % (i, j, y, x), "s") for j in range(3)) for i in range(3))

    def pixel_of(self, t):
        """pixels of the (binned) frame whose samples the term mentions, and the frames"""
        at = [DATA.match(x.args[0]) for x in tm.atoms(t) if x.op == "atom"]
        return ({self.binned(int(m.group(2)), int(m.group(3))) for m in at if m}, {int(m.group(1)) for m in at if m})

    def fit(self, I, st, a):
        y = I.content(st, a["ydata"])
        ys = I.shape(st, a["ydata"])
        if ys is not tup(const(len(self.pols))):     # not one sample per frame: the fit of the signal distribution
            if self.level is not None:
                return self.level(I, st, a)
            return tuple(atom("g%d" % k, "r") for k in range(3)), tuple(tuple(atom("g%d%d" % (i, j), "s") for j in range(3)) for i in range(3))
        els = [sel(y, (const(k),)) for k in range(len(self.pols))]
        where = [self.pixel_of(x)[0] for x in els]
        if all(len(w) == 1 for w in where) and len(set.union(*where)) > 1:
            raise Violation("the fit of a pixel", "one Malus curve is fitted to samples of different pixels %s" % sorted(set.union(*where)),
                            loc(self.W.I.events[-1]["node"]) if self.W.I.events and self.W.I.events[-1].get("node") is not None else "")
        one = set.union(*where)
        if len(one) != 1:
            raise Und("cannot tell which pixel is fitted")
        py, px = one.pop()
        fv = a.get("f", a.get("func"))
        if isinstance(fv, T):
            self.funcs.append((fv, I.content(st, a["xdata"]), I.content(st, a["p0"]) if isinstance(a.get("p0"), T) else NONE))
        self.fits.setdefault((py, px), []).append({k: (I.content(st, v) if isinstance(v, T) else v) for k, v in a.items() if k not in ("f", "func")})
        if self.outcome(py, px) == "fail":
            return None
        return self.par(py, px), self.cov(py, px)

    def files(self, what):
        """{relative name: (value, extents, event)} at the end"""
        returned(self.r, what)
        got, gone = final_files(fs(self.r), what)
        out = {}
        for p, (d, hd, e) in got.items():
            out[posixpath.relpath(p, "/out/cal")] = (d, e)
        return out

    def superpixel(self, i, j):
        return [(2 * i + k // 2, 2 * j + k % 2) for k in range(4)]

    def fitted(self, i, j):
        """pseudo-inverse of the modulation matrix of the fitted parameters"""
        r = []
        for y, x in self.superpixel(i, j):
            t, e, p = self.par(y, x)
            half = const(F(1, 2))
            r.append(mk("stack", (mul(half, t), mul(half, t, e, tm.ew("cos", mul(TWO, p))), mul(half, t, e, tm.ew("sin", mul(TWO, p))))))
        return mk("fn", "pinv", (mk("stack", tuple(r)),))

    def theory(self):
        half = const(F(1, 2))
        r = []
        for a in self.prev:
            p = mul(const(F(a, 180)), tm.PI)
            r.append(mk("stack", (half, mul(half, tm.ew("cos", mul(TWO, p))), mul(half, tm.ew("sin", mul(TWO, p))))))
        return mk("fn", "pinv", (mk("stack", tuple(r)),))

    def reader(self, files, dirname="/out/cal"):
        """(object, state result, ctx) of a demodulator loaded from the written files"""
        full = {posixpath.normpath(dirname + "/" + n): d for n, (d, e) in files.items()}

        def glob(pattern):
            return [f for f in sorted(full) if fnmatch.fnmatchcase(f, posixpath.normpath(pattern)) and f.count("/") == posixpath.normpath(pattern).count("/")]

        dirs = {posixpath.dirname(f) for f in full} | {posixpath.normpath(dirname)}

        def exists(p, what):
            if isinstance(p, T):
                if not is_const(p):
                    return None
                p = cval(p)
            p = posixpath.normpath(p)
            return (p in dirs and what != "is_file") or (p in full and what != "is_dir")

        def fits_data(I, st, src, i):
            if not is_const(src):
                raise Und("name of an opened file")
            p = posixpath.normpath(str(cval(src)))
            if p not in full:
                raise Violation("missing file", "the demodulator opens %s, which the calibration does not write" % p)
            d = full[p]
            if d is None:
                raise Und("value of %s" % p)
            H, W = (self.H // 2, self.Wd // 2) if half_size(p) else (self.H, self.Wd)
            return I.new_arr(st, d, tup(const(H), const(W)), FLOAT, "file")
        ctx = {"glob": glob, "exists": exists, "fits_data": fits_data}
        return ctx


def half_size(p):
    b = p.split("/")[-1]
    return bool(re.match(r"^[Mm]\d\d", b)) or b.startswith("fit_found")


def arr_same(c, W, found, want, H, Wd, what, key, where=""):
    c.same(found, want, what, where, key, shape=(const(H), const(Wd)))


# ---------------------------------------------------------------------------------------------------- C18
def c18(c):
    W = c.w
    c.rule = ("parallel = sequential: with symbolic frames and one uninterpreted fit per pixel, every written file and the inputs of every fit "
              "are the same terms for every grid of processes; grids that cannot divide the superpixels are rejected")
    c.floor = 20
    SCEN = {
        "all fits succeed": {},
        "some fits fail": {"outcome": lambda y, x: "fail" if (3 * y + 5 * x) % 7 == 3 else "ok"},
        "dead and unphysical pixels": {"outcome": lambda y, x: "dead" if (y, x) in ((1, 2), (2, 5)) else "big" if (y // 2 + x // 2) % 3 == 1 else "ok"},
        "normalising image": {"norm": "image"},
        "normalising series": {"norm": "series"},
        "dark and flat": {"dark": True, "flat": True},
        "estimated normalisation": {"norm": None},
        "occulter off centre": {"occulter": (3, 1, 1)},
    }
    SIZES = [((4, 4), [(1, 2), (2, 1), (2, 2)]), ((4, 8), [(2, 1), (1, 4), (2, 2), (2, 4), (1, 2)]), ((8, 4), [(4, 1), (2, 2), (4, 2)]),
             ((12, 8), [(3, 2), (2, 4), (3, 1), (6, 4)])]
    if c.tier == "thorough":
        SIZES += [((8, 8), [(4, 4), (2, 4), (4, 2), (4, 1)]), ((12, 12), [(2, 3), (3, 2), (6, 1), (6, 6)]), ((4, 24), [(2, 12), (1, 3), (2, 6)])]
    base = {}

    def seq(size, name, kw):
        if (size, name) not in base:
            try:
                base[size, name] = Cal(W, size=size, **kw)
            except Und as u:
                base[size, name] = u
        b = base[size, name]
        if isinstance(b, Exception):
            raise b
        return b

    def cmp_(size, grid, name, kw):
        a = seq(size, name, kw)
        fa = a.files("sequential calibration")
        b = Cal(W, grid=grid, size=size, **kw)
        fb = b.files("calibration with a %dx%d grid" % grid)
        key = "grid of processes"
        if sorted(fa) != sorted(fb):
            raise Violation(key, "a %dx%d grid writes %s, a single process writes %s" % (grid + (sorted(fb), sorted(fa))))
        for n in sorted(fa):
            H, Wd = (a.H // 2, a.Wd // 2) if half_size(n) else (a.H, a.Wd)
            arr_same(c, W, fb[n][0], fa[n][0], H, Wd, "%s of a %dx%d image with a %dx%d grid (%s)" % ((n,) + size + grid + (name,)), key, fb[n][1].get("loc") or "")
        for p in sorted(set(a.fits) | set(b.fits)):
            x, y = a.fits.get(p), b.fits.get(p)
            if (x is None) != (y is None) or len(x) != len(y):
                raise Violation(key, "pixel %s is fitted %d times with a %dx%d grid, %d times by a single process" % ((p, len(y or ())) + grid + (len(x or ()),)))
            for u, v in zip(x, y):
                for k in sorted(set(u) | set(v)):
                    if isinstance(u.get(k), T) and isinstance(v.get(k), T):
                        c.same(v[k], u[k], "%s of the fit of pixel %s with a %dx%d grid" % ((k, p) + grid), "", key)
        c.count("fits compared", len(b.fits))
        return "%d files" % len(fa)
    for size, grids in SIZES:
        for name, kw in SCEN.items():
            if size == (12, 8) and name not in ("all fits succeed", "dead and unphysical pixels") and c.tier == "quick":
                continue
            for g in grids:
                c.ob("%dx%d image, %dx%d grid, %s" % (size + g + (name,)), cmp_, size, g, name, kw)

    BIN = {"binning": 2, "occulter": (6, 3, 2), "extra": lambda W, st: {
        "tk_boundary": lst(W, st, *[const(F(v, 100)) for v in (40, 5, 95)]), "eff_boundary": lst(W, st, *[const(F(v, 100)) for v in (60, 15, 99)])}}
    for size, grids in (((8, 8), [(2, 2)]), ((8, 12), [(1, 3)]), ((10, 14), [(2, 1), (2, 3)])):
        for g in grids:
            c.ob("%dx%d image, %dx%d grid, binned, with occulter and fit bounds" % (size + g), cmp_, size, g, "binned, with occulter and fit bounds", BIN)

    def rejected(size, grid):
        r = Cal(W, grid=grid, size=size).r
        must_raise(c, r, "a %dx%d grid for a %dx%d image" % (grid + size), key="inadmissible grid")
        ev = [e for e in fs(r) if e["op"] == "write"]
        if ev:
            raise Violation("inadmissible grid", "files are written before the grid is rejected", ev[0].get("loc") or "")
    for size, grid in (((4, 4), (3, 1)), ((4, 4), (1, 3)), ((4, 4), (4, 1)), ((4, 4), (1, 4)), ((8, 8), (3, 2)), ((8, 12), (8, 1)), ((8, 12), (2, 4)), ((6, 4), (2, 1)), ((8, 8), (5, 5)), ((4, 4), (8, 1)),
                       ((8, 12), (3, 1)), ((8, 12), (1, 8)), ((12, 8), (8, 3)), ((12, 8), (1, 3)), ((6, 10), (1, 3)), ((10, 6), (3, 1)), ((6, 10), (5, 1)), ((10, 6), (1, 5))):
        c.ob("%dx%d grid rejected for a %dx%d image" % (grid + size), rejected, size, grid)


# ---------------------------------------------------------------------------------------------------- C16
PREVS = [(0, 45, -45, 90), (90, -45, 45, 0), (45, 0, 90, -45), (-45, 90, 0, 45)]
ORDERS = {"alphabetical": lambda l: l, "reversed": lambda l: l[::-1], "rotated": lambda l: l[5:] + l[:5], "interleaved": lambda l: l[::2] + l[1::2]}


def load(c, cal, files, dirname="/out/cal", order="alphabetical"):
    """(state, demodulator, ctx): a demodulator constructed from the written files"""
    W = c.w
    ctx = cal.reader(files, dirname)
    g0 = ctx["glob"]
    ctx["glob"] = lambda p: ORDERS[order](g0(p))
    st = W.st()
    r = W.run(st, W.fn(st, DEMOD), [const(dirname)], {}, ctx)
    if not r.ok:
        exc = sorted({x[1] for x in r.raised})
        if exc and "?" not in exc:
            raise Violation("reading back", "a folder written by the calibration cannot be loaded: %s" % ", ".join(exc),
                            loc(r.raised[0][2]) if r.raised[0][2] is not None else "")
        raise Und("the demodulator constructor does not return")
    return r.st, r.v, ctx


def get_attr(c, st, d, name, ctx):
    return c.w.run(st, mk("ext", "builtins.getattr"), [d, const(name)], {}, ctx)


def attr_of(c, st, d, name, ctx):
    r = returned(get_attr(c, st, d, name, ctx), "attribute %s of the demodulator" % name, name)
    return r.st, r.v


def c16(c):
    W = c.w
    c.rule = ("writer and reader composed: the calibration runs on symbolic frames with one distinct fit result per pixel; the files it writes are "
              "given to the demodulator; every element it then holds must be the one the calibration computed for that superpixel")
    c.floor = 15
    made = {}

    def cal(**kw):
        k = tuple(sorted((a, str(b)) for a, b in kw.items()))
        if k not in made:
            try:
                made[k] = Cal(W, **kw)
            except (Und, Violation) as u:
                made[k] = u
        if isinstance(made[k], Exception):
            raise made[k]
        return made[k]

    def mij(kw, dirname, order):
        k = cal(**kw)
        files = k.files("calibration")
        st, d, ctx = load(c, k, files, dirname, order)
        st, m = attr_of(c, st, d, "mij", ctx)
        H, Wd = k.H // 2, k.Wd // 2
        want_shape = tup(const(3), const(4), const(H), const(Wd))
        sh = W.I.shape(st, m)
        if sh is not want_shape:
            if sh.op == "tuple" and all(is_const(x) for x in sh.args[0]):
                raise Violation("demodulation tensor", "the tensor of a %dx%d image has shape %s" % (k.H, k.Wd, show(sh)))
            raise Und("shape of the tensor")
        mt = W.I.content(st, m)
        for y in range(H):
            for x in range(Wd):
                good = all(k.outcome(*p) in ("ok",) for p in k.superpixel(y, x))
                f = k.fitted(y, x) if good else k.theory()
                for i in range(3):
                    for j in range(4):
                        c.same(sel(mt, tuple(const(v) for v in (i, j, y, x))), sel(f, (const(i), const(j))),
                               "element (%d,%d) of the tensor at superpixel (%d,%d)" % (i, j, y, x), key="demodulation tensor")
        return "%d elements" % (12 * H * Wd)

    def maps(kw, dirname, order):
        k = cal(**kw)
        files = k.files("calibration")
        st, d, ctx = load(c, k, files, dirname, order)
        st, fl = attr_of(c, st, d, "fit_found_flags", ctx)
        H, Wd = k.H // 2, k.Wd // 2
        if fl is NONE:
            raise Violation("flags", "the flags written by the calibration are not found by the demodulator")
        c.same(W.I.content(st, fl), rows(lambda y, x: ONE if all(k.outcome(*p) == "ok" for p in k.superpixel(y, x)) else ZERO, H, Wd),
               "flags of the demodulator", key="flags", shape=(const(H), const(Wd)))
        for name, n, scale in (("tk", 0, ONE), ("eff", 1, ONE), ("phi", 2, div(const(180), tm.PI))):
            st2, v = attr_of(c, st.copy(), d, name, ctx)
            t = W.I.content(st2, v)
            for y in range(H):
                for x in range(Wd):
                    if all(k.outcome(*p) == "ok" for p in k.superpixel(y, x)):
                        for p in k.superpixel(y, x):
                            c.same(sel(t, (const(p[0]), const(p[1]))), mul(scale, k.par(*p)[n]), "%s of pixel %s" % (name, p), key=name)
        st2, cv = attr_of(c, st.copy(), d, "Cij", ctx)
        if cv is NONE:
            raise Violation("covariance", "the covariances written by the calibration are not found by the demodulator")
        t = W.I.content(st2, cv)
        for y in range(H):
            for x in range(Wd):
                if all(k.outcome(*p) == "ok" for p in k.superpixel(y, x)):
                    for p in k.superpixel(y, x):
                        cc = k.cov(*p)
                        for i in range(3):
                            for j in range(3):
                                c.same(sel(t, tuple(const(v) for v in (i, j) + p)), cc[i][j], "covariance (%d,%d) of pixel %s" % (i, j, p), key="covariance")

    def dic(kw, dirname):
        k = cal(**kw)
        files = k.files("calibration")
        st, d, ctx = load(c, k, files, dirname)
        st, dd = attr_of(c, st, d, "angle_dic", ctx)
        for a in (0, 45, -45, 90):

            v = W.I.simp(st, W.I.getitem(st, dd, const(a), None))
            want = [i for i, p in enumerate(k.prev) if (p - a) % 180 == 0][0]
            c.same(v, const(want), "pixel family of %d degrees" % a, key="angle dictionary")

    SC = [({"size": (4, 8), "grid": (1, 2)}, "/out/cal", "alphabetical"),
          ({"size": (8, 4), "grid": (2, 1), "prev": PREVS[1]}, "/out/cal2024_12", "reversed"),
          ({"size": (4, 6), "grid": (1, 1), "prev": PREVS[2]}, "/12/d10", "rotated"),
          ({"size": (8, 8), "grid": (2, 2), "prev": PREVS[3]}, "/data.00/run_07", "interleaved"),
          ({"size": (8, 12), "binning": 2, "grid": (1, 3)}, "/out/cal", "reversed"),
          ({"size": (6, 8), "grid": (1, 2), "outcome": lambda y, x: "fail" if (y, x) in ((1, 3), (4, 6)) else "dead" if (y, x) == (2, 5) else "ok"}, "/out/x", "reversed"),
          ({"size": (4, 8), "grid": (2, 2), "norm": "series", "flat": True}, "/out/cal", "rotated")]
    if c.tier == "thorough":
        for pr in PREVS:
            for o in ORDERS:
                SC.append(({"size": (8, 4), "grid": (2, 2), "prev": pr}, "/out/34", o))
        SC.append(({"size": (12, 12), "binning": 3, "grid": (2, 1)}, "/out/cal", "interleaved"))
        SC.append(({"size": (10, 14), "grid": (5, 7), "norm": "image"}, "/out/cal", "interleaved"))
    for kw, dn, o in SC:
        what = ", ".join("%s=%s" % (a, b if not callable(b) else "mixed") for a, b in sorted(kw.items())) + " in %s, %s file order" % (dn, o)
        c.ob("tensor: " + what, mij, kw, dn, o)
        c.ob("flags, parameters, covariances: " + what, maps, kw, dn, o)
    for pr in PREVS + [(0, 45, 135, 90), (135, 0, 45, 90)]:
        for ph in (None, F(4, 100), F(-4, 100)):
            c.ob("angle dictionary for previsions %s, offset %s" % (pr, ph), dic, {"size": (4, 4), "prev": pr, "phase": ph}, "/out/cal")


# ---------------------------------------------------------------------------------------------------- C17
def no_files(r, what, key):
    ev = [e for e in fs(r) if e["op"] == "write"]
    if ev:
        raise Violation(key, "%s is rejected only after files were written" % what, ev[0].get("loc") or "")


def c17(c):
    W = c.w
    c.rule = ("no normal return: for every enumerated way in which calibration or demodulation inputs can be incomplete, no path of the entry "
              "point may reach a return; complete inputs must have one")
    c.floor = 60

    def cal_rejected(key, kw):
        k = Cal(W, **kw)
        must_raise(c, k.r, key, key="calibration inputs")
        no_files(k.r, key, "calibration inputs")

    def cal_accepted(key, kw):
        returned(Cal(W, **kw).r, key, "calibration inputs")
    REQ = ((0, 45, 90, -45), (0, 45, 90, 135))
    for pols in ((0, 45, 90), (0, 45, -45), (0, 90, -45), (45, 90, -45), (0, 45, 90, 30), (0, 45, 30, -45), (0, 30, 90, -45), (30, 45, 90, -45),
                 (0, 45, 135), (45, 90, 135), (0, 90, 135), (45, 90, 135, 180), (0, 30, 60, 90, 120, 150), (-45, 0, 90, 135), (0,), (0, 90)):
        c.ob("orientations %s without a normalising signal" % (pols,), cal_rejected, "a calibration with orientations %s and no normalising signal" % (pols,), {"pols": pols, "norm": None})
    for pols in REQ + ((0, 15, 30, 45, 90, -45), (135, 90, 45, 0), (-45, 0, 45, 90, 135)):
        c.ob("orientations %s accepted" % (pols,), cal_accepted, "a calibration with orientations %s" % (pols,), {"pols": pols, "norm": None})
    for n in (0, 1, 3, 5, 8):
        nm = ["/in/p%d.fits" % k for k in range(n)]
        for norm in ("num", None, "image"):
            c.ob("%d files for 4 orientations (%s)" % (n, norm), cal_rejected, "a calibration with 4 orientations and %d files" % n, {"names": nm, "norm": norm})

    # -- demodulators
    ALL = ["M%d%d.fits" % (i, j) for i in range(3) for j in range(4)]
    OTHER = ["fit_found_flag.fits", "phases.fits", "transmittancies.fits", "efficiences.fits"]

    def folder(files, exists=True, pre="/cal"):
        ctx = W.demod_ctx(files=files, pre=pre)
        if not exists:
            ctx["exists"] = lambda p, what: False
        else:
            full = {pre + "/" + f for f in files}
            ctx["exists"] = lambda p, what: (str(cval(p) if isinstance(p, T) and is_const(p) else p).rstrip("/") == pre or str(cval(p) if isinstance(p, T) and is_const(p) else p) in full)
        st = W.st()
        return W.run(st, W.fn(st, DEMOD), [const(pre)], {}, ctx), ctx

    def refused(what, files, exists=True, pre="/cal"):
        r, _ = folder(files, exists, pre)
        must_raise(c, r, what, key="demodulator folder")

    def loaded(what, files, pre="/cal"):
        r, _ = folder(files, pre=pre)
        returned(r, what, "demodulator folder")
    c.ob("complete folder", loaded, "a demodulator of a complete folder", ALL + OTHER)
    c.ob("folder without flags", loaded, "a demodulator of a folder without flags", ALL)
    c.ob("folder name with digits", loaded, "a demodulator of a complete folder", ALL + OTHER, "/cal_20/tensor11")
    c.ob("missing folder", refused, "a missing folder", [], False)
    c.ob("empty folder", refused, "an empty folder", [])
    c.ob("folder without matrices", refused, "a folder without matrices", OTHER)
    c.ob("folder without matrices, digits in its name", refused, "a folder without matrices", OTHER, True, "/cal/run_12")
    for k, m in enumerate(ALL):
        rest = [x for x in ALL if x != m]
        c.ob("folder without %s" % m, refused, "a folder without %s" % m, rest + OTHER)
        c.ob("folder without %s, no flags" % m, refused, "a folder without %s" % m, rest)
        for two in (m.replace(".fits", "_copy.fits"), "old_" + m, m.replace("M", "N")):
            c.ob("folder with %s and %s" % (m, two), refused, "a folder with two matrices %s" % m[:-5], ALL + [two] + OTHER)
            c.ob("folder with %s and %s, listed first" % (m, two), refused, "a folder with two matrices %s" % m[:-5], [two] + ALL + OTHER)
        dup = ALL[(k + 5) % 12].replace(".fits", "_copy.fits")
        c.ob("folder without %s but with %s" % (m, dup), refused, "a folder without %s but with %s" % (m, dup), rest + [dup] + OTHER)
        c.ob("folder without %s, %s first" % (m, dup), refused, "a folder without %s but with %s" % (m, dup), [dup] + rest + OTHER)
    c.ob("only the first row", refused, "a folder with the first row only", ALL[:4] + OTHER)
    c.ob("matrix without indices", refused, "a folder with an unnumbered matrix", ALL[:11] + ["M.fits"] + OTHER)
    if c.tier == "thorough":
        for a in range(12):
            for b in range(a):
                c.ob("folder without %s and %s" % (ALL[a], ALL[b]), refused, "a folder without two matrices", [x for k, x in enumerate(ALL) if k not in (a, b)] + OTHER)

    # -- covariances
    COV = ["C%d%d.fits" % (i, j) for i in range(3) for j in range(3)]

    def cov(names):
        st = W.st()
        d, ctx = W.demodulator(st)
        full = ["/cal/covariance_tensor/" + n for n in names] + ["/cal/covariance_tensor/reduced_chisquare.fits"]
        g0, e0 = ctx["glob"], ctx["exists"]
        ctx = dict(ctx, glob=lambda p: [f for f in full if fnmatch.fnmatchcase(f, p)] if "covariance" in p else g0(p))
        return get_attr(c, st, d, "Cij", ctx)

    def cov_refused(what, names):
        must_raise(c, cov(names), what, key="covariance folder")
    c.ob("complete covariances", lambda: returned(cov(COV), "reading a complete covariance folder", "covariance folder") and None)
    for m in COV:
        rest = [x for x in COV if x != m]
        c.ob("covariances without %s" % m, cov_refused, "reading the covariances without %s" % m, rest)
        c.ob("covariances with two files %s" % m, cov_refused, "reading covariances with two files %s" % m, COV + ["copy_" + m])
        c.ob("covariances with two files %s, the copy first" % m, cov_refused, "reading covariances with two files %s" % m, ["copy_" + m] + COV)
        dup = COV[(COV.index(m) + 4) % 9].replace(".fits", "_copy.fits")
        c.ob("covariances without %s but with %s" % (m, dup), cov_refused, "reading the covariances without %s but with %s" % (m, dup), rest + [dup])
        c.ob("covariances without %s, %s first" % (m, dup), cov_refused, "reading the covariances without %s but with %s" % (m, dup), [dup] + rest)
    c.ob("no covariance matrices", cov_refused, "reading covariances from a folder with only the chi square", [])

    # -- demodulator and image of different sizes
    def sizes(a, b, dm, flags):
        st = W.st()
        d, ctx = W.demodulator(st, const(a[0]), const(a[1]), flags)
        img = W.image(st, H=const(b[0]), W=const(b[1]))
        r = W.meth(st, img, "demodulate", [d], {"demosaicing": const(dm)}, ctx)
        if a == b:
            returned(r, "demodulating with a demodulator of the same size", "demodulator size")
        else:
            must_raise(c, r, "demodulating an image of %dx%d superpixels with matrices of %dx%d" % (b + a), key="demodulator size")
    for a, b in (((2, 3), (2, 3)), ((2, 3), (4, 6)), ((4, 6), (2, 3)), ((2, 3), (3, 2)), ((2, 3), (2, 4)), ((2, 3), (3, 3)), ((1, 3), (2, 3)),
                 ((2, 1), (2, 3)), ((1, 1), (2, 3)), ((2, 3), (1, 3)), ((2, 3), (2, 1)), ((2, 3), (1, 1)), ((4, 4), (8, 8)), ((1, 1), (1, 1))):
        for dm in (True, False):
            for fl in (True, False):
                c.ob("matrices of %dx%d, image of %dx%d superpixels, demosaicing %s, flags %s" % (a + b + (dm, fl)), sizes, a, b, dm, fl)

    # -- constructors
    def built(cls, mkarg, what):
        st = W.st()
        a = mkarg(st)
        must_raise(c, W.run(st, W.fn(st, cls), [a], {}, {}), what, key="initializer")
    BAD = {"None": lambda st: NONE, "a number": lambda st: const(3), "a float": lambda st: const(F(5, 2)), "a boolean": lambda st: TRUE,
           "a dictionary": lambda st: W.I.new_dict(st, ()), "a tuple of names": lambda st: tup(const("/a.fits"), const("/b.fits")),
           "an empty list": lambda st: lst(W, st), "a raw file": lambda st: const("/a.raw"), "a list with a raw file": lambda st: lst(W, st, "/a.fits", "/b.raw"),
           "an empty tuple": lambda st: tup(),
           "a flat array": lambda st: W.I.new_arr(st, atom("v1", "a", 1), tup(atom("h", "p")), FLOAT, "input"),
           "a cube": lambda st: W.I.new_arr(st, atom("v3", "a", 3), tup(const(3), atom("h", "p"), atom("w", "p")), FLOAT, "input")}
    for cls in (IMG, BASE):
        for what, f in BAD.items():
            c.ob("%s from %s" % (cls.split(".")[-1], what), built, cls, f, "an image made from %s" % what)

    # -- Chen-Wang-Liang calibration
    def cwl(pols, names, prev, ok=False):
        st = W.st()
        ctx = {"fits_data": lambda I, s, src, i: I.new_arr(s, rows(lambda y, x: atom("f%s_%d_%d" % (show(src), y, x), "r"), 4, 4), tup(const(4), const(4)), FLOAT, "file"), "exists": lambda p, what: True}
        r = W.call(st, PP + "chen_wan_liang_calibration.calculate_chen_wan_lian_calibration",
                   [lst(W, st, *pols), lst(W, st, *names), lst(W, st, *prev), const("/out/cwl")], {"occulter": FALSE}, ctx)
        what = "a Chen-Wang-Liang calibration with orientations %s and %d files" % (pols, len(names))
        if ok:
            return returned(r, what, "Chen-Wang-Liang inputs") and None
        must_raise(c, r, what, key="Chen-Wang-Liang inputs")
        no_files(r, what, "Chen-Wang-Liang inputs")
    nm = ["/in/p%d.fits" % k for k in range(8)]
    c.ob("Chen-Wang-Liang, complete", cwl, (0, 45, 90, -45), nm[:4], PREV, True)
    for pols in ((0, 45, 90), (0, 45, -45), (0, 90, -45), (45, 90, -45), (0, 45, 90, 30), (30, 45, 90, -45), (0, 45, 90, 135)):
        c.ob("Chen-Wang-Liang, orientations %s" % (pols,), cwl, pols, nm[:len(pols)], PREV)
    for n in (0, 1, 3, 5):
        c.ob("Chen-Wang-Liang, %d files" % n, cwl, (0, 45, 90, -45), nm[:n], PREV)
    for pr in ((0, 45, 90, 90), (0, 45, -45), (0, 30, -45, 90)):
        c.ob("Chen-Wang-Liang, previsions %s" % (pr,), cwl, (0, 45, 90, -45), nm[:4], pr)


# ---------------------------------------------------------------------------------------------------- C19
def c19(c):
    W = c.w
    c.rule = ("fit outcome of every pixel enumerated by position; the written matrix of each superpixel must be the pseudo-inverse of its fitted "
              "modulation matrix where the written flag is 1 and the theoretical one where it is 0, and demodulation with the loaded files must "
              "give the theoretical Stokes vector where it is 0")
    c.floor = 30

    def at(table):
        return lambda y, x: table.get((y, x), "ok")

    def element(arr, *idx):
        return sel(arr, tuple(const(v) for v in idx))

    def truthful(kw, expected):
        k = Cal(W, **kw)
        files = k.files("calibration")
        fl, ev = files["fit_found_flag.fits"]
        th = k.theory()
        n = [0, 0]
        for y in range(k.H // 2):
            for x in range(k.Wd // 2):
                v = element(fl, y, x)
                if not is_const(v) or cval(v) not in (0, 1):
                    if is_const(v):
                        raise Violation("flag", "the flag of superpixel (%d,%d) is %s" % (y, x, show(v)), ev.get("loc") or "")
                    raise Und("flag of superpixel (%d,%d): %s" % (y, x, show(v)[:200]))
                v = int(cval(v))
                n[v] += 1
                px = k.superpixel(y, x)
                out = {k.outcome(*p) for p in px}
                usable = out <= {"ok", "weak"} and expected(y, x) is not False
                if expected(y, x) is None:
                    usable = None
                if usable is False and v:
                    raise Violation("flag", "superpixel (%d,%d) (%s) is flagged as fitted" % (y, x, "/".join(sorted(out)) if out != {"ok"} else "occulted"), ev.get("loc") or "")
                if usable and not v:
                    raise Violation("flag", "superpixel (%d,%d) is fitted with a well-conditioned matrix but not flagged" % (y, x), ev.get("loc") or "")
                want = k.fitted(y, x) if v else th
                if v and any(not k.fits.get(p) for p in px):
                    raise Violation("flag", "superpixel (%d,%d) is flagged as fitted although %s" % (y, x, "not all its pixels are fitted"), ev.get("loc") or "")
                for i in range(3):
                    for j in range(4):
                        m, e2 = files["M%d%d.fits" % (i, j)]
                        c.same(element(m, y, x), element(want, i, j), "matrix element (%d,%d) of superpixel (%d,%d) flagged %d" % (i, j, y, x, v), e2.get("loc") or "", "matrix")
        # where nothing could be fitted the reported parameters are the assumed ones
        maps = {"phases.fits": [const(a) for a in k.prev], "transmittancies.fits": None, "efficiences.fits": None}
        for y in range(k.H // 2):
            for x in range(k.Wd // 2):
                px = k.superpixel(y, x)
                failed = any(k.outcome(*p) in ("fail", "dead") for p in px) or expected(y, x) is False
                for nm, want in maps.items():
                    if failed and want and nm in files:
                        for q, p in enumerate(px):
                            c.same(element(files[nm][0], *p), want[q], "%s of pixel %s of an unfitted superpixel" % (nm[:-5], p), files[nm][1].get("loc") or "", "parameters of unfitted superpixels")
        return "%d fitted, %d not" % (n[1], n[0])

    def theo(kw, dm):
        k = Cal(W, **kw)
        files = k.files("calibration")
        st, d, ctx = load(c, k, files)
        H, Wd = k.H, k.Wd
        dic = W.I.new_dict(st, tuple((const(a), const(i)) for i, a in enumerate(k.prev)))
        data = W.I.new_arr(st, rows(lambda y, x: atom("s_%d_%d" % (y, x), "r"), H, Wd), tup(const(H), const(Wd)), FLOAT, "input")
        r = W.run(st, W.fn(st, IMG), [data], {"angle_dic": dic}, {})
        img = returned(r, "image").v
        st = r.st
        ref_ = None
        r2 = returned(W.meth(st, img, "demodulate", [d], {"demosaicing": const(dm)}, ctx), "demodulation")
        S = W.val(r2.st, r2.v, "Stokes_vec")
        fl = files["fit_found_flag.fits"][0]
        if dm:
            st3 = st.copy()
            q = returned(W.meth(st3, img, "demosaic", [], {}, {}), "demosaicing")
            ref_ = W.val(q.st, img if q.v is NONE else q.v, "Stokes_vec")
            demo = W.val(q.st, img if q.v is NONE else q.v, "demosaiced_images")
        where = {a: i for i, a in enumerate(k.prev)}
        n = 0
        for y in range(H // 2):
            for x in range(Wd // 2):
                v = element(fl, y, x)
                if not is_const(v):
                    raise Und("flag")
                f = lambda a: atom("s_%d_%d" % (2 * y + where[a] // 2, 2 * x + where[a] % 2), "r")
                spec = (mul(const(F(1, 2)), add(f(0), f(45), f(-45), f(90))), sub(f(0), f(90)), sub(f(45), f(-45)))
                for (py, px) in (k.superpixel(y, x) if dm else [(y, x)]):
                    for s in range(3):
                        if cval(v) == 0:
                            n += 1
                            c.same(element(S, s, py, px), element(ref_, s, py, px) if dm else spec[s],
                                   "Stokes component %d of an unfitted superpixel (pixel %s)" % (s, (py, px)), key="theoretical Stokes")
                        else:
                            fit = k.fitted(y, x)
                            sig = [element(demo, q, py, px) if dm else atom("s_%d_%d" % p, "r") for q, p in enumerate(k.superpixel(y, x))]
                            w = add(*[mul(element(fit, s, q), v_) for q, v_ in enumerate(sig)])
                            c.same(element(S, s, py, px), w, "Stokes component %d of a fitted superpixel (pixel %s)" % (s, (py, px)), key="fitted Stokes")
        return "%d components of unfitted superpixels" % n
    yes = lambda y, x: True
    for p in ((0, 2), (0, 3), (1, 2), (1, 3)):
        for o in ("fail", "dead"):
            c.ob("pixel %s of the middle superpixel: %s" % (p, o), truthful, {"size": (4, 6), "outcome": at({p: o})}, yes)
    for p, q in (((0, 0), (0, 1)), ((1, 0), (2, 3)), ((0, 1), (3, 3)), ((3, 0), (3, 3))):
        c.ob("pixel %s fails, pixel %s is dead" % (p, q), truthful, {"size": (4, 4), "outcome": at({p: "fail", q: "dead"})}, yes)
    for sp in ((0, 0), (0, 1), (1, 0), (1, 1)):
        tab = {(2 * sp[0] + i, 2 * sp[1] + j): "big" for i in range(2) for j in range(2)}
        c.ob("unphysical matrix at superpixel (%d,%d)" % sp, truthful, {"size": (4, 4), "outcome": at(tab)}, yes)
        c.ob("unphysical matrix at superpixel (%d,%d), others fail" % sp, truthful, {"size": (4, 4), "outcome": lambda y, x: tab.get((y, x), "fail" if y == 3 else "ok")}, yes)
        for o in ONESIDED:
            c.ob("matrix with too %s elements at superpixel (%d,%d)" % ((o,) + sp), truthful, {"size": (4, 4), "outcome": at({k: o for k in tab})}, yes)
        c.ob("weakly polarizing pixels at superpixel (%d,%d)" % sp, truthful, {"size": (4, 4), "outcome": at({k: "weak" for k in tab})}, yes)
    c.ob("every fit fails", truthful, {"size": (4, 4), "outcome": lambda y, x: "fail"}, yes)
    c.ob("every pixel is dead", truthful, {"size": (4, 4), "outcome": lambda y, x: "dead"}, yes)
    for pr in PREVS:
        c.ob("previsions %s, some fits fail" % (pr,), truthful, {"size": (4, 8), "grid": (1, 2), "prev": pr, "outcome": at({(1, 1): "fail", (2, 6): "dead", (3, 3): "fail"})}, yes)
    c.ob("binned, some fits fail", truthful, {"size": (8, 8), "binning": 2, "outcome": at({(1, 1): "fail", (2, 3): "dead"})}, yes)

    def occ(cy, cx, rad, n=1):
        def f(y, x):
            ds = [((2 * y + i - cy // n) ** 2 + (2 * x + j - cx // n) ** 2) ** 0.5 for i in range(2) for j in range(2)]
            if min(ds) == 0 or max(ds) < rad // n - 2.5:      # the region is rounded to superpixels
                return False
            return True if min(ds) > rad // n + 2 else None
        return f
    for size, o, n, g in (((12, 16), (6, 6, 5), 1, (1, 1)), ((12, 20), (4, 13, 4), 1, (1, 2)), ((12, 12), (9, 3, 5), 1, (2, 3)), ((32, 24), (10, 11, 10), 2, (1, 1))):
        c.ob("occulter %s in a %dx%d image, binning %d" % ((o,) + size + (n,)), truthful, {"size": size, "occulter": o, "binning": n, "grid": g}, occ(*o, n))
    mixed = at({(1, 1): "fail", (2, 3): "dead", (2, 4): "big", (2, 5): "big", (3, 4): "big", (3, 5): "big"})
    for dm in (False, True):
        for pr in (PREVS if not dm or c.tier == "thorough" else PREVS[:2]):
            c.ob("demodulation, demosaicing %s, previsions %s" % (dm, pr), theo, {"size": (4, 6), "prev": pr, "outcome": mixed}, dm)


# ---------------------------------------------------------------------------------------------------- C20
def leaves(t):
    if t.op in ("stack", "inter", "tuple"):
        for x in t.args[0]:
            yield from leaves(x)
    elif t.op == "ite":
        yield from leaves(t.args[1])
        yield from leaves(t.args[2])
    elif t.op == "fn" and t.args[0] == "where":
        yield from leaves(t.args[1][1])
        yield from leaves(t.args[1][2])
    else:
        yield t


def units(c, events, deg=(), rad=(), key="trigonometry"):
    """units of every argument of a sine, cosine or tangent; returns the number of arguments whose unit is determined"""
    n = un = 0
    for e in events:
        if e["kind"] != "trig":
            continue
        for t in leaves(e["arg"]):
            for m, co in tm.poly(t).items():
                pi = sum(x for b, x in m if b is tm.PI and isinstance(x, int))
                rest = [(b, x) for b, x in m if b is not tm.PI]
                names = {a.args[0] for b, _ in rest for a in tm.atoms(b) if a.op == "atom"}
                where = e.get("loc") or ""
                what = "argument %s of %s" % (show(t, 6)[:300], e.get("name"))
                if not rest:
                    n += 1
                    if pi != 1:
                        raise Violation(key, "%s contains a number that is not an angle in radians (factor pi^%d)" % (what, pi), where)
                elif names & set(deg):
                    n += 1
                    if len(rest) != 1 or rest[0][1] != 1 or rest[0][0].op != "atom":
                        un += 1
                    elif pi != 1 or abs(co * 180) not in (1, 2):
                        raise Violation(key, "%s: the angle %s is given in degrees and enters with factor %s*pi^%d" % (what, sorted(names)[0], co, pi), where)
                elif names & set(rad):
                    n += 1
                    if len(rest) == 1 and rest[0][1] == 1 and rest[0][0].op == "atom" and (pi != 0 or abs(co) not in (1, 2)):
                        raise Violation(key, "%s: the angle %s is given in radians and enters with factor %s*pi^%d" % (what, sorted(names)[0], co, pi), where)
                else:
                    un += 1
    c.count("arguments of trigonometric functions", n)
    c.count("arguments of unknown unit", un)
    return n


def c20(c):
    W = c.w
    I = W.I
    c.rule = ("dimensional analysis: degree inputs and radian fit parameters are tagged symbols; in the argument of every sine, cosine and tangent "
              "a degree symbol must carry the factor pi/180 once, a radian symbol no factor pi; angles returned or written in degrees carry 180/pi")
    c.floor = 15

    def need(n, what):
        if n < 1:
            raise Und("no trigonometric argument seen in %s" % what)
        return "%d arguments" % n

    def calibration(kw, deg, prevs):
        k = Cal(W, symbolic=True, prev=prevs, **kw)
        returned(k.r, "calibration")
        return need(units(c, k.r.events, deg, ["phi_%d_%d" % (y, x) for y in range(k.H) for x in range(k.Wd)]), "the calibration")
    sym = tuple(atom("deg_%d" % k, "s") for k in range(4))
    names = [a.args[0] for a in sym]
    for kw in ({}, {"size": (4, 8), "grid": (2, 2), "pols": (0, 45, 90, -45, 30, 120)}, {"binning": 2, "size": (8, 8)},
               {"pols": (0, 45, 90, 135, 15), "norm": None}, {"pols": (20, 50, 80, -60), "norm": "image"}):
        c.ob("calibration, symbolic previsions %s" % kw, calibration, kw, names, sym)
        c.ob("calibration, numeric previsions %s" % kw, calibration, kw, (), (90, -45, 45, 0))

    def malus():
        """the curve given to the fit"""
        k = Cal(W, symbolic=True, prev=sym)
        returned(k.r, "calibration")
        got = 0
        f = k.funcs
        if not f:
            raise Und("the fitted function is not visible")
        for fv, x, p0 in f[:2]:
            st = k.r.st.copy()
            xs = I.new_arr(st, mk("stack", tuple(atom("ang%d" % q, "s") for q in range(4))), tup(const(4)), FLOAT, "input")
            r = W.run(st, fv, [xs, atom("T", "r"), atom("E", "r"), atom("PH", "s")], {}, {})
            returned(r, "the fitted curve")
            got += units(c, r.events, (), ["PH"] + ["ang%d" % q for q in range(4)])
            v = I.content(r.st, r.v)
            for q in range(4):
                want = mul(const(F(1, 2)), atom("T", "r"), add(ONE, mul(atom("E", "r"), add(
                    mul(ew("cos", mul(TWO, atom("PH", "s"))), ew("cos", mul(TWO, atom("ang%d" % q, "s")))),
                    mul(ew("sin", mul(TWO, atom("PH", "s"))), ew("sin", mul(TWO, atom("ang%d" % q, "s"))))))))
                c.same(sel(v, (const(q),)), want, "fitted curve at an orientation", key="Malus curve")
            # abscissae in radians
            for t in leaves(x):
                for m, co in tm.poly(t).items():
                    if not [1 for b, _ in m if b is not tm.PI] and sum(e for b, e in m if b is tm.PI) != 1:
                        raise Violation("Malus curve", "the orientations given to the fit are not in radians: %s" % show(t))
            for t in list(leaves(p0))[2:]:
                for m, co in tm.poly(t).items():
                    if {b.args[0] for b, _ in m if b.op == "atom"} & set(names) and (sum(e for b, e in m if b is tm.PI) != 1 or co * 180 != 1):
                        raise Violation("Malus curve", "the predicted phase given to the fit is not in radians: %s" % show(t))
        # bounds of the phase in radians
        for a in [q for v in k.fits.values() for q in v][:4]:
            b = a.get("bounds")
            if not isinstance(b, T):
                continue
            for side in range(2):
                for t in leaves(sel(sel(b, (const(side),)), (const(2),))):
                    for m, co in tm.poly(t).items():
                        pi = sum(e for x_, e in m if x_ is tm.PI)
                        ns = {x_.args[0] for x_, _ in m if x_.op == "atom"} & set(names)
                        if ns and (pi != 1 or co * 180 != 1) or not [1 for x_, _ in m if x_ is not tm.PI] and pi == 0 and abs(co) > 4:
                            raise Violation("Malus curve", "the bounds of the phase given to the fit are not in radians: %s" % show(t))
        return need(got, "the fitted curve")
    c.ob("curve, orientations and predicted phase of the fits", malus)

    def abscissae(pols):
        """the orientations every fit receives, in radians"""
        k = Cal(W, pols=pols, prev=(90, -45, 45, 0))
        returned(k.r, "calibration with orientations %s" % (pols,))
        n = 0
        for p, fs_ in sorted(k.fits.items()):
            for a in fs_:
                x = a.get("xdata")
                if not isinstance(x, T):
                    raise Und("orientations of a fit")
                for q, v in enumerate(sorted(pols)):
                    n += 1
                    c.same(sel(x, (const(q),)), mul(const(F(v) / 180), tm.PI), "orientation %s given to the fit of pixel %s, in radians" % (v, p), key="Malus curve")
        return need(n, "the fits")
    for pols in ((0, 1, 2, 3, 5), (0, F(1, 2), 1, 6), (0, 45, 90, 135, 180, 270, 360), (-1, 0, 1, 2), (400, 10, -300, 0)):
        c.ob("orientations %s reach the fits in radians" % (tuple(str(x) for x in pols),), abscissae, pols)

    def written():
        k = Cal(W, symbolic=True)
        f = k.files("calibration")
        d, e = f["phases.fits"]
        t180 = div(const(180), tm.PI)
        for y in range(k.H):
            for x in range(k.Wd):
                v = sel(d, (const(y), const(x)))
                for alt in leaves(v):
                    for m, co in tm.poly(alt).items():
                        at = {a.args[0] for b, _ in m for a in tm.atoms(b) if a.op == "atom" and a is not tm.PI}
                        pi = sum(q for b, q in m if b is tm.PI)
                        if at == {"phi_%d_%d" % (y, x)} and (pi != -1 or co != 180):
                            raise Violation("phases in degrees", "phase of pixel (%d,%d) is written as %s" % (y, x, show(alt)), e.get("loc") or "")
                        if not at and pi != 0:
                            raise Violation("phases in degrees", "predicted phase of pixel (%d,%d) is written as %s" % (y, x, show(alt)), e.get("loc") or "")
    c.ob("phases are written in degrees", written)

    def unfitted(kw):
        k = Cal(W, **kw)
        f = k.files("calibration")
        d, e = f["phases.fits"]
        n = 0
        for i in range(k.H // 2):
            for j in range(k.Wd // 2):
                if all(p in k.fits and k.outcome(*p) not in ("fail", "dead") for p in k.superpixel(i, j)):
                    continue
                for p in k.superpixel(i, j):
                    n += 1
                    c.same(sel(d, (const(p[0]), const(p[1]))), const(k.prev[2 * (p[0] % 2) + p[1] % 2]), "written phase of the unfitted pixel %s (degrees)" % (p,), e.get("loc") or "", "phases in degrees")
        return need(n, "the unfitted pixels")
    for what, kw in (("failed fits", {"outcome": lambda y, x: "fail"}), ("one failed fit", {"outcome": lambda y, x: "fail" if (y, x) == (3, 2) else "ok", "prev": PREVS[1]}),
                     ("a dead pixel", {"outcome": lambda y, x: "dead" if (y, x) == (0, 3) else "ok", "prev": PREVS[2]}), ("an occulter", {"occulter": (3, 1, 1), "prev": PREVS[3]}),
                     ("an occulter, grid and binning", {"occulter": (6, 9, 5), "binning": 2, "size": (8, 12), "grid": (1, 3)}),
                     ("an occulter covering the image", {"occulter": (2, 2, 20)})):
        c.ob("phases of unfitted pixels are the previsions in degrees: " + what, unfitted, kw)

    def cwl(pr):
        st = W.st()
        ctx = {"fits_data": lambda I_, s, src, i: I.new_arr(s, rows(lambda y, x: atom("f%s_%d_%d" % (show(src), y, x), "r"), 4, 4), tup(const(4), const(4)), FLOAT, "file"), "exists": lambda p, what: True}
        r = W.call(st, PP + "chen_wan_liang_calibration.calculate_chen_wan_lian_calibration",
                   [lst(W, st, *POLS), lst(W, st, *["/in/p%d.fits" % k for k in range(4)]), lst(W, st, *pr), const("/out/cwl")], {"occulter": FALSE}, ctx)
        returned(r, "Chen-Wang-Liang calibration")
        return need(units(c, r.events), "the Chen-Wang-Liang calibration")
    for pr in PREVS:
        c.ob("Chen-Wang-Liang calibration, previsions %s" % (pr,), cwl, pr)

    def roi(extra):
        st = W.st()
        X = W.plain(st, "X", const(40), const(50))
        r = W.call(st, PP + "linear_roi.linear_roi_from_polar", [X, lst(W, st, 20, 25), atom("theta", "s")], {k: lst(W, st, *v) for k, v in extra.items()}, {})
        n = units(c, r.events, ["theta"])
        for e in r.events:
            if e["kind"] == "trig":
                pass
        return need(n, "linear_roi_from_polar")
    c.ob("linear_roi_from_polar", roi, {})
    c.ob("linear_roi_from_polar with radii", roi, {"r": (5, 12)})

    def polar(rng, H=6, Wd=6):
        """polar angle ranges in degrees"""
        st = W.st()
        data = I.new_arr(st, rows(lambda y, x: atom("s_%d_%d" % (y, x), "r"), H, Wd), tup(const(H), const(Wd)), FLOAT, "input")
        r = returned(W.call(st, PP + "nrgf.roi_from_polar", [data, lst(W, st, 3, 3), lst(W, st, 0, 20)],
                            {"theta": lst(W, st, *rng), "include_superpixels": FALSE, "fill": const(-1)}, {"exact": True}), "roi_from_polar")
        v = I.content(r.st, r.v)
        import math
        for y in range(H):
            for x in range(Wd):
                a = math.degrees(math.atan2(y - 3, x - 3)) % 360
                if any(abs(a - b) < 1e-6 for b in rng) or (y, x) == (3, 3):
                    continue
                c.same(sel(v, (const(y), const(x))), atom("s_%d_%d" % (y, x), "r") if rng[0] < a < rng[1] else const(-1), "pixel (%d,%d) at %.1f degrees" % (y, x, a), key="polar angles in degrees")
    for rng in ((0, 90), (90, 180), (180, 270), (10, 100), (200, 350), (0, 360), (40, 50)):
        c.ob("polar region %s degrees" % (rng,), polar, rng)

    def norm_deg(vals, where="micropolarray.utils.normalize2pi"):
        st = W.st()
        r = returned(W.call(st, where, [lst(W, st, *[const(F(v)) if not isinstance(v, int) else const(v) for v in vals])], {}, {}), "normalize2pi")
        got = I.iter_items(r.st, r.v)
        if got is None:
            raise Und("list")
        for v, g in zip(vals, got):
            w = F(v) % 180
            w = w - 180 if w > 90 else w
            c.same(I.content(r.st, g), const(w), "normalize2pi(%s)" % v, key="normalised angles")
    DEGS = (0, 45, 90, -45, -90, 135, 180, 270, 91, -91, 359, -179, 720, -450, F(181, 2), F(-181, 2))
    c.ob("normalize2pi", norm_deg, DEGS)
    other = "micropolarray.polarization_functions.normalize2pi"
    if other in {m.name + "." + q for m, q, _ in W.repo.functions()}:
        c.ob(other, norm_deg, DEGS, other)

    def norm_rad(vals):
        st = W.st()
        a = I.new_arr(st, mk("stack", tuple(mul(const(v), tm.PI) for v in vals)), tup(const(len(vals))), FLOAT, "input")
        r = returned(W.call(st, "micropolarray.utils.normalize2piarray", [a], {}, {"exact": True}), "normalize2piarray")
        for k, v in enumerate(vals):
            w = v % 1
            w = w - 1 if w > F(1, 2) else w
            c.same(sel(I.content(r.st, r.v), (const(k),)), mul(const(w), tm.PI), "normalize2piarray(%s*pi)" % v, key="normalised angles")
    c.ob("normalize2piarray", norm_rad, tuple(F(a, 12) for a in (0, 3, 6, -3, 7, -7, 9, 13, -11, 25, -20)))


# ---------------------------------------------------------------------------------------------------- C31
def c31(c):
    W = c.w
    I = W.I
    c.rule = ("wiring of the fits: with every sample of every frame a distinct symbol, each curve fit must receive, for one pixel, the normalised "
              "samples of that pixel paired with the orientation of the frame they come from, their Poisson errors, and start values and bounds "
              "of that pixel's micropolarizer")
    c.floor = 12

    def binned(name, n, y, x):
        y0, x0 = 2 * n * (y // 2) + y % 2, 2 * n * (x // 2) + x % 2
        return add(*[atom("%s_%d_%d" % (name, y0 + 2 * i, x0 + 2 * j), "r") for i in range(n) for j in range(n)])

    def wired(kw, tk=None, eff=None):
        extra = {}
        k = Cal(W, extra={n: v for n, v in (("tk_boundary", tk), ("eff_boundary", eff)) if v is not None} and
                {n: mk("tuple", tuple(const(q) for q in v)) for n, v in (("tk_boundary", tk), ("eff_boundary", eff)) if v is not None}, **kw)
        returned(k.r, "calibration")
        del extra
        n = k.binning
        gain = atom("gain", "r")
        cnt = 0
        C0 = None
        for y in range(k.H):
            for x in range(k.Wd):
                got = k.fits.get((y, x))
                key = "samples of a fit"
                if not got:
                    raise Violation(key, "pixel (%d,%d) is never fitted" % (y, x))
                if len(got) != 1:
                    raise Violation(key, "pixel (%d,%d) is fitted %d times" % (y, x, len(got)))
                a = got[0]
                xs, ys = a["xdata"], a["ydata"]
                left = list(range(len(k.pols)))
                S0 = None
                for q in range(len(k.pols)):
                    xv, yv = sel(xs, (const(q),)), sel(ys, (const(q),))
                    fr = k.pixel_of(yv)[1]
                    if len(fr) != 1:
                        raise Und("frame of a sample: %s" % show(yv)[:200])
                    f = fr.pop()
                    if f not in left:
                        raise Violation(key, "the sample of frame %d is used twice in the fit of pixel (%d,%d)" % (f, y, x))
                    left.remove(f)
                    c.same(xv, mul(const(F(k.pols[f], 180)), tm.PI), "orientation paired with frame %d (%d degrees) in the fit of pixel (%d,%d)" % (f, k.pols[f], y, x), key="orientation of a sample")
                    d = mul(k.scale, binned("d%d" % f, n, y, x))
                    if k.norm == "num":
                        S = mul(atom("normS", "r"), const(n * n))
                    elif k.norm == "image":
                        S = binned("S", n, y, x)
                    elif k.norm == "series":
                        S = binned("S%d" % f, n, y, x)
                    else:
                        S = None
                    if kw.get("dark"):
                        dd = sub(d, binned("dark", n, y, x))
                        d = tm.where(cmp("ge", dd, ZERO), dd, ZERO)
                    if S is None or kw.get("flat"):
                        # one normalisation for all samples: sample/data is the same ratio in every frame
                        r = (yv if S is None else mul(yv, S), d)
                        if S0 is None:
                            S0 = r
                        else:
                            c.same(mul(r[0], S0[1]), mul(S0[0], r[1]), "normalisation of the sample of frame %d at pixel (%d,%d)" % (f, y, x), key="normalised sample")
                        if S is not None and q == 0 and not kw.get("dark"):
                            # one level of the flat for all pixels
                            r = (mul(r[0], binned("flat", n, y, x)), r[1])
                            if C0 is None:
                                C0 = r
                            else:
                                c.same(mul(r[0], C0[1]), mul(C0[0], r[1]), "flat correction of pixel (%d,%d)" % (y, x), key="normalised sample")
                    else:
                        c.same(yv, div(d, S), "sample of frame %d at pixel (%d,%d)" % (f, y, x), key="normalised sample")
                    if S is not None and isinstance(a.get("sigma"), T):
                        sg = sel(a["sigma"], (const(q),))
                        w = sqrt(div(yv, mul(S, gain)))
                        c.same(sg, tm.where(cmp("ne", w, ZERO), w, const(F(1, 100000))), "error of the sample of frame %d at pixel (%d,%d)" % (f, y, x), key="error of a sample")
                    cnt += 1
                p0, b = a.get("p0"), a.get("bounds")
                prev = mul(const(F(k.prev[2 * (y % 2) + x % 2], 180)), tm.PI)
                if isinstance(p0, T):
                    c.same(sel(p0, (const(2),)), prev, "start phase of the fit of pixel (%d,%d)" % (y, x), key="start values")
                    for q, v in ((0, tk), (1, eff)):
                        if v is not None:
                            c.same(sel(p0, (const(q),)), const(v[0]), "start value %d of the fit of pixel (%d,%d)" % (q, y, x), key="start values")
                if isinstance(b, T):
                    lo, hi = [[sel(sel(b, (const(s),)), (const(q),)) for q in range(3)] for s in range(2)]
                    c.same(mul(const(F(1, 2)), add(lo[2], hi[2])), prev, "centre of the phase bounds of pixel (%d,%d)" % (y, x), key="bounds")
                    w = cmp("lt", lo[2], hi[2])
                    if w is FALSE:
                        raise Violation("bounds", "phase bounds of pixel (%d,%d) are empty: %s, %s" % (y, x, show(lo[2]), show(hi[2])))
                    for q, v in ((0, tk), (1, eff)):
                        if v is not None:
                            c.same(lo[q], const(v[1]), "lower bound of parameter %d" % q, key="bounds")
                            c.same(hi[q], const(v[2]), "upper bound of parameter %d" % q, key="bounds")
        return "%d samples" % cnt
    MORE = (0, 30, 45, 60, 90, -45)
    SC = [{}, {"scale": F(1, 10 ** 9)}, {"scale": 10 ** 6, "norm": "image"}, {"pols": (90, 0, -45, 45), "size": (4, 6)}, {"pols": (45, -45, 0, 90), "names": ["/z/b.fits", "/y/a.fits", "/x/d.fits", "/w/c.fits"]},
          {"norm": "image"}, {"norm": "series", "pols": (45, 90, 0, -45)}, {"norm": "series", "pols": (90, 45, 0, -45), "binning": 2, "size": (8, 8)},
          {"norm": "image", "binning": 2, "size": (8, 12)}, {"binning": 3, "size": (12, 12)}, {"dark": True}, {"dark": True, "binning": 2, "size": (8, 8)},
          {"flat": True}, {"flat": True, "dark": True, "norm": "image"}, {"norm": None, "pols": (90, 0, 45, -45)}, {"pols": MORE, "prev": PREVS[1]},
          {"pols": MORE[::-1], "prev": PREVS[2], "norm": "series"}, {"size": (4, 8), "grid": (2, 2), "prev": PREVS[3]}, {"pols": (0, 45, 90, 135), "norm": None, "flat": True},
          {"size": (6, 10), "prev": PREVS[1]}]
    for kw in SC:
        c.ob("fits with %s" % (kw or "defaults"), wired, kw)
    c.ob("boundaries given", wired, {"prev": PREVS[1]}, (F(1, 3), F(1, 5), F(3, 4)), (F(2, 3), F(1, 4), F(9, 10)))
    c.ob("transmittance boundaries given", wired, {}, (F(1, 3), F(1, 5), F(3, 4)), None)
    def chisq(kw):
        k = Cal(W, **kw)
        fl = k.files("calibration")
        key = "reduced chi-square"
        got = fl.get("covariance_tensor/reduced_chisquare.fits")
        if got is None:
            raise Violation(key, "the calibration does not write covariance_tensor/reduced_chisquare.fits")
        for y in range(k.H):
            for x in range(k.Wd):
                if (y, x) not in k.fits:
                    raise Und("pixel (%d,%d) is not fitted" % (y, x))
                a = k.fits[(y, x)][0]
                if not isinstance(a.get("sigma"), T):
                    raise Und("no errors given to the fit")
                t, e, p = k.par(y, x)
                tot = []
                for q in range(len(k.pols)):
                    xv, yv, sg = [sel(a[n], (const(q),)) for n in ("xdata", "ydata", "sigma")]
                    m = mul(const(F(1, 2)), t, add(ONE, mul(e, tm.ew("cos", mul(TWO, sub(xv, p))))))
                    tot.append(div(mul(sub(m, yv), sub(m, yv)), mul(sg, sg)))
                c.same(sel(got[0], (const(y), const(x))), div(add(*tot), const(len(k.pols) - 3)), "reduced chi-square of pixel (%d,%d)" % (y, x), key=key)
    for kw in ({}, {"pols": (90, 0, -45, 45), "size": (4, 8), "grid": (2, 2)}, {"pols": MORE, "norm": "image"}):
        c.ob("reduced chi-square with %s" % (kw or "defaults"), chisq, kw)
    if c.tier == "thorough":
        import itertools
        for p in itertools.permutations((0, 45, 90, -45)):
            c.ob("orientations given as %s" % (p,), wired, {"pols": p, "norm": "series"})
