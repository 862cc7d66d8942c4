"""Obligation bookkeeping, verdict policy, evidence, and the scenario builder shared by all checks.

Verdicts of one obligation: ok / violation (positive evidence: a concrete construct and a normal-form difference or an
event) / undetermined (the abstraction lost too much; listed in the evidence, never reported as a violation)."""
from __future__ import annotations
import json
import os
import sys
import time
import traceback

from . import terms as tm
from . import ri
from .repo import Repo, AnalysisBroken, loc
from .interp import Interp, NoReturn, State
from .terms import (T, mk, const, atom, fresh, NONE, TRUE, FALSE, ZERO, ONE, UNDEF, PI, is_const, cval, add, sub, mul, div,
                    neg, cmp, and_, or_, not_, ite, sel, store, ndim, sl, FULL, ew, sqrt, show)
from .models import tup, ref

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TWO = const(2)


class Und(Exception):
    """the obligation cannot be determined by this analysis"""


class Violation(Exception):
    def __init__(self, key, msg, where=""):
        super().__init__(msg)
        self.key, self.msg, self.where = key, msg, where


class Check:
    def __init__(self, prop, tier="quick", seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.items = []        # (id, status, msg, where, key)
        self.functions = set()
        self.counters = {}
        self.rule = ""
        self.assume = []
        self.explanation = ""
        self.floor = 1
        self._w = None
        self.limit, self.each = (600, 120) if tier == "quick" else (800, 400)   # seconds: whole check, one obligation

    # ---- scenario world
    @property
    def w(self):
        if self._w is None:
            self._w = World(self)
        return self._w

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    # ---- obligations
    def ob(self, oid, fn, *args):
        """run one obligation"""
        key = None
        left = self.t0 + self.limit - time.time()
        tm.DEADLINE[0] = time.time() + max(1.0, min(left, self.each))
        try:
            if left <= 0:
                raise Und("time used up")
            r = fn(*args)
            st, msg, where = "ok", (r if isinstance(r, str) else ""), ""
        except Violation as v:
            st, msg, where, key = "violation", v.msg, v.where, v.key
        except Und as u:
            st, msg, where = "undetermined", str(u), ""
        except AnalysisBroken as a:
            st, msg, where = "missing", str(a), ""
        except NoReturn:
            st, msg, where = "undetermined", "analysed call does not return normally", ""
        except tm.Budget:
            st, msg, where = "undetermined", "time limit of one obligation", ""
        except RecursionError:
            st, msg, where = "undetermined", "recursion limit", ""
        except Exception as ex:  # an engine gap is never a violation
            tb = traceback.extract_tb(ex.__traceback__)
            st, msg, where = "undetermined", "internal: %s: %s (%s)" % (type(ex).__name__, ex, "; ".join(
                "%s:%s" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])), ""
            if os.environ.get("MPA_DEBUG"):
                traceback.print_exc()
        finally:
            tm.DEADLINE[0] = None
        self.items.append((oid, st, msg, where, key or oid))
        return st

    # ---- comparing terms
    def same_array(self, st, found, want, what, where="", key=None, assume=(), want_st=None, grid=False, seeds=(1, 2, 3)):
        """two arrays: extents and contents"""
        I = self.w.I
        wst = want_st or st
        sf, sw = I.shape(st, found), I.shape(wst, want)
        shape = None
        if sf.op == "tuple" and sw.op == "tuple":
            if len(sf.args[0]) != len(sw.args[0]):
                raise Violation(key or what, "%s has %d dimensions, expected %d" % (what, len(sf.args[0]), len(sw.args[0])), where)
            for k, (x, y) in enumerate(zip(sf.args[0], sw.args[0])):
                self.same(x, y, "%s: extent %d" % (what, k), where, key, assume)
            shape = tuple(sw.args[0])
        elif sf is not sw:
            raise Und("%s: extents not known" % what)
        self.same(I.content(st, found), I.content(wst, want), what, where, key, assume, shape, shape if grid else None, seeds)

    def same(self, found, want, what, where="", key=None, assume=(), shape=None, grid=None, seeds=(1, 2, 3)):
        """normal forms must agree; a difference is reported only when random interpretation separates them too"""
        self.count("term comparisons")
        if found is want:
            return
        if found is None:
            raise Und("%s: no value" % what)
        v, info = ri.compare(found, want, seeds, assume=assume, shape=shape, grid=grid)
        if v == "ne":
            raise Violation(key or what, "%s is %s, expected %s" % (what, show(found, 7)[:600], show(want, 7)[:600]), where)
        if v == "unk":
            raise Und("%s: cannot compare %s with %s (%s)" % (what, show(found, 5)[:300], show(want, 5)[:300], info))

    def same_frames(self, found, want, frames, what, where="", key=None):
        """comparison of expressions in whole frames: each frame term stands for an arbitrary array of integers"""
        m = {f: mk("fn", "floor", (A2("frame%d" % i),)) for i, f in enumerate(dict.fromkeys(frames)) if f.op != "atom"}
        if isinstance(found, T) and found is not want:
            found, want = tm.subst(found, m), tm.subst(want, m)
        self.same(found, want, what, where, key)

    # ---- finishing
    def finish(self):
        known, fixed = load_known()
        wall = time.time() - self.t0
        viol, knownhit = [], []
        for it in self.items:
            if it[1] == "violation":
                k = [e for e in known if e["property"] == self.prop and e["key"] == it[4]]
                (knownhit if k else viol).append((it, k[0] if k else None))
        n = len(self.items)
        ok = sum(1 for i in self.items if i[1] == "ok")
        und = [i for i in self.items if i[1] == "undetermined"]
        missing = [i for i in self.items if i[1] == "missing"]
        if missing:
            print("ANALYSIS-BROKEN property=%s %s" % (self.prop, "; ".join(sorted({i[2] for i in missing}))))
            rc = 2
        elif n < self.floor:
            print("ANALYSIS-BROKEN property=%s only %d obligations were attempted (at least %d expected)" % (self.prop, n, self.floor))
            rc = 2
        else:
            rc = 0
        evd = os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        w = self._w
        cov = {
            "explanation": self.explanation or self.rule,
            "rule": self.rule,
            "obligations": n, "discharged": ok,
            "undetermined": len(und),
            "undetermined_items": [{"id": i[0], "why": i[2][:300]} for i in und][:60],
            "counters": self.counters,
            "functions_analysed": sorted(w.functions if w else self.functions)[:200],
            "samples": [{"id": i[0], "result": i[1], "detail": i[2][:200]} for i in self.items if i[1] == "ok"][:12],
            "source_digest": w.repo.digest if w else "",
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
              "assumptions": self.assume, "wall_s": round(wall, 3), "violations": len(viol)}
        if viol:
            cov["violation_list"] = [{"id": v[0][0], "key": v[0][4], "msg": v[0][2], "where": v[0][3]} for v in viol]
        with open(os.path.join(evd, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for it, k in knownhit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        print("%s %s: %d obligations, %d discharged, %d undetermined, %d violations (%.1fs)" % (
            self.prop, self.tier, n, ok, len(und), len(viol), wall))
        if viol:
            rp = os.path.join(evd, self.prop + ".report.txt")
            with open(rp, "w") as f:
                f.write("property %s\nrule: %s\n\n" % (self.prop, self.rule))
                for it, _ in viol:
                    f.write("obligation %s\n  construct: %s\n  key: %s\n  %s\n\n" % (it[0], it[3], it[4], it[2]))
            for it, _ in viol[:20]:
                print("  %s: %s [%s] at %s" % (it[0], it[2][:400], it[4], it[3]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return rc


def load_known():
    """known_findings.txt: 'finding: property=<id> key=<key> :: <what>' and 'fixed: property=<id> <commit> <what>'"""
    known, fixed = [], []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                head, _, what = line[len("finding:"):].partition("::")
                head, _, key = head.partition(" key=")
                known.append({"property": head.split("property=")[-1].strip(), "key": key.strip(), "what": what.strip()})
            elif line.startswith("fixed:"):
                fixed.append(line)
    return known, fixed


SOFT = {"AttributeError", "TypeError", "RecursionError", "MemoryError", "Exception", "OSError", "StopIteration"}


def returned(r, what, key=None):
    """a call that is required to return: a definite exception on every path is a violation, anything else is undetermined"""
    if r.ok:
        return r
    names = [x[1] for x in r.raised]
    if names and not set(names) & SOFT and all(isinstance(n, str) for n in names):
        nd = r.raised[0][2]
        raise Violation(key or what, "%s does not return for valid input: raises %s" % (what, "/".join(sorted(set(names)))),
                        loc(nd) if nd is not None else "")
    raise Und("%s does not return" % what)


# =====================================================================================================
h, w_ = atom("h", "p"), atom("w", "p")
FLOAT = mk("ext", "builtins.float")
IMG = "micropolarray.micropol_image.MicropolImage"
BASE = "micropolarray.image.Image"
DEMOD = "micropolarray.processing.demodulation.Demodulator"


def A2(name, H=h, W=w_):
    a = atom(name, "a", 2)
    ri.SHAPES[a] = (H, W)
    return a


class World:
    """abstract scenarios over one load of the analysed package"""

    def __init__(self, check):
        self.check = check
        self.repo = Repo()
        self.I = Interp(self.repo)
        self.functions = set()
        self.cache = {}
        self.frame = FLOAT      # element type of the given data arrays and of the frames read from files

    def st(self):
        return self.I.fresh_state()

    # ---- running
    def run(self, st, fv, args=(), kw=None, ctx=None):
        r = self.I.run(st, fv, list(args), kw or {}, ctx)
        for e in r.events:
            if e["kind"] in ("enter", "kernelcall"):
                f = e.get("name") or e.get("fn")
                if f:
                    self.functions.add(str(f))
        return r

    def fn(self, st, dotted):
        return self.I.get(st, dotted)

    def call(self, st, dotted, args=(), kw=None, ctx=None):
        """(result) of a public function; the state is r.st"""
        return self.run(st, self.fn(st, dotted), args, kw, ctx)

    def meth(self, st, obj, name, args=(), kw=None, ctx=None):
        f = self.attr(st, obj, name)
        if f is None:
            raise AnalysisBroken("public method %s not found" % name)
        return self.run(st, f, args, kw, ctx)

    def attr(self, st, obj, name, ctx=None):
        I = self.I
        old = (I.events, I.sinks, I.stack, I.handlers, I.loops, I.ctx)
        I.events, I.sinks, I.stack, I.handlers, I.loops = [], [[]], [], [], ()
        if ctx is not None:
            I.ctx = ctx
        try:
            return I.getattr(st, obj, name, None)
        except NoReturn:
            return None
        finally:
            I.events, I.sinks, I.stack, I.handlers, I.loops, I.ctx = old

    def val(self, st, obj, name):
        v = self.attr(st, obj, name)
        if v is None:
            raise Und("attribute %s not available" % name)
        return self.I.content(st, v)

    def content(self, st, v):
        return self.I.content(st, v)

    def param(self, st, obj, name):
        p = self.attr(st, obj, name)
        if p is None:
            raise Und("parameter %s not available" % name)
        return self.val(st, p, "data")

    # ---- inputs
    def arr(self, st, term, H, W, origin="input", dtype=FLOAT):
        return self.I.new_arr(st, term, tup(H, W), dtype, origin)

    def fam(self, prefix, H=h, W=w_):
        return [A2("%s%d" % (prefix, k), H, W) for k in range(4)]

    def data(self, st, prefix="P", H=h, W=w_, origin="input"):
        """a (2H, 2W) micropolarizer data array whose pixel families are opaque (H, W) arrays"""
        return self.I.new_arr(st, mk("inter", tuple(self.fam(prefix, H, W))), tup(mul(TWO, H), mul(TWO, W)), self.frame, origin)

    def plain(self, st, name, H, W, origin="input"):
        return self.I.new_arr(st, A2(name, H, W), tup(H, W), self.frame, origin)

    def angles(self, st, perm=None):
        if perm is None:
            return None
        return self.I.new_dict(st, [(const(a), const(k)) for a, k in perm], origin="input")

    def image(self, st, prefix="P", H=h, W=w_, angles=None, demosaic=None, cls=IMG, header=False, kw=None, ops=()):
        """construct an image through the public constructor and apply operations to it; returns the reference"""
        kw = dict(kw or {})
        if angles is not None:
            kw["angle_dic"] = self.angles(st, angles)
        r = self.run(st, self.fn(st, cls), [self.data(st, prefix, H, W)], kw)
        if not r.ok:
            raise Und("the image constructor does not return")
        st.become(r.st)
        img = r.v
        if header:
            hd = self.attr(st, img, "header")
            if hd is not None:
                self.I.setitem(st, hd, const("CARD_" + prefix), atom("card_" + prefix, "x"), None)
        if demosaic is not None:
            r = self.meth(st, img, "demosaic", [const(demosaic)] if demosaic else [])
            if not r.ok:
                raise Und("demosaic() does not return")
            st.become(r.st)
        for n, (name, arg) in enumerate(ops):
            a = [self.image(st, arg[1:], H, W)] if str(arg).startswith("@") else [const(arg)] if arg is not None else []
            r = self.meth(st, img, name, a)
            if not r.ok:
                raise Und("%s() does not return" % name)
            st.become(r.st)
        return img

    def demodulator(self, st, H=h, W=w_, flags=True, files=None, pre="/cal"):
        ctx = self.demod_ctx(H, W, flags, files, pre)
        r = self.run(st, self.fn(st, DEMOD), [const(pre)], {}, ctx)
        if not r.ok:
            raise Und("the demodulator constructor does not return")
        st.become(r.st)
        return r.v, ctx

    def demod_ctx(self, H=h, W=w_, flags=True, files=None, pre="/cal"):
        names = files if files is not None else ["M%d%d.fits" % (i, j) for i in range(3) for j in range(4)] + (
            ["fit_found_flag.fits"] if flags else []) + ["phases.fits", "transmittancies.fits", "efficiences.fits"]
        full = [pre + "/" + n for n in names]

        def glob(pattern):
            import fnmatch
            p = pattern
            out = [f for f in full if fnmatch.fnmatch(f, p) and f.count("/") == p.count("/")]
            return out

        def exists(path, what):
            return path == pre or path in full or None

        def fits_data(I, st, src, i):
            s = cval(src) if is_const(src) else None
            nm = os.path.basename(str(s)) if s is not None else show(src)
            if nm.startswith("M") and nm[1:3].isdigit():
                a = A2("m_" + nm[1:3], H, W)
                return I.new_arr(st, a, tup(H, W), FLOAT, "file")
            if nm == "fit_found_flag.fits":
                a = A2("flag", H, W)
                return I.new_arr(st, a, tup(H, W), FLOAT, "file")
            a = A2("file_" + nm, mul(TWO, H), mul(TWO, W))
            return I.new_arr(st, a, tup(mul(TWO, H), mul(TWO, W)), FLOAT, "file")
        return {"glob": glob, "exists": exists, "fits_data": fits_data}

    # ---- heaps
    def reach(self, st, *vs, stop=()):
        """ids of mutable objects reachable from values -> access path"""
        out = {}

        def go(v, path):
            if not isinstance(v, T):
                return
            if v.op == "ref":
                o = st.heap.get(v.args[0])
                if o is None:
                    return
                if o.kind == "view":
                    go(o.f["base"], path)
                    return
                if o.kind in ("env", "frame"):
                    return
                if v.args[0] in out:
                    return
                out[v.args[0]] = path
                for k, x in o.f.items():
                    if k in stop or (o.kind == "arr" and k in ("val", "shape", "dtype")):
                        continue
                    go(x, path + (k if k.startswith(".") else "[%s]" % k))
                return
            if v.op == "func":
                return
            if v in seen:
                return
            seen.add(v)
            for c in tm.children(v):
                go(c, path)
        seen = set()
        for n, v in enumerate(vs):
            go(v, "arg%d" % n)
        return out

    def snapshot(self, st, *vs):
        """content of everything reachable: {oid: {field: term}}"""
        s = {}
        for oid, path in self.reach(st, *vs).items():
            o = st.heap[oid]
            s[oid] = (path, o.kind, dict(o.f))
        return s

    def frozen_diff(self, st0, snap, st1):
        """changes of the snapshot objects in st1: list of (path, field, before, after)"""
        ch = []
        for oid, (path, kind, f) in snap.items():
            o = st1.heap.get(oid)
            if o is None:
                continue
            for k, before in f.items():
                after = o.f.get(k)
                if after is None or after is before:
                    continue
                ch.append((path, k, before, after, oid))
        return ch


def angle_of(I, st, img, W):
    d = W.attr(st, img, "angle_dic")
    return d


def split_spec(c):
    """families of a 2-D image content (specification)"""
    return [sel(c, (sl(const(j), NONE, TWO), sl(const(i), NONE, TWO))) for j in range(2) for i in range(2)]


DEFAULT = [(0, 0), (45, 1), (-45, 2), (90, 3)]
CUSTOM = [(90, 0), (45, 1), (-45, 2), (0, 3)]
SHUFFLED = [(45, 3), (0, 2), (90, 1), (-45, 0)]


def stokes_spec(fams, angles):
    d = dict(angles)
    I = mul(const(tm.Fraction(1, 2)), add(*fams))
    Q = sub(fams[d[0]], fams[d[90]])
    U = sub(fams[d[45]], fams[d[-45]])
    return [I, Q, U]
