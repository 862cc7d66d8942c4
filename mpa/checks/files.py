"""C11 (names rejected), C12 (saved quantities), C13 (raw conversion), C14 (raw decoding), C25 (loading several files):
file effects of the saving, converting and loading operations, read off the effect summary of each operation."""
from __future__ import annotations
import datetime
import posixpath
from ..check import *
from ..catalogue import P, PP, lst, calib_ctx
from .arrays import against, must_raise, Res, H2, W2
from .. import terms as tm
from .. import npmodel as npm
from .. import bits

U16 = mk("ext", "numpy.uint16")


def final_files(evs, what):
    """{path: (data, header, event)} and the removed paths after the file effects evs"""
    files, gone = {}, []
    for e in evs:
        op, p = e["op"], e["path"]
        if op == "mkdir":
            continue
        if e["loops"]:
            raise Und("%s: file effect inside an unsummarised loop" % what)
        if not is_const(p):
            raise Und("%s: file name not known: %s" % (what, show(p, 4)[:80]))
        p = str(cval(p))
        if op == "write":
            files[p] = (e.get("data"), e.get("header"), e)
        elif op == "remove":
            gone.append(p)
            files.pop(p, None)
        elif op == "rename" and e.get("to") is not None and is_const(e["to"]):
            q = str(cval(e["to"]))
            files[q] = files.pop(p, (None, None, e))
            gone.append(p)
        else:
            raise Und("%s: effect %s" % (what, op))
    return files, gone


def fs(r):
    return [e for e in r.events if e["kind"] == "fs"]


def unconditional(e, st, what):
    for p in e["pc"]:
        if p not in st.pc and p is not tm.TRUE:
            raise Und("%s: writes only under a condition (%s)" % (what, show(p, 3)[:80]))


def cards(h):
    """{name: value term} of a header built from known cards, or None"""
    if h is None or not isinstance(h, T) or h.op != "dictc":
        return None
    return {cval(k): v for k, v in h.args[0] if is_const(k)}


SAVE = {
    "save_as_fits": lambda fn: [const(fn)],
    "save_as_raw": lambda fn: [const(fn)],
    "save_single_pol_images": lambda fn: [const(fn)],
    "save_param_as_fits": lambda fn: [const("Q"), const(fn)],
    "save_all_pol_params_as_fits": lambda fn: [const(fn)],
    "save_demosaiced_images_as_fits": lambda fn: [const(fn)],
}
PARAMS = ["I", "Q", "U", "pB", "AoLP", "DoLP"]


# ---------------------------------------------------------------------------------------------------- C11
def c11(c):
    W = c.w
    c.rule = ("for every saving or converting operation and every name without the required extension, every path of the operation ends in an "
              "exception and no path performs a file-system effect first")
    c.floor = 60
    c.assume = ["names are concrete representatives of the invalid classes (no extension, other extension, compressed, folder, hidden, upper case)"]

    def check(what, r, key):
        for e in fs(r) + r.evs("fsfault"):
            raise Violation(key, "%s: %s %s before (or instead of) rejecting the name" % (what, e["op"], show(e["path"], 3)), e.get("loc") or "")
        for e in r.evs("open"):
            if e.get("mode") is not None and is_str_mode(e["mode"]):
                raise Violation(key, "%s opens a file for writing" % what, e.get("loc") or "")
        if r.ok:
            raise Violation(key, "%s returns normally" % what, "")
        if not r.raised:
            raise Und("no path ends")
        c.count("invalid names")

    BADFITS = ["/out/a", "a", "/out/a.txt", "/out/a.fits.gz", "/out/new dir/", "/out/new/.fits", "/out/a.fit", "/out/a.fitsx", "/out/fits",
               "/out/x.fits/a.png", "sub/dir/b.raw"]
    BADRAW = ["/out/a", "/out/a.txt", "/out/a.fits", "/out/a.rawx", "sub/raw", "/out/x.raw/a"]

    def save(cls, variant, name, fn, kw=None):
        st = W.st()
        img = W.image(st, "P", header=True, cls=cls, **variant)
        k = {}
        if kw:
            k["fixto"] = W.I.new_list(st, [ZERO, ONE])
        r = W.meth(st, img, name, SAVE[name](fn), k)
        check("%s(%r)" % (name, fn), r, name)
    for name in SAVE:
        for fn in (BADRAW if name == "save_as_raw" else BADFITS):
            if name == "save_demosaiced_images_as_fits":
                c.ob("%s(%r)" % (name, fn), save, IMG, dict(demosaic="mean"), name, fn)
                continue
            c.ob("%s(%r)" % (name, fn), save, IMG, {}, name, fn)
            if name in ("save_as_fits", "save_as_raw"):
                c.ob("Image.%s(%r)" % (name, fn), save, BASE, {}, name, fn)
    for name in ("save_as_fits", "save_single_pol_images", "save_param_as_fits"):
        c.ob("%s with limits" % name, save, IMG, {}, name, "/out/a.png", True)
        c.ob("%s on a demosaiced image" % name, save, IMG, dict(demosaic="mean"), name, "/out/a.png")

    def early(fn):
        st = W.st()
        img = W.image(st, "P", header=True)
        r = W.meth(st, img, "save_demosaiced_images_as_fits", [const(fn)])
        check("save_demosaiced_images_as_fits before demosaicing", r, "save_demosaiced_images_as_fits before demosaic")
    for fn in ("/out/a.fits", "/out/a.png", "/out/new/a"):
        c.ob("demosaiced images not available (%s)" % fn, early, fn)

    def param(p, fn):
        st = W.st()
        img = W.image(st, "P", header=True)
        r = W.meth(st, img, "save_param_as_fits", [p, const(fn)])
        check("save_param_as_fits of %s" % show(p), r, "save_param_as_fits parameter name")
    for p in (const("V"), const("aolp"), const("pol135"), const(""), const("Stokes"), const("I ")):
        c.ob("unknown parameter %s" % show(p), param, p, "/out/new/a.fits")

    def conv(fnname, args, kw=None):
        st = W.st()
        r = W.call(st, fnname, args(st), kw or {})
        check("%s" % fnname.split(".")[-1], r, fnname.split(".")[-1])
    for bad in ("/out/a", "/out/a.raw", "/out/a.fits.bak", "o/fits", "/out/a.bin"):
        two = lambda st: lst(W, st, "/in/a.raw", "/in/b.raw")
        c.ob("merge_rawfiles_to_fits to %r" % bad, conv, P + "merge_rawfiles_to_fits", lambda st, bad=bad: [two(st), const(bad), h, w_])
        c.ob("average_rawfiles_to_fits to %r" % bad, conv, P + "average_rawfiles_to_fits", lambda st, bad=bad: [two(st), const(bad), h, w_])
        c.ob("convert_set to %r" % bad, conv, P + "convert_set", lambda st, bad=bad: [two(st), const(bad), const(1952), const(1952)])
    for bad in ("/in/a.fits", "/in/a", "/in/a.raw.txt", "/in/a.raw/b", "/in/raw", "/in/a.RAW2", "/in/a.fits.raw2", "/in/a.bin"):
        for rm in (FALSE, TRUE):
            c.ob("convert_rawfile_to_fits of %r%s" % (bad, " removing" if rm is TRUE else ""), conv, P + "convert_rawfile_to_fits",
                 lambda st, bad=bad: [const(bad), h, w_], {"remove_old": rm})


def is_str_mode(m):
    return isinstance(m, T) and is_const(m) and isinstance(cval(m), str) and any(x in cval(m) for x in "wax+")


# ---------------------------------------------------------------------------------------------------- C12
VAR = {
    "plain": {},
    "custom": dict(angles=CUSTOM),
    "shuffled": dict(angles=SHUFFLED),
    "demosaiced": dict(demosaic="mean"),
    "demosaiced adjacent shuffled": dict(demosaic="adjacent", angles=SHUFFLED),
}
LIMITS = {
    "no limits": None, "0..10": (0, 10), "-5..0": (-5, 0), "0..0": (0, 0), "lo..hi": ("lo", "hi"), "tuple 0..7": (0, 7),
}


def c12(c):
    W = c.w
    c.rule = ("effect summary of a saving operation: the set of files it writes = the requested set (directory and stem of the given name, "
              "one file per quantity, right suffix), and the data term of each file = the named quantity (clipped by the given limits); the "
              "image is unchanged")
    c.floor = 60

    def lim(st, name):
        v = LIMITS[name]
        if v is None:
            return {}, None
        lo, hi = [atom(x, "s") if isinstance(x, str) else const(x) for x in v]
        o = tup(lo, hi) if name.startswith("tuple") else W.I.new_list(st, [lo, hi], origin="input")
        return {"fixto": o}, (lo, hi)

    def clip(st, term, shape, limits):
        a = W.I.new_arr(st, term, shape, FLOAT, "input")
        if limits is None:
            return a
        r = W.call(st, "mpaspec.clipped", [a, limits[0], limits[1]])
        returned(r, "reference definition")
        st.become(r.st)
        return r.v

    def expected(st, img, variant, name, arg):
        """{suffix without separators: array term, shape, card}"""
        perm = dict(VAR[variant].get("angles", DEFAULT)) if variant in VAR else dict(DEFAULT)
        if name == "save_single_pol_images":
            return {"POL%d" % a: (A2("P%d" % k), tup(h, w_), a) for a, k in perm.items()}
        if name == "save_demosaiced_images_as_fits":
            d = W.attr(st, img, "demosaiced_images")
            D = W.content(st, d)
            return {"POL%d" % a: (sel(D, (const(k),)), tup(H2, W2), a) for a, k in perm.items()}
        ids = PARAMS if name == "save_all_pol_params_as_fits" else [arg]
        out = {}
        for p in ids:
            po = W.attr(st, img, p)
            dt = W.attr(st, po, "data")
            out[p] = (W.content(st, dt), W.I.shape(st, dt), None)
        return out

    def state_of(st, img):
        s = W.snapshot(st, img)
        return s

    def run(cls, variant, name, fn, limits="no limits", arg=None):
        st = W.st()
        if variant == "demodulated":
            base = W.image(st, "P", header=True)
            d, dctx = W.demodulator(st)
            r0 = W.meth(st, base, "demodulate", [d])
            if not r0.ok:
                raise Und("demodulate() does not return")
            st.become(r0.st)
            img = r0.v
        else:
            img = W.image(st, "P", header=True, cls=cls, **VAR[variant])
        kw, lims = lim(st, limits)
        data = W.attr(st, img, "data")
        before = W.content(st, data)
        whole = name in ("save_as_fits", "save_as_raw")
        exp = {} if whole else expected(st, img, variant, name, arg)
        st0 = st.copy()
        snap = W.snapshot(st, img)
        r = W.meth(st, img, name, ([const(arg)] if arg else []) + [const(fn)], kw)
        returned(r, name)
        ev = fs(r)
        files, gone = final_files(ev, name)
        key = name
        absfn = fn if fn.startswith("/") else "/CWD/" + fn
        d, b = posixpath.split(absfn)
        stem, ext = posixpath.splitext(b)
        assume = [cmp("le", lims[0], lims[1])] if lims and limits == "lo..hi" else []
        for p in gone:
            raise Violation(key, "%s removes or moves away %s" % (name, p), "")
        got = {}
        for p, (dat, hdr, e) in files.items():
            unconditional(e, r.st, name)
            pd, pb = posixpath.split(p)
            if pd != d:
                raise Violation(key, "%s writes %s, outside the directory of %s" % (name, p, absfn), e.get("loc") or "")
            if whole:
                if p != absfn:
                    raise Violation(key, "%s writes %s instead of %s" % (name, p, absfn), e.get("loc") or "")
                got[""] = (dat, hdr, e)
                continue
            if not (pb.startswith(stem) and pb.endswith(ext)):
                raise Violation(key, "%s writes %s, not named after %s" % (name, p, absfn), e.get("loc") or "")
            rest = pb[len(stem):-len(ext)].strip("_")
            if rest not in exp:
                raise Violation(key, "%s writes %s, which names none of %s" % (name, p, ", ".join(sorted(exp))), e.get("loc") or "")
            if rest in got:
                raise Violation(key, "%s writes two files for %s" % (name, rest), e.get("loc") or "")
            got[rest] = (dat, hdr, e)
        if whole:
            want = {"": (before, tup(H2, W2), None)}
        else:
            want = exp
        missing = sorted(set(want) - set(got))
        if missing:
            raise Violation(key, "%s writes no file for %s" % (name, ", ".join(m or absfn for m in missing)), "")
        st2 = r.st
        for q, (dat, hdr, e) in got.items():
            wt, shp, card = want[q]
            c.count("files compared")
            if dat is None or dat is NONE:
                raise Und("%s: written data not known" % name)
            w = clip(st2, wt, shp, lims)
            wv = W.content(st2, w)
            if name == "save_as_raw":
                wv = mk("fn", "astype", (wv, const("int16")))
            c.same(dat, wv, "%s: content of %s" % (name, q or "the file"), e.get("loc") or "", key, assume, tuple(shp.args[0]) if shp.op == "tuple" else None)
            cd = cards(hdr)
            if cd is not None and name != "save_as_raw":
                if "CARD_P" not in cd or cd["CARD_P"] is not atom("card_P", "x"):
                    raise Violation(key, "%s does not write the header of the image" % name, e.get("loc") or "")
                if card is not None and "POL" in cd:
                    v = cd["POL"]
                    v = v.args[0][0] if v.op in ("stack", "tuple") else v
                    if is_const(v) and str(cval(v)) != str(card):
                        raise Violation(key, "%s: file %s has the POL card %s" % (name, q, cval(v)), e.get("loc") or "")
                if q in PARAMS and "PARAM" in cd:
                    v = cd["PARAM"]
                    v = v.args[0][0] if v.op in ("stack", "tuple") else v
                    t = W.content(st2, W.attr(st2, W.attr(st2, img, q), "title"))
                    if is_const(v) and is_const(t) and cval(v) != cval(t):
                        raise Violation(key, "%s: file %s has the PARAM card %r" % (name, q, cval(v)), e.get("loc") or "")
        # the image in memory
        for path, f, b0, a0, oid in W.frozen_diff(st0, snap, r.st):
            if r.st.heap[oid].kind == "arr" and f == "val":
                v, _ = ri.compare(a0, b0) if isinstance(a0, T) and isinstance(b0, T) else ("unk", "")
                if v == "ne":
                    raise Violation(key + " changes the image", "%s modifies the image in memory (%s)" % (name, path[4:]), "")
            elif r.st.heap[oid].kind == "dict" and f not in (".version",):
                raise Violation(key + " changes the image", "%s modifies the header or a dictionary of the image (%s %s)" % (name, path[4:], f), "")
        return "%d files" % len(got)

    NAMES = {"fits": ["/out/d.x/run.1.fits", "sub/a.fits", "plain.fits"], "raw": ["/out/d.x/run.1.raw", "sub/a.raw"]}
    for cls, cn in ((IMG, "MicropolImage"), (BASE, "Image")):
        for name in ("save_as_fits", "save_as_raw"):
            for fn in NAMES["raw" if name == "save_as_raw" else "fits"]:
                c.ob("%s.%s(%r)" % (cn, name, fn), run, cls, "plain", name, fn)
    lims = [l for l in LIMITS if l != "no limits"]
    for l in lims:
        c.ob("save_as_fits with limits %s" % l, run, IMG, "plain", "save_as_fits", "/out/a.fits", l)
    for v in list(VAR) + ["demodulated"]:
        c.ob("save_as_fits on a %s image" % v, run, IMG, v, "save_as_fits", "/out/a.fits")
        for fn in NAMES["fits"][:1 if v not in ("plain", "custom") else 3]:
            c.ob("save_single_pol_images(%r) on a %s image" % (fn, v), run, IMG, v, "save_single_pol_images", fn)
            c.ob("save_all_pol_params_as_fits(%r) on a %s image" % (fn, v), run, IMG, v, "save_all_pol_params_as_fits", fn)
            if v.startswith("demosaiced"):
                c.ob("save_demosaiced_images_as_fits(%r) on a %s image" % (fn, v), run, IMG, v, "save_demosaiced_images_as_fits", fn)
        for p in PARAMS:
            if v in ("plain", "shuffled", "demosaiced", "demodulated"):
                c.ob("save_param_as_fits(%s) on a %s image" % (p, v), run, IMG, v, "save_param_as_fits", NAMES["fits"][0], "no limits", p)
    for l in lims:
        c.ob("save_single_pol_images with limits %s" % l, run, IMG, "custom", "save_single_pol_images", "/out/a.b.fits", l)
        for p in ("I", "Q", "AoLP"):
            c.ob("save_param_as_fits(%s) with limits %s" % (p, l), run, IMG, "plain", "save_param_as_fits", "/out/a.fits", l, p)
        c.ob("save_demosaiced_images_as_fits with limits %s" % l, run, IMG, "demosaiced", "save_demosaiced_images_as_fits", "/out/a.fits", l)
    for fn in NAMES["fits"][1:]:
        c.ob("save_demosaiced_images_as_fits(%r)" % fn, run, IMG, "demosaiced", "save_demosaiced_images_as_fits", fn)


# ---------------------------------------------------------------------------------------------------- C13
def raw(p):
    return mk("fn", "rawdata", (mk("fn", "bytes", (const(p),)), const("uint16")))


def c13(c):
    W = c.w
    c.rule = ("effect order of the conversions: the result is written to the right name, the source is removed only when asked for, and no "
              "path (with every read, write and rename failing in turn) removes a source before the result is in place")
    c.floor = 40
    c.assume = ["a file-system call either happens completely or raises OSError without effect"]
    SRC = ["/in/a.raw", "/in/x.raw1/f.raw", "../f.raw", "frames/run.01.raw", "/in/f.raw.raw", "/in/.hidden.raw", "/a.b/c d.raw"]

    def absn(p):
        return posixpath.normpath(posixpath.join("/CWD", p))

    def out_ok(r, what, want, dat, src, removed, key, frames=()):
        files, gone = final_files(fs(r), what)
        for p in files:
            if p != want:
                raise Violation(key, "%s writes %s instead of %s" % (what, p, want), files[p][2].get("loc") or "")
        if want not in files:
            raise Violation(key, "%s leaves no file %s" % (what, want), "")
        e = files[want][2]
        unconditional(e, r.st, what)
        if files[want][0] is None or files[want][0] is NONE:
            raise Und("%s: data not known" % what)
        c.same_frames(files[want][0], dat, frames, "%s: written frame" % what, e.get("loc") or "", key)
        gone = [g for g in gone if not any(x["op"] == "rename" and str(cval(x["path"])) == g for x in fs(r))]
        if sorted(set(gone)) != sorted(removed):
            raise Violation(key, "%s removes %s, expected %s" % (what, gone or "nothing", removed or "nothing"), "")

    def order(r, what, want, key):
        done = False
        for e in fs(r):
            p = str(cval(e["path"])) if is_const(e["path"]) else None
            to = str(cval(e["to"])) if e.get("to") is not None and is_const(e["to"]) else None
            if (e["op"] == "write" and p == want) or (e["op"] == "rename" and to == want):
                done = True
            elif e["op"] == "remove" and not done:
                raise Violation(key, "%s removes %s before the result is written" % (what, p), e.get("loc") or "")

    def one(src, rm):
        st = W.st()
        what = "convert_rawfile_to_fits(%r, remove_old=%s)" % (src, rm is TRUE)
        key = "convert_rawfile_to_fits"
        kw = {} if rm is None else {"remove_old": rm}
        r = W.call(st, P + "convert_rawfile_to_fits", [const(src), h, w_], kw)
        returned(r, what)
        a = absn(src)
        want = a[:-4] + ".fits"
        order(r, what, want, key)
        out_ok(r, what, want, raw(a), a, [a] if rm is TRUE else [], key, [raw(a)])

    for s in SRC:
        for rm in (None, FALSE, TRUE):
            c.ob("convert %r remove_old=%s" % (s, {None: "default", FALSE: False, TRUE: True}[rm]), one, s, rm)

    def faults(fnname, args, kw, sources, want, what):
        """every effect of the operation fails in turn"""
        k = 0
        while k < 12:
            cnt = [0]
            seen = []

            def fault(op, path):
                cnt[0] += 1
                if cnt[0] - 1 == k:
                    seen.append((op, show(path, 3)))
                    return True
                return False
            st = W.st()
            r = W.call(st, fnname, args(st), kw, {"fault": fault})
            if not seen:
                break
            c.count("failure points")
            order_f(r, what, want, sources, seen[0])
            k += 1
        if k == 0:
            raise Und("no effect")
        return "%d failure points" % k

    def order_f(r, what, want, sources, failed):
        done = False
        for e in fs(r):
            p = str(cval(e["path"])) if is_const(e["path"]) else None
            to = str(cval(e["to"])) if e.get("to") is not None and is_const(e["to"]) else None
            if (e["op"] == "write" and p == want) or (e["op"] == "rename" and to == want):
                done = True
            elif e["op"] == "remove" and p in sources and not done:
                raise Violation(what + ": source removed", "%s: when %s of %s fails the source %s is removed although no result was written" % (
                    what, failed[0], failed[1], p), e.get("loc") or "")
    for s in SRC[:4]:
        a = absn(s)
        c.ob("failures while converting %r" % s, faults, P + "convert_rawfile_to_fits", lambda st, s=s: [const(s), h, w_], {"remove_old": TRUE},
             [a], a[:-4] + ".fits", "convert_rawfile_to_fits")
    three = lambda st: lst(W, st, "/in/a.raw", "/in/b.raw", "c.raw")
    for fn, ex in (("merge_rawfiles_to_fits", [h, w_]), ("average_rawfiles_to_fits", [h, w_]), ("convert_set", [const(1952), const(1952)])):
        c.ob("failures in %s" % fn, faults, P + fn, lambda st, ex=ex: [three(st), const("o/s.fits")] + ex, {},
             ["/in/a.raw", "/in/b.raw", "/CWD/c.raw"], "/CWD/o/s.fits", fn)

    def multi(fn, kw, scale, out, files):
        st = W.st()
        r = W.call(st, P + fn, [lst(W, st, *files) if len(files) != 1 or fn == "x" else const(files[0]), const(out), h, w_], kw)
        what = "%s(%s)" % (fn, ", ".join("%s=%s" % (k, cval(v)) for k, v in kw.items()))
        returned(r, what)
        want = absn(out)
        n = len(files)
        tot = add(*[raw(absn(f)) for f in files])
        if scale:
            tot = mul(const(tm.Fraction(1, n)), tot)
        order(r, what, want, fn)
        out_ok(r, what, want, tot, None, [], fn, [raw(absn(f)) for f in files])
    sets = [["/in/a.raw", "/in/b.raw", "c.raw"], ["/in/a.raw", "/in/b.raw"], ["/in/a.raw", "/in/a.raw", "/in/b.raw"], ["/in/a.raw"],
            ["/in/%d.raw" % k for k in range(5)]]
    for fs_ in sets:
        for out in ("o/s.fits", "/out/d.1/run.2.fits"):
            c.ob("merge_rawfiles_to_fits of %d files to %s" % (len(fs_), out), multi, "merge_rawfiles_to_fits", {}, False, out, fs_)
            c.ob("merge (average) of %d files to %s" % (len(fs_), out), multi, "merge_rawfiles_to_fits", {"mode": const("average")}, True, out, fs_)
            c.ob("merge (sum) of %d files to %s" % (len(fs_), out), multi, "merge_rawfiles_to_fits", {"mode": const("sum")}, False, out, fs_)
            c.ob("average_rawfiles_to_fits of %d files to %s" % (len(fs_), out), multi, "average_rawfiles_to_fits", {}, True, out, fs_)

    def conv_set(out, files):
        st = W.st()
        r = W.call(st, P + "convert_set", [lst(W, st, *files), const(out), const(1952), const(1952)])
        returned(r, "convert_set")
        want = absn(out)
        order(r, "convert_set", want, "convert_set")
        parts = []
        st2 = r.st
        for f in files:
            q = W.call(st2, PP + "convert.nparr_from_binary", [const(f)])
            returned(q, "nparr_from_binary")
            parts.append(W.content(q.st, q.v))
        out_ok(r, "convert_set", want, mul(const(tm.Fraction(1, len(files))), add(*parts)), None, [], "convert_set", parts)
    for fl in (["/in/a.bin", "/in/b.bin"], ["/in/a.bin"], ["/in/a.bin", "b.bin", "c.bin"]):
        c.ob("convert_set of %d files" % len(fl), conv_set, "o/s.fits", fl)

    def notraw(src, rm):
        st = W.st()
        r = W.call(st, P + "convert_rawfile_to_fits", [const(src), h, w_], {"remove_old": rm})
        for e in fs(r):
            raise Violation("convert_rawfile_to_fits of a non-raw file", "convert_rawfile_to_fits(%r): %s %s" % (src, e["op"], show(e["path"], 3)), e.get("loc") or "")
        must_raise(c, r, "convert_rawfile_to_fits(%r)" % src, key="convert_rawfile_to_fits of a non-raw file")
    for s in ("/in/a.fits", "/in/a", "/in/a.raw.bak", "/in/a.raw/b.dat", "/in/raw", "/in/araw2", "/in/a.bin", "/in/a.tiff", "/in/a"):
        for rm in (FALSE, TRUE):
            c.ob("non-raw %r remove_old=%s" % (s, rm is TRUE), notraw, s, rm)


# ---------------------------------------------------------------------------------------------------- C14
def c14(c):
    W = c.w
    c.rule = ("bit provenance: every bit of every decoded sample is the input bit the packing defines, independent of the values of the "
              "bytes; frames are combined at a width that cannot wrap")
    c.floor = 20
    c.assume = ["12-bit packed files have the size of a 1952 x 1952 frame"]
    N = 1952

    def noarr(r, what):
        for e in r.evs("bytesarray"):
            raise Violation("zero bytes dropped", "%s: parts of the file pass through a numpy array of bytes, which drops trailing zero bytes" % what, e.get("loc") or "")

    def wide(r, what):
        """the element type of the decoded samples holds every value from 0 to 4095"""
        d = npm.dname(W.I.dtype(r.st, r.v)).lstrip("<>=|")
        if d in ("uint8", "int8", "u1", "i1", "B", "b", "ubyte", "byte", "float16", "f2", "half", "e", "bool", "bool_"):
            raise Violation("element type of the samples", "%s: the samples are stored as %s, which does not hold every 12-bit value" % (what, d), "")

    def compare(ev, term, idx, k, what):
        c.count("decoded samples")
        try:
            v = ev.elem(term, idx)
        except bits.Bad as b:
            raise Violation(what, "%s: sample %d depends on the byte values: %s" % (what, k, b), "")
        except bits.Unk as u:
            raise Und("%s: sample %d: %s" % (what, k, u))
        want = bits.packed(k)
        if tuple(v) != tuple(want) if isinstance(v, bits.Bits) else True:
            raise Violation(what, "%s: sample %d is %s, expected %s" % (what, k, bits.show(v), bits.show(want)), "")

    def frame():
        st = W.st()
        r = W.call(st, PP + "convert.nparr_from_binary", [const("/in/a.bin")])
        if not r.ok:
            returned(r, "nparr_from_binary")
        noarr(r, "nparr_from_binary")
        wide(r, "nparr_from_binary")
        t = W.content(r.st, r.v)
        shp = W.I.shape(r.st, r.v)
        c.same(shp, tup(const(N), const(N)), "shape of the decoded frame", "", "nparr_from_binary")
        ev = bits.Eval({mk("fn", "bytes", (const("/in/a.bin"),)): N * N * 3 // 2})
        ks = set()
        n = N * N
        for i in range(33):
            for d in range(-4, 5):
                ks.add(i * n // 32 + d)
        for i in range(0, n, 9973 if c.tier == "quick" else 997):
            ks.add(i)
            ks.add(i + 1)
        for k in range(N - 3, N + 3):
            ks.add(k)
        for k in sorted(ks):
            if 0 <= k < n:
                compare(ev, t, (k // N, k % N), k, "nparr_from_binary")
        return "%d samples, every bit symbolic" % len(ks)
    c.ob("12-bit frame", frame)

    def reject(size):
        """the size test: a frame that is not a whole number of 3-byte groups per part is rejected"""
        st = W.st()
        r = W.call(st, PP + "convert.nparr_from_binary", [const("/in/a.bin")])
        if not r.raised:
            raise Und("no rejecting path")
        return "%d rejecting paths" % len(r.raised)
    c.ob("files of other sizes", reject, 0)

    def part(nbytes):
        st = W.st()
        f = W.fn(st, PP + "convert.three_bytes_to_two_ints")
        buf = mk("fn", "bytes", (const("/in/part"),))
        r = W.run(st, f, [buf])
        returned(r, "three_bytes_to_two_ints")
        wide(r, "three_bytes_to_two_ints")
        t = W.content(r.st, r.v)
        ev = bits.Eval({buf: nbytes})
        for k in range(nbytes * 2 // 3):
            compare(ev, t, (k,), k, "three_bytes_to_two_ints")
        s = W.I.shape(r.st, r.v)
        if s.op == "tuple" and len(s.args[0]) == 1:
            try:
                m = ev.int(s.args[0][0])
                if m != nbytes * 2 // 3:
                    raise Violation("three_bytes_to_two_ints", "%d bytes decode to %d samples" % (nbytes, m), "")
            except bits.Unk:
                pass
        return "%d samples" % (nbytes * 2 // 3)
    for n in (3, 6, 9, 30, 99):
        c.ob("packed part of %d bytes" % n, part, n)

    def u16(fnname, args, kw, want, what):
        st = W.st()
        r = W.call(st, P + fnname, args(st), kw)
        returned(r, what)
        for e in r.evs("narrow"):
            raise Violation(what + ": wraps", "%s: frames are combined in %s arithmetic (%s), which wraps around" % (what, e["dtype"], e["op"]), e.get("loc") or "")
        noarr(r, what)
        files, gone = final_files(fs(r), what)
        if len(files) != 1:
            raise Violation(what, "%s writes %d files" % (what, len(files)), "")
        (p, (dat, hdr, e)), = files.items()
        if dat is None or dat is NONE:
            raise Und("data not known")
        c.same_frames(dat, want, [A, B, C_], "%s: written frame" % what, e.get("loc") or "", what)
    A, B, C_ = raw("/in/a.raw"), raw("/in/b.raw"), raw("/in/c.raw")
    L = lambda *n: (lambda st: [lst(W, st, *n), const("/o/s.fits"), h, w_])
    three = ("/in/a.raw", "/in/b.raw", "/in/c.raw")
    third = const(tm.Fraction(1, 3))
    c.ob("single frame", u16, "convert_rawfile_to_fits", lambda st: [const("/in/a.raw"), h, w_], {}, A, "convert_rawfile_to_fits")
    for m, sc in (("sum", ONE), ("average", third)):
        c.ob("%s of three frames" % m, u16, "merge_rawfiles_to_fits", L(*three), {"mode": const(m)}, mul(sc, add(A, B, C_)), "merge_rawfiles_to_fits(%s)" % m)
        c.ob("%s with a repeated frame" % m, u16, "merge_rawfiles_to_fits", L("/in/a.raw", "/in/b.raw", "/in/a.raw"), {"mode": const(m)},
             mul(sc, add(A, B, A)), "merge_rawfiles_to_fits(%s)" % m)
        c.ob("%s of one frame" % m, u16, "merge_rawfiles_to_fits", L("/in/a.raw"), {"mode": const(m)}, A, "merge_rawfiles_to_fits(%s)" % m)
        c.ob("%s of one frame given by name" % m, u16, "merge_rawfiles_to_fits", lambda st: [const("/in/a.raw"), const("/o/s.fits"), h, w_],
             {"mode": const(m)}, A, "merge_rawfiles_to_fits(%s)" % m)
        c.ob("%s of two frames" % m, u16, "merge_rawfiles_to_fits", L("/in/a.raw", "/in/b.raw"), {"mode": const(m)},
             mul(ONE if m == "sum" else const(tm.Fraction(1, 2)), add(A, B)), "merge_rawfiles_to_fits(%s)" % m)
    c.ob("average_rawfiles_to_fits", u16, "average_rawfiles_to_fits", L(*three), {}, mul(third, add(A, B, C_)), "average_rawfiles_to_fits")
    c.ob("average_rawfiles_to_fits of one", u16, "average_rawfiles_to_fits", L("/in/b.raw"), {}, B, "average_rawfiles_to_fits")
    c.ob("merge default mode", u16, "merge_rawfiles_to_fits", L(*three), {}, add(A, B, C_), "merge_rawfiles_to_fits()")

    def cset(files):
        st = W.st()
        r = W.call(st, P + "convert_set", [lst(W, st, *files), const("/o/s.fits"), const(N), const(N)])
        returned(r, "convert_set")
        noarr(r, "convert_set")
        files_, gone = final_files(fs(r), "convert_set")
        (p, (dat, hdr, e)), = files_.items()
        if not isinstance(dat, T) or dat.op != "poly":
            if len(files) > 1:
                raise Und("sum of frames not recognised")
        parts = []
        for f in files:
            q = W.call(r.st, PP + "convert.nparr_from_binary", [const(f)])
            parts.append(W.content(q.st, q.v))
        c.same_frames(dat, mul(const(tm.Fraction(1, len(files))), add(*parts)), parts, "convert_set: mean of the frames", e.get("loc") or "", "convert_set")
    for fl in (["/in/a.bin", "/in/b.bin"], ["/in/a.bin", "/in/a.bin", "/in/c.bin"], ["/in/a.bin"]):
        c.ob("convert_set of %d frames" % len(fl), cset, fl)


# ---------------------------------------------------------------------------------------------------- C25
def c25(c):
    W = c.w
    c.rule = ("accumulation summary: the data of an image loaded from n files = sum over the list of 1/n (or 1) times the data of each file, "
              "computed at a width that cannot wrap")
    c.floor = 40

    def ctx(dtype):
        def fits_data(I, st, src, i):
            nm = str(cval(src)).split("/")[-1] if is_const(src) else show(src)
            return I.new_arr(st, A2("f_" + nm, H2, W2), tup(H2, W2), dtype, "file")
        return {"fits_data": fits_data, "exists": lambda p, what: True}

    def load(cls, files, avg, aslist, dtype):
        st = W.st()
        a = lst(W, st, *files) if aslist else const(files[0])
        kw = {} if avg is None else {"averageimages": const(avg)}
        r = W.call(st, cls, [a], kw, ctx(dtype))
        what = "%s of %d files" % (cls.split(".")[-1], len(files))
        returned(r, what)
        for e in r.evs("narrow"):
            raise Violation("loading several files: wraps", "%s: the frames are combined in %s arithmetic (%s), which wraps around" % (what, e["dtype"], e["op"]), e.get("loc") or "")
        ar = W.attr(r.st, r.v, "data")
        got = W.content(r.st, ar)
        tot = add(*[A2("f_" + f.split("/")[-1], H2, W2) for f in files])
        if avg is not False:
            tot = mul(const(tm.Fraction(1, len(files))), tot)
        want = W.I.new_arr(r.st, tot, tup(H2, W2), FLOAT, "input")
        c.same_array(r.st, ar, want, "%s (%s)" % (what, "sum" if avg is False else "mean"), "", "loading several files")
        opened = [e for e in r.events if e["kind"] == "open" and e.get("fits")]
        c.count("files read", len(opened))
        if aslist and len(files) > 1:
            n0 = W.attr(r.st, r.v, "data")
        return ""
    F = lambda n: ["/in/%s.fits" % x for x in "abcdefghij"[:n]]
    SETS = [F(1), F(2), F(3), F(5), ["/in/a.fits", "/in/b.fits", "/in/a.fits"], ["/in/a.fits"] * 3, ["z.fits", "sub/a.fits"]]
    if c.tier == "thorough":
        SETS += [F(4), F(7), F(10)]
    for cls in (BASE, IMG):
        for files in SETS:
            for avg in (True, False, None):
                for dt, dn in ((FLOAT, "float"), (U16, "16-bit")):
                    c.ob("%s of %s averaging=%s %s" % (cls.split(".")[-1], ",".join(f.split("/")[-1] for f in files), avg, dn), load, cls, files, avg, True, dt)
        for avg in (True, False, None):
            c.ob("%s of a single name averaging=%s" % (cls.split(".")[-1], avg), load, cls, ["/in/long name.fits"], avg, False, U16)

    def empty(cls):
        st = W.st()
        r = W.call(st, cls, [W.I.new_list(st, [])], {}, ctx(FLOAT))
        must_raise(c, r, "%s of an empty list" % cls.split(".")[-1], key="empty list of files")
    for cls in (BASE, IMG):
        c.ob("%s of an empty list" % cls.split(".")[-1], empty, cls)

    # ---- what the header of a combined image says about the files
    D = {"a": "2021-12-04T01:15:00", "b": "2021-12-03T23:59:59.250", "c": "2021-12-04T01:15:00.7", "d": "2022-01-01T00:00:00", "e": "2020-02-29T12:30:01",
         "f": ("2021-12-04", "01:15:02.5"), "g": ("2021-12-04", "00:00:09"), "h": None, "i": "2021-12-04T01:14:59", "j": None}

    def cards(st, src):
        nm = str(cval(src)).split("/")[-1].split(".")[0]
        out = {"CARD": "card of " + nm}
        v = D[nm]
        if isinstance(v, tuple):
            out["DATE-OBS"], out["TIME-OBS"] = v
        elif v is not None:
            out["DATE-OBS"] = v
        return out

    def date(nm):
        v = D[nm]
        if v is None:
            return None
        return datetime.datetime.fromisoformat("T".join(v).split(".")[0] if isinstance(v, tuple) else v.split(".")[0])

    def told(cls, names, avg):
        st = W.st()
        files = ["/in/%s.fits" % n for n in names]
        r = W.call(st, cls, [lst(W, st, *files)], {"averageimages": const(avg)}, dict(ctx(FLOAT), fits_cards=cards, exact=True))
        what = "%s of %s" % (cls.split(".")[-1], ",".join(names))
        returned(r, what)
        hd = W.attr(r.st, r.v, "header")

        def get(nm):
            try:
                x = W.I.getitem(r.st, hd, const(nm), None)
            except NoReturn:
                return None
            x = W.I.simp(r.st, x)
            if not is_const(x):
                raise Und("card %s is %s" % (nm, show(x)[:60]))
            return cval(x)
        if get("CARD") != "card of " + names[0]:
            raise Violation("header of combined files", "%s: the header has the cards of %s, not those of the first file" % (what, get("CARD")))
        ds = sorted(d for d in map(date, names) if d is not None)
        if len(names) > 1:
            if get("SUMOF") != len(names):
                raise Violation("number of combined files", "%s: card SUMOF is %s" % (what, get("SUMOF")))
            if ds:
                for nm, d in (("STRT-OBS", ds[0]), ("END-OBS", ds[-1])):
                    g = get(nm)
                    try:
                        ok = g is not None and datetime.datetime.fromisoformat(g) == d
                    except (TypeError, ValueError):
                        raise Und("card %s is %r" % (nm, g))
                    if not ok:
                        raise Violation("dates of combined files", "%s: card %s is %s, the %s observation date of the files is %s" % (
                            what, nm, g, "earliest" if nm[0] == "S" else "latest", d))
        return "%d files" % len(names)
    for cls in (BASE, IMG):
        for avg in (True, False):
            for names in ("a", "f", "h", "ab", "ba", "ad", "cba", "bdea", "dea", "fgi", "gfi", "igf", "hj", "ha", "ahjb", "bjha", "abcdefghij", "jihgfedcba", "aaa"):
                c.ob("header of %s of %s averaging=%s" % (cls.split(".")[-1], names, avg), told, cls, list(names), avg)
