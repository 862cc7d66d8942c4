"""C32 (integer frames)."""
from __future__ import annotations
from ..check import *
from ..catalogue import catalogue, options, execute, VARIANTS
from .. import terms as tm


def c32(c):
    W = c.w
    c.rule = ("element type inference along every abstract path of every public operation, with frames (arrays and FITS data) of 16 bit integers: "
              "no sum, difference or product of frames is computed in 16 bit arithmetic, no floating point value is stored into an integer array")
    c.floor = 250
    W.frame = const("uint16" if c.tier == "quick" else "int16")

    def one(e):
        sc = e.make()
        r = execute(W, sc)
        c.count("events examined", len(r.events))
        for ev in r.evs("narrow"):
            raise Violation("%s: wraps" % (ev.get("fn") or "?"), "%s: a %s of frames is computed in %s arithmetic, which wraps around" % (
                e.name, {"add": "sum", "sub": "difference", "mul": "product"}[ev["op"]], ev["dtype"]), ev.get("loc") or "")
        for ev in r.evs("truncate"):
            raise Violation("%s: %s" % (ev.get("fn") or "?", ev["how"]), "%s: a floating point result is stored into an array of %s, which %s" % (
                e.name, ev["dtype"], "drops its fractional part" if ev["how"] == "truncates" else "numpy refuses (UFuncTypeError)"), ev.get("loc") or "")
        if not r.ok and not r.raised:
            raise Und("no analysed path ends")
    for e in catalogue(W, list(VARIANTS) if c.tier == "thorough" else ["plain", "demosaiced-custom"]) + options(W):
        c.ob(e.name, one, e)
