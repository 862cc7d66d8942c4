"""C01 (inputs are never modified), C02 (no shared mutable state)."""
from __future__ import annotations
from ..check import *
from ..catalogue import catalogue, execute, VARIANTS, Q_VARIANTS, HISTORIES, P
from ..heapcmp import snapshot, compare_snapshot
from .. import terms as tm


def mutation_site(r, oids):
    """source position of the recorded mutations of the given objects"""
    for e in r.events:
        if e["kind"] in ("mutate", "setattr") and e.get("oid") in oids:
            return loc(e["node"]) if e.get("node") is not None else ""
    return ""


def variants(c):
    return (list(VARIANTS) if c.tier == "thorough" else Q_VARIANTS) + list(HISTORIES)


MUT = ("arr", "list", "dict", "hdr", "set", "inst")


def slow(e):
    return "calculate_demodulation_tensor" in e.name


def c01(c):
    c.rule = ("effect analysis: abstract heap of every caller-visible object (receiver, arguments, objects reachable from "
              "them) before the call = the same heap after the call, on the returning path and on every path that raises; for the "
              "documented in-place operations the receiver is exempt, its arguments are not")
    W = c.w
    c.floor = 150

    def one(e):
        sc = e.make()
        src = [(v, "argument %d" % n) for n, v in enumerate(sc.args) if isinstance(v, T)]
        src += [(v, "argument " + k) for k, v in sc.kw.items() if isinstance(v, T)]
        if sc.me is not None and not e.inplace:
            src.append((sc.me, "self"))
        src = [(v, l) for v, l in src if v.op == "ref"]
        snaps = snapshot(W.I, sc.st, [v for v, _ in src])
        oids = {}
        for v, l in src:
            oids.update(W.reach(sc.st, v))
        r = execute(W, sc)
        where = mutation_site(r, set(oids))
        k = e.name.split(" ")[0].split("(")[0]
        states = ([r.st] if r.ok else []) + [x[0] for x in r.raised]
        if not states:
            raise Und("no analysed path ends")
        for st in states:
            compare_snapshot(c, W.I, st, snaps, [l for _, l in src], where, k)
        c.count("paths", len(states))
        return "%d inputs unchanged on %d paths" % (len(src), len(states))
    for e in catalogue(W, variants(c)):
        if e.kind == "read" and not e.tags & {"prop"} or e.kind in ("copy", "inplace", "read"):
            if slow(e) and c.tier == "quick" and "occulter" in e.name:
                continue
            c.ob(e.name, one, e)


def c02(c):
    c.rule = ("escape/alias analysis: no mutable object reachable from the result of a copy-returning operation (or from an image "
              "after an in-place operation) is reachable from another operand, from an argument or from module/class state")
    W = c.w
    c.floor = 120

    base_mut = {oid: "module-level state" for oid, o in W.I.base.heap.items() if o.kind in MUT}
    envs = [oid for oid, o in W.I.base.heap.items() if o.kind == "env"]

    def roots(st):
        """mutable module-, class-level and default-argument state of the package"""
        g = dict(base_mut)
        for oid in envs:
            o = st.heap[oid]
            if o is W.I.base.heap[oid]:
                continue
            for n, v in o.f.items():
                if isinstance(v, T) and v.op == "ref" and v is not W.I.base.heap[oid].f.get(n):
                    for x, p in W.reach(st, v).items():
                        g.setdefault(x, "the module or class variable " + n)
        return g

    def one(e):
        sc = e.make()
        pre = {}
        owners = [(v, "argument %d" % n) for n, v in enumerate(sc.args)] + [(v, "argument " + k) for k, v in sc.kw.items()]
        if not e.inplace and sc.me is not None:
            owners.append((sc.me, "self"))
        r = execute(W, sc)
        if not r.ok:
            raise Und("does not return")
        st = r.st
        for v, l in owners:
            if isinstance(v, T):
                for oid, p in W.reach(st, v).items():
                    pre.setdefault(oid, l + p[4:])
        for oid, p in roots(st).items():
            pre.setdefault(oid, p)
        if e.inplace:
            res = W.reach(st, sc.me)
        else:
            res = W.reach(st, r.v) if r.v is not None else {}
        demod_self = set()
        for oid, p in res.items():
            o = st.heap[oid]
            if o.kind not in MUT:
                continue
            c.count("reachable objects")
            if oid in pre:
                raise Violation(e.name.split(" ")[0].split("(")[0] + ":" + (p[4:] or "result"),
                                "result%s is the same object as %s" % (p[4:], pre[oid]), "")
        return "%d objects" % len(res)
    for e in catalogue(W, variants(c)):
        if slow(e) or "Demodulator.show" in e.name:
            continue
        if e.tags & {"prop"} and not e.name.split(".")[1] in ("single_pol_subimages", "pol0", "pol45", "pol_45", "pol90", "pB", "AoLP", "DoLP"):
            continue
        if e.kind in ("copy", "inplace") or e.tags & {"prop"}:
            c.ob(e.name, one, e)

    def defaults():
        """the angle assignment handed to the setter stays the caller's own"""
        st = W.st()
        d = W.angles(st, CUSTOM)
        r = returned(W.call(st, P + "set_default_angles", [d]), "set_default_angles()")
        for oid, p in roots(r.st).items():
            if oid == d.args[0] and oid not in base_mut:
                raise Violation("set_default_angles", "the default angles are the caller's dictionary (%s)" % p, "")
    c.ob("set_default_angles() keeps its own dictionary", defaults)
