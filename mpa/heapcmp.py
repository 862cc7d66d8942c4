"""Flattening abstract heap values to (path, leaf term) pairs, so that states can be compared."""
from __future__ import annotations
from .check import *


def flatten(I, st, v, path="", seen=None, attrs=None, out=None):
    """{path: leaf term or python tag}"""
    out = {} if out is None else out
    seen = {} if seen is None else seen
    if v is None:
        out[path] = None
        return out
    if v.op == "ref":
        o = I.obj(st, v)
        if v.args[0] in seen:
            out[path] = ("same", seen[v.args[0]])
            return out
        if o.kind in ("arr", "view"):
            out[path] = I.content(st, v)
            return out
        if o.kind not in ("inst", "list", "set", "dict", "hdr"):
            out[path] = ("obj", o.kind)
            return out
        seen[v.args[0]] = path
        if o.kind in ("list", "set"):
            it = o.f["items"]
            if it.op == "tuple":
                out[path + ".len"] = ("len", len(it.args[0]))
                for i, x in enumerate(it.args[0]):
                    flatten(I, st, x, "%s[%d]" % (path, i), seen, None, out)
            else:
                out[path] = it
        elif o.kind in ("dict", "hdr"):
            it = o.f["items"]
            if it.op == "dictt":
                out[path + ".base"] = o.f.get("base", NONE)
                out[path + ".keys"] = ("keys", tuple(sorted(show(k, 3) for k, _ in it.args[0])))
                for k, x in it.args[0]:
                    flatten(I, st, x, "%s[%s]" % (path, show(k, 3)), seen, None, out)
            else:
                out[path] = it
        else:
            for k in sorted(o.f):
                if k.startswith(".") and (attrs is None or k in attrs):
                    flatten(I, st, o.f[k], path + k, seen, None, out)
        return out
    if v.op == "tuple":
        out[path + ".len"] = ("len", len(v.args[0]))
        for i, x in enumerate(v.args[0]):
            flatten(I, st, x, "%s[%d]" % (path, i), seen, None, out)
        return out
    if v.op == "ite":
        out[path] = I.content(st, v)
        return out
    if v.op == "func":
        out[path] = ("func",)
        return out
    out[path] = v
    return out


def own_attrs(I, st, v):
    """attribute set of an instance"""
    if v.op == "ref":
        o = I.obj(st, v)
        if o.kind == "inst":
            return {k for k in o.f if k.startswith(".")}
    return None


def snapshot(I, st, sources):
    snaps = []
    for n, v in enumerate(sources):
        attrs = own_attrs(I, st, v)
        snaps.append((v, attrs, flatten(I, st, v, "", None, attrs)))
    return snaps


def compare_snapshot(c, I, st, snaps, labels, where="", key=""):
    """the snapshots must still describe the state"""
    for (v, attrs, before), label in zip(snaps, labels):
        after = flatten(I, st, v, "", None, attrs)
        for p, b in before.items():
            c.count("heap cells compared")
            a = after.get(p, ("gone",))
            if a is b or a == b:
                continue
            lab = label + p
            if isinstance(a, tuple) or isinstance(b, tuple) or a is None or b is None:
                if isinstance(a, T) and is_unknown(a):
                    raise Und("%s is unknown afterwards" % lab)
                raise Violation(key + ":" + lab, "%s was %s before the call and is %s after it" % (lab, pr(b), pr(a)), where)
            c.same(a, b, lab + " after the call", where, key + ":" + lab)


def is_unknown(t):
    return t.op in ("atom", "unknown", "havoc") and len(t.args) > 1 and False


def pr(x):
    return show(x, 5)[:300] if isinstance(x, T) else repr(x)
