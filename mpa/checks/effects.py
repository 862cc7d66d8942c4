"""C21 (names, attributes, arguments), C23 (failures surface), C24 (no history), C15 (resources), C22 (unknown options)."""
from __future__ import annotations
import copy as _copy
import ast
import json
from ..check import *
from ..repo import enclosing
from ..catalogue import catalogue, options, execute, P, PP, lst, other_image, calib_args, calib_ctx, stack4, VARIANTS
from .. import terms as tm

NAMES = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "libnames.json")))
CATCH_ALL = {"Exception", "BaseException", None, ""}
PARENT = {"UnboundLocalError": ("NameError",), "NameError": (), "AttributeError": (), "TypeError": (), "ModuleNotFoundError": ("ImportError",)}


def handler_names(t):
    """exception names of the handlers of a try statement; None for a bare except"""
    out = []
    for h in t.handlers:
        ts = [None] if h.type is None else (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])
        out += [None if x is None else (x.id if isinstance(x, ast.Name) else getattr(x, "attr", "?")) for x in ts]
    return out


def caught(ev, exc):
    """is the event inside a handler of the analysed code that names this exception (deliberate control flow)?"""
    return any(n == exc or n in PARENT.get(exc, ()) for t in ev["handlers"] for n in handler_names(t))


def in_package(ev):
    m = getattr(ev.get("node"), "_mod", None)
    return m is None or m.name != "mpaspec"


def bad_library_name(name):
    """a member of a known library module that does not exist there"""
    mod, _, n = name.rpartition(".")
    if mod not in NAMES or n in NAMES[mod] or name in NAMES:
        return False
    return not any(k.startswith(name + ".") for k in NAMES)


def broken(ev):
    """(key, message) if the event is a use of something that does not exist"""
    k = ev["kind"]
    if not in_package(ev):
        return None
    if k == "nameerror":
        return None if caught(ev, "NameError") else ("name " + str(ev["name"]), "name %s is not defined" % ev["name"])
    if k == "unbound":
        return None if caught(ev, "UnboundLocalError") else ("local " + str(ev["name"]), "local variable %s may be used before it is set" % ev["name"])
    if k == "attrerror":
        return None if caught(ev, "AttributeError") else ("attribute %s.%s" % (str(ev.get("cls")).split(".")[-1], ev["name"]), "%s has no attribute %s" % (str(ev.get("cls")).split(".")[-1], ev["name"]))
    if k == "arity":
        return None if caught(ev, "TypeError") else ("call", "call with wrong arguments: %s" % ev.get("what"))
    if k == "extattr":
        if bad_library_name(ev["name"]):
            return "member " + ev["name"], "%s does not exist" % ev["name"]
    if k == "objattr":
        kind = "#" + ev["okind"]
        if kind in NAMES and ev["name"] not in NAMES[kind]:
            return "attribute " + ev["name"], "%s object has no attribute %s" % (ev["okind"], ev["name"])
    if k == "typeerror":
        return None if caught(ev, "TypeError") else ("type", "type error: %s" % ev.get("what"))
    return None


# ----------------------------------------------------------------------------------------------- static scopes
class Scopes:
    """names loaded but bound nowhere, per function, over reachable statements (independent of the catalogue)"""

    def __init__(self, repo):
        self.repo = repo
        import builtins
        self.builtins = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__class__"}

    def reachable(self, body):
        """statements up to an unconditional end of the block"""
        for s in body:
            if isinstance(s, ast.If) and isinstance(s.test, ast.Constant):
                yield from self.reachable(s.body if s.test.value else s.orelse)
                continue
            yield s
            if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                return

    def binds(self, node):
        """names bound directly in this scope"""
        out, glob = set(), set()
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                out.add(x.arg)
        body = node.body if isinstance(node.body, list) else [node.body]

        def go(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(n.name)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            if isinstance(n, ast.NamedExpr):
                out.add(n.target.id)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    out.add((al.asname or al.name).split(".")[0])
            if isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                glob.update(n.names)
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                out.add(n.name)
            for c in ast.iter_child_nodes(n):
                go(c)
        for s in body:
            go(s)
        return out, glob

    def check(self, mod):
        bad = []
        top, _ = self.binds(mod.tree)
        for n in ast.walk(mod.tree):  # global statements create module names
            if isinstance(n, ast.Global):
                top.update(n.names)
        if any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(mod.tree)):
            return None

        def scope(node, outer):
            own, _ = self.binds(node)
            walk_body(node.body if isinstance(node.body, list) else [node.body], outer + [own], isinstance(node, ast.ClassDef))

        def walk_body(body, env, cls=False):
            for s in self.reachable([b for b in body if isinstance(b, ast.stmt)]) if body and isinstance(body[0], ast.stmt) else body:
                expr(s, env, cls)

        def expr(n, env, cls=False):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    expr(d, env)
                scope(n, env[:-1] if cls else env)
                return
            if isinstance(n, ast.Lambda):
                for d in n.args.defaults:
                    expr(d, env)
                own, _ = self.binds(n)
                expr(n.body, env + [own])
                return
            if isinstance(n, ast.ClassDef):
                for d in n.bases + n.decorator_list:
                    expr(d, env)
                own, _ = self.binds(n)
                walk_body(n.body, env + [own], True)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                own = set()
                for g in n.generators:
                    for t in ast.walk(g.target):
                        if isinstance(t, ast.Name):
                            own.add(t.id)
                for c in ast.iter_child_nodes(n):
                    expr(c, env + [own])
                return
            if isinstance(n, ast.AnnAssign):
                if n.value is not None:
                    expr(n.value, env)
                expr(n.target, env)
                return
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load) and not any(n.id in e for e in env) and n.id not in self.builtins:
                    bad.append(n)
                return
            for f, v in ast.iter_fields(n):
                if f in ("annotation", "returns"):
                    continue
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                    walk_body(v, env, False)
                elif isinstance(v, list):
                    for x in v:
                        if isinstance(x, ast.AST):
                            expr(x, env)
                elif isinstance(v, ast.AST):
                    expr(v, env)
        walk_body(mod.tree.body, [top])
        return bad


def class_members(repo):
    """per class of the package: (bases, names defined or assigned through self)"""
    out = {}
    for m in repo.modules.values():
        if m.name == "mpaspec":
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                mem = set()
                for x in ast.walk(n):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == "self":
                        mem.add(x.attr)
                for x in n.body:
                    if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        mem.add(x.name)
                    if isinstance(x, ast.Assign):
                        mem.update(t.id for t in x.targets if isinstance(t, ast.Name))
                    if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                        mem.add(x.target.id)
                out[n.name] = ([b.id if isinstance(b, ast.Name) else getattr(b, "attr", "?") for b in n.bases], mem, n, m)
    return out


def c21(c):
    c.rule = ("name/attribute resolution: along every abstract path of every public operation and option, every loaded name is bound, every attribute "
              "exists on its object or library module, every call matches its signature; plus whole-source scope resolution of all functions and classes")
    W = c.w
    c.floor = 200
    seen = set()

    def one(e):
        sc = e.make()
        r = execute(W, sc)
        bad = []
        for ev in r.events:
            b = broken(ev)
            if b:
                bad.append((ev, b))
        c.count("events examined", len(r.events))
        for ev, (key, msg) in bad:
            where = ev.get("loc") or ""
            fn = ev.get("fn") or "?"
            raise Violation("%s: %s" % (fn, key), "%s: %s" % (e.name, msg), where)
        if not r.ok and not r.raised:
            raise Und("no analysed path ends")
        if not r.ok and all(x[1] in ("AttributeError", "TypeError", "NameError", "UnboundLocalError", "ModuleNotFoundError", "ImportError") for x in r.raised):
            nd = r.raised[0][2]
            raise Und("fails with %s" % r.raised[0][1])
    for e in catalogue(W, list(VARIANTS) if c.tier == "thorough" else ["plain", "custom-angles", "demosaiced-mean"]) + options(W):
        c.ob(e.name, one, e)

    sc = Scopes(W.repo)

    def mod(m):
        bad = sc.check(m)
        if bad is None:
            raise Und("star import")
        for n in bad:
            raise Violation("%s: name %s" % (enclosing(n), n.id), "name %s is not defined anywhere" % n.id, loc(n))
    for m in W.repo.modules.values():
        if m.name != "mpaspec":
            c.ob("scopes of " + m.name, mod, m)
    cls = class_members(W.repo)

    def members(name):
        bases, mem, node, m = cls[name]
        allm, todo, unknown = set(mem), list(bases), False
        while todo:
            b = todo.pop()
            if b in cls:
                allm |= cls[b][1]
                todo += cls[b][0]
            elif b != "object":
                unknown = True
        if unknown or "__getattr__" in allm:
            raise Und("class with external bases")
        sub = set()
        for n2, (b2, m2, _, _) in cls.items():
            if name in b2:
                sub |= m2   # attributes a subclass is expected to provide
        import builtins
        for x in ast.walk(node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == "self":
                if x.attr not in allm and x.attr not in sub and x.attr not in dir(object):
                    raise Violation("%s: attribute %s" % (enclosing(x), x.attr), "no attribute %s is ever set on %s" % (x.attr, name), loc(x))
    for n in sorted(cls):
        c.ob("members of " + n, members, n)


# =============================================================================================== C24
PROBE_MODULES = ("random", "numpy.random", "secrets", "uuid")


def nondeterministic(ev):
    if ev["kind"] == "extattr":
        n = ev["name"]
        return any(n == m or n.startswith(m + ".") for m in PROBE_MODULES)
    return False


def tainted(t, seen=None):
    """does a term contain the value of a random source"""
    for x in tm.subterms(t) if hasattr(tm, "subterms") else walk(t):
        if x.op in ("atom", "fn", "ext") and isinstance(x.args[0], str) and (x.args[0].startswith("numpy.random") or x.args[0].startswith("random.")):
            return True
    return False


def walk(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo += list(tm.children(x))


def c24(c):
    c.rule = ("effect analysis on package-level state: no public operation writes a module or class variable, a mutable default argument or an object handed out "
              "by a cache, except the default-angles setter; where state is written, repeating the operation with other inputs gives the same "
              "normal form as on a fresh package; nothing returned is reachable from package state")
    W = c.w
    c.floor = 200
    I = W.I
    base_oids = set(I.base.heap)
    MUTK = ("arr", "list", "dict", "hdr", "set", "inst")

    def state_changes(before, st):
        out = []
        for oid in base_oids:
            if oid == getattr(I, "_cacheoid", None):
                continue
            o, p = st.heap.get(oid), before.get(oid)
            if o is None or p is None or o is p:
                continue
            for k, v in o.f.items():
                if p.f.get(k) is not v and not str(k).startswith("#"):
                    out.append((oid, k, p.f.get(k), v))
        return out

    def package_roots(st):
        g = {}
        for oid in base_oids | ({I._cacheoid} if hasattr(I, "_cacheoid") else set()):
            o = st.heap.get(oid)
            if o is None:
                continue
            if o.kind in MUTK:
                g.setdefault(oid, "a package-level object")
            if o.kind != "env":
                continue
            for n, v in o.f.items():
                if isinstance(v, T) and v.op in ("ref", "tuple", "ite"):
                    for x in W.reach(st, v):
                        g.setdefault(x, "the results kept by a cache" if oid == getattr(I, "_cacheoid", None) else "the package variable " + str(n))
        return g

    def snapshot_of(r):
        if not r.ok:
            return None
        from ..heapcmp import flatten
        return flatten(I, r.st, r.v)

    def one(e):
        setter = "set_default_angles" in e.name
        tm.set_uid(5_000_000)
        sc = e.make()
        before = {oid: sc.st.heap.get(oid) for oid in base_oids}
        given = {}
        for v in sc.args + list(sc.kw.values()) + ([sc.me] if sc.me is not None else []):
            if isinstance(v, T):
                for oid in W.reach(sc.st, v):
                    given[oid] = sc.st.heap[oid]
        start = sc.st.copy()
        r = execute(W, sc)
        key = e.name.split(" ")[0].split("(")[0]
        marked = {ev["oid"]: ev["seq"] for ev in r.events if ev["kind"] == "cached"}
        for ev in r.events:
            if ev["kind"] == "mutate" and ev.get("oid") in marked and ev["seq"] > marked[ev["oid"]]:
                raise Violation(key + ": cached object", "an object kept by a cache is modified", ev.get("loc") or "")
            if ev["kind"] == "mutate" and ev.get("oid") in base_oids and I.base.heap[ev["oid"]].kind in MUTK:
                if not setter and definite_change(before, r, ev["oid"]):
                    raise Violation(key + ": package object", "a package-level object (or mutable default argument) is modified", ev.get("loc") or "")
        if not r.ok:
            raise Und("does not return")
        roots = package_roots(r.st)
        if not setter:
            for oid, p in (W.reach(r.st, r.v) if r.v is not None else {}).items():
                if r.st.heap[oid].kind in MUTK and oid in roots:
                    raise Violation(key + ": shared result", "result%s is %s" % (p[4:], roots[oid]), "")
        for n, v in list(enumerate(sc.args)) + list(sc.kw.items()):
            if isinstance(v, T):
                for oid, p in W.reach(r.st, v).items():
                    if r.st.heap[oid].kind in MUTK and oid in roots and oid not in base_oids:
                        raise Violation(key + ": kept argument", "argument %s%s is kept in %s" % (n, p[4:], roots[oid]), "")
        for ev in r.events:
            if nondeterministic(ev) and any(tainted(x) for x in (snapshot_of(r) or {}).values() if isinstance(x, T)):
                raise Violation(key + ": random", "the result depends on a random source (%s)" % ev["name"], ev.get("loc") or "")
        if not e.inplace:
            remembered(e, sc, start, r, given)
        ch = state_changes(before, r.st)
        cached = bool(marked)
        if setter or (not ch and not cached):
            return "no package state written"
        # state was written: a second, independent call must give what a fresh package gives
        c.count("operations that write package state")
        sites = sorted({ev.get("loc") or "" for ev in r.events if ev["kind"] in ("globalwrite", "setattr", "mutate") and ev.get("oid", -1) in base_oids | {-1}} - {""})
        old = W.st
        try:
            tm.RENAME[0] = "second."
            W.st = lambda: I.fresh_state()
            tm.set_uid(6_000_000)
            sc1 = e.make()
            r1 = execute(W, sc1)
            s1 = snapshot_of(r1)
            after = r.st

            def st2():
                s = after.copy()
                s.pc = I.fresh_state().pc
                return s
            W.st = st2
            tm.set_uid(6_000_000)
            sc2 = e.make()
            r2 = execute(W, sc2)
            s2 = snapshot_of(r2)
        finally:
            tm.RENAME[0] = ""
            W.st = old
        if s1 is None or s2 is None:
            raise Und("repeated call does not return")
        for pth in sorted(set(s1) & set(s2)):
            x, y = s1[pth], s2[pth]
            if isinstance(x, T) and isinstance(y, T) and x is not y:
                c.same(y, x, "result%s of a second call after a first one" % pth, "; ".join(sites[:2]), key + ": history")
        if set(s1) != set(s2):
            raise Und("results of the two calls have different structure")
        return "package state written; a later call is not affected"

    def remembered(e, sc, start, r, given):
        """an argument on which the operation keeps something: the operation follows later changes of the argument"""
        kept = sorted({(oid, k[1:]) for oid, o in given.items() if o.kind == "inst"
                       for k, v in r.st.heap[oid].f.items() if k.startswith(".") and o.f.get(k) is not v})
        if not kept:
            return
        c.count("operations that keep something on an argument")
        arrs = [oid for oid, o in given.items() if o.kind == "arr"]

        def again(first):
            s2 = _copy.copy(sc)
            s2.st = start.copy()
            if first:
                r1 = execute(W, s2)
                if not r1.ok:
                    raise Und("repeated call does not return")
                s2.st = r1.st
            for oid in arrs:
                v = mk("ref", oid)
                old = I.content(s2.st, v)
                n = I.new_arr(s2.st, add(mul(TWO, old), ONE), I.shape(s2.st, v), I.dtype(s2.st, v))
                I.setitem(s2.st, v, tm.FULL, n, None)
            return snapshot_of(execute(W, s2))
        s1, s2 = again(False), again(True)
        if s1 is None or s2 is None:
            raise Und("repeated call on changed arguments does not return")
        key = e.name.split(" ")[0].split("(")[0]
        for pth in sorted(set(s1) & set(s2)):
            x, y = s1[pth], s2[pth]
            if isinstance(x, T) and isinstance(y, T) and x is not y:
                c.same(y, x, "result%s after the argument was changed (the first call keeps %s on it)" % (pth, ", ".join(sorted({k for _, k in kept}))), "", key + ": argument history")

    def definite_change(before, r, oid):
        o, p = r.st.heap.get(oid), before.get(oid)
        return o is not None and p is not None and any(o.f.get(k) is not v for k, v in p.f.items())

    ents = catalogue(W, list(VARIANTS) if c.tier == "thorough" else ["plain", "demosaiced-mean"]) + options(W)
    for e in ents:
        if e.name != "map_polar_coordinates":     # internal helper: its cached maps are only handed to other operations
            c.ob(e.name, one, e)

    def angles_after(label, build):
        """the angle assignment of a new default image is the same before and after an operation with explicit angles"""
        st = W.st()
        a = W.image(st, "P")
        first = [sorted((show(k), show(v)) for k, v in dict_items(W, st, W.attr(st, a, "angle_dic")))]
        for st0 in (W.st(), st):
            b = W.image(st0, "B", angles=CUSTOM)
            build(st0, b)
            d = W.image(st0, "D")
            got = sorted((show(k), show(v)) for k, v in dict_items(W, st0, W.attr(st0, d, "angle_dic")))
            if got != first[0]:
                raise Violation("default angles", "after %s a new default image has angles %s instead of %s" % (label, got, first[0]), "")
    c.ob("default angles after a custom image", angles_after, "making an image with its own angles", lambda st, b: None)
    c.ob("default angles after changing an image", angles_after, "changing an image's angles",
         lambda st, b: I.setitem(st, W.attr(st, b, "angle_dic"), const(0), const(3), None))

    def edited_default():
        st = W.st()
        a = W.image(st, "P")
        n0 = {show(k): show(v) for k, v in dict_items(W, st, W.attr(st, a, "angle_dic"))}
        I.setitem(st, W.attr(st, a, "angle_dic"), const(0), const(3), None)
        d = W.image(st, "D")
        n1 = {show(k): show(v) for k, v in dict_items(W, st, W.attr(st, d, "angle_dic"))}
        if n0 != n1:
            raise Violation("default angles shared", "editing the angles of one default image changes later images: %s" % n1, "")
    c.ob("editing one image's default angles", edited_default)


def dict_items(W, st, d):
    o = W.I.obj(st, d)
    it = o.f["items"]
    if it.op != "dictt":
        raise Und("dictionary not resolved")
    return [(k, W.I.content(st, v)) for k, v in it.args[0]]


# =============================================================================================== C23
IOERR = {"OSError", "IOError", "EnvironmentError", "FileNotFoundError", "PermissionError", "FileExistsError", "Exception", "BaseException", None}
ANYERR = {"Exception", "BaseException", None}
EXC_PARENTS = {"FileNotFoundError": {"OSError", "IOError", "EnvironmentError"}, "ValueError": set(), "NotImplementedError": {"RuntimeError"},
               "IndexError": {"LookupError"}, "KeyError": {"LookupError"}, "UnboundLocalError": {"NameError"}, "ZeroDivisionError": {"ArithmeticError"},
               "FileExistsError": {"OSError", "IOError", "EnvironmentError"}, "PermissionError": {"OSError", "IOError", "EnvironmentError"}}


class Flow:
    """does a block complete normally (statement-level control flow, calls that never return resolved by name)"""

    def __init__(self, repo):
        self.repo = repo
        self.never = {}
        for _ in range(3):
            for m in repo.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        self.never[n.name] = not self.ends(n.body)

    def ends(self, body):
        """True: some path leaves the block other than by raising"""
        for s in body:
            if isinstance(s, ast.Raise):
                return False
            if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
                return True
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                f = s.value.func
                n = f.id if isinstance(f, ast.Name) else getattr(f, "attr", None)
                if self.never.get(n) or n in ("exit", "_exit", "quit", "abort"):
                    return False
            if isinstance(s, ast.If):
                a, b = self.ends(s.body), self.ends(s.orelse) if s.orelse else True
                if not a and not b:
                    return False
                if self.leaves(s.body) or self.leaves(s.orelse):
                    return True
            if isinstance(s, (ast.With, ast.AsyncWith)):
                if not self.ends(s.body):
                    return False
                if self.leaves(s.body):
                    return True
            if isinstance(s, ast.Try):
                if s.finalbody and not self.ends(s.finalbody):
                    return False
                if not self.ends(s.body) and all(not self.ends(h.body) for h in s.handlers):
                    return False
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
                if not any(isinstance(x, (ast.Break, ast.Return)) for x in ast.walk(s)):
                    return False
        return True

    def leaves(self, body):
        return any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for s in body for x in ast.walk(s))


def later_raise(t, h):
    """the handler stores the exception and the function raises it afterwards"""
    stored = set()
    if h.name:
        for x in ast.walk(ast.Module(body=h.body, type_ignores=[])):
            if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == h.name for y in ast.walk(x.value)):
                stored |= {y.id for tg in x.targets for y in ast.walk(tg) if isinstance(y, ast.Name)}
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "put"):
                stored |= {y.id for y in ast.walk(x.func.value) if isinstance(y, ast.Name)}
    fn = t
    while getattr(fn, "_parent", None) is not None and not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
        fn = fn._parent
    for x in ast.walk(fn):
        if isinstance(x, ast.Raise) and x.exc is not None and any(isinstance(y, ast.Name) and y.id in stored for y in ast.walk(x.exc)):
            return True
    return bool(stored) and any(isinstance(x, ast.Raise) and x.lineno > t.lineno and not any(x is z for hh in t.handlers for z in ast.walk(hh)) for x in ast.walk(fn))


def hname(h):
    ts = [None] if h.type is None else (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])
    return [None if x is None else (x.id if isinstance(x, ast.Name) else getattr(x, "attr", "?")) for x in ts]


def enclosing_fn(n):
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        n = getattr(n, "_parent", None)
    return n


FAULT_EVENTS = ("open", "readfile", "filewrite", "fs", "parallel", "asyncgot")


def c23(c):
    c.rule = ("exception-flow analysis: for every abstract event that can fail (file access, directory change, worker pool, explicit raise in a callee) every "
              "enclosing handler that would catch the failure ends by raising on all its paths; no finally block returns; no process exit is reachable; "
              "a broad handler may only absorb failures of the single-superpixel fit")
    W = c.w
    c.floor = 200
    flow = Flow(W.repo)
    mods = [m for m in W.repo.modules.values() if m.name != "mpaspec"]

    def swallowed(ev, names):
        """(handler) that absorbs an exception with one of the names raised at the event; None if it reaches the caller"""
        for t in reversed(ev["handlers"]):
            if t.finalbody and any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for s in t.finalbody for x in ast.walk(s)) and flow.leaves(t.finalbody):
                return t, None
            for h in t.handlers:
                if set(hname(h)) & names:
                    if not flow.ends(h.body):
                        break          # re-raised (possibly as another exception)
                    if later_raise(t, h):
                        raise Und("the exception is stored and raised later")
                    return t, h
        return None

    def one(e):
        sc = e.make()
        r = execute(W, sc)
        got = {}
        for ev in r.evs("asyncgot"):
            got.setdefault(ev["token"], []).append(ev)
        for ev in r.evs("async"):
            okc = mk("fn", "truth", (mk("fn", "asyncok", (ev["token"],)),))
            g = got.get(ev["token"], ())
            asked = [a for a in r.evs("asyncasked") if a["token"] is ev["token"]]
            if asked and all(okc in e2["pc"] for e2 in g):
                raise Violation("%s: result of a worker" % ev.get("fn"), "the failure of the worker started at %s is never passed on: its result is %s" % (
                    ev.get("loc"), "only fetched when it succeeded, at %s" % g[0].get("loc") if g else "never fetched"), ev.get("loc") or "")
        for ev in r.events:
            k = ev["kind"]
            if k in FAULT_EVENTS:
                c.count("fallible events")
                if k == "open" and ev.get("pool"):
                    continue
                s = swallowed(ev, ANYERR if k in ("parallel", "asyncgot") else IOERR)
                if s:
                    what = {"open": "opening a file", "readfile": "reading a file", "filewrite": "writing a file", "fs": "a file-system operation", "parallel": "a worker", "asyncgot": "a worker"}[k]
                    nd = s[1] or s[0]
                    raise Violation("%s: handler for %s" % (enclosing(nd), k), "a failure of %s at %s is absorbed by the handler at %s" % (what, ev.get("loc"), loc(nd)), loc(nd))
            if k == "raise" and not ev.get("implicit") and ev["handlers"]:
                exc = ev.get("exc")
                if not isinstance(exc, str):
                    continue
                s = swallowed(ev, {exc} | EXC_PARENTS.get(exc, set()) | ANYERR)
                if s and enclosing_fn(s[0]) is not enclosing_fn(ev["node"]):
                    nd = s[1] or s[0]
                    raise Violation("%s: handler for raise" % enclosing(nd), "the error raised at %s is absorbed by the handler at %s" % (ev.get("loc"), loc(nd)), loc(nd))
            if k == "exit":
                raise Violation("%s: exit" % ev.get("fn"), "the calling process is ended", ev.get("loc") or "")
            if k == "suppress":
                nms = {str(x).split(".")[-1] for x in ev["names"]}
                if nms & {x for x in IOERR if x}:
                    raise Violation("%s: suppress" % ev.get("fn"), "errors %s are suppressed" % sorted(nms), ev.get("loc") or "")
        return "events examined"
    for e in catalogue(W, ["plain", "demosaiced-mean"]) + options(W):
        c.ob(e.name, one, e)

    calls = {}
    for m in mods:
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                calls.setdefault(n.name, set()).update(
                    (x.func.id if isinstance(x.func, ast.Name) else getattr(x.func, "attr", "?")) for x in ast.walk(n) if isinstance(x, ast.Call))

    def transitively(names):
        seen, todo = set(), list(names)
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            todo += list(calls.get(n, ()))
        return seen

    def module(m):
        n_try = 0
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Try):
                n_try += 1
                body = {(x.func.id if isinstance(x.func, ast.Name) else getattr(x.func, "attr", "?")) for s in n.body for x in ast.walk(s) if isinstance(x, ast.Call)}
                fit = "curve_fit" in transitively(body) and not {"Pool", "starmap", "map", "writeto", "open"} & body
                for hd in n.handlers:
                    if set(hname(hd)) & ANYERR and flow.ends(hd.body) and not fit and body and not later_raise(n, hd):
                        raise Violation("%s: broad handler" % enclosing(hd), "every failure of %s is absorbed" % ", ".join(sorted(body)[:5]), loc(hd))
                if n.finalbody and flow.leaves([s for s in n.finalbody if not isinstance(s, (ast.For, ast.While, ast.FunctionDef))]):
                    raise Violation("%s: finally" % enclosing(n), "a finally block leaves the function and discards the exception", loc(n.finalbody[0]))
            if isinstance(n, ast.Call) and live(n):
                f = ast.unparse(n.func)
                if f in ("sys.exit", "os._exit", "exit", "quit", "os.abort", "os.kill", "signal.raise_signal") and not main_guard(n):
                    raise Violation("%s: exit" % enclosing(n), "%s() ends the calling process" % f, loc(n))
            if isinstance(n, ast.Raise) and live(n) and n.exc is not None and "SystemExit" in ast.unparse(n.exc):
                raise Violation("%s: exit" % enclosing(n), "raises SystemExit", loc(n))
        return "%d try statements" % n_try
    for m in mods:
        c.ob("handlers of " + m.name, module, m)


def live(n):
    """not under a constantly false test"""
    p, ch = getattr(n, "_parent", None), n
    while p is not None:
        if isinstance(p, ast.If) and isinstance(p.test, ast.Constant):
            if (ch in p.body) != bool(p.test.value) and (ch in p.body or ch in p.orelse):
                return False
        p, ch = getattr(p, "_parent", None), p
    return True


def main_guard(n):
    p = n
    while p is not None:
        if isinstance(p, ast.If) and "__name__" in ast.unparse(p.test):
            return True
        p = getattr(p, "_parent", None)
    return False


# =============================================================================================== C15
OPENERS = {"open": "file", "io.open": "file", "gzip.open": "file", "astropy.io.fits.open": "file", "multiprocessing.Pool": "pool", "multiprocessing.pool.Pool": "pool",
           "multiprocessing.pool.ThreadPool": "pool", "concurrent.futures.ProcessPoolExecutor": "pool", "concurrent.futures.ThreadPoolExecutor": "pool",
           "PIL.Image.open": "file", "tempfile.NamedTemporaryFile": "file", "tempfile.TemporaryFile": "file", "os.open": "fd", "os.fdopen": "file", "mmap.mmap": "file",
           "numpy.memmap": "map"}
SAFE_BETWEEN = (ast.Pass,)


def import_names(mod):
    """local name -> dotted library name"""
    out = {}
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[(a.asname or a.name).split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        if isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                out[a.asname or a.name] = n.module + "." + a.name
    return out


def dotted(f, names):
    parts = []
    while isinstance(f, ast.Attribute):
        parts.append(f.attr)
        f = f.value
    if not isinstance(f, ast.Name):
        return None
    return ".".join([names.get(f.id, f.id)] + parts[::-1])


def c15(c):
    c.rule = ("resource typestate over the syntax tree: every call that opens a file or creates a worker pool is a context manager of a with statement, is closed in a "
              "finally block that directly follows, is registered on an exit stack, or is returned by a helper whose calls obey the same rule")
    W = c.w
    mods = [m for m in W.repo.modules.values() if m.name != "mpaspec"]
    c.floor = len(mods)
    helpers = {}     # names of package functions that return a fresh handle

    def is_open(call, names):
        d = dotted(call.func, names)
        if d in OPENERS:
            return d
        if d == "pathlib.Path.open":
            return d
        if isinstance(call.func, ast.Attribute) and call.func.attr == "open" and d not in OPENERS:
            v = call.func.value
            if isinstance(v, ast.Call) and dotted(v.func, names) in ("pathlib.Path",):
                return "Path.open"
            if isinstance(v, ast.Name) and v.id not in names:
                return None if v.id in ("webbrowser",) else "path.open?"
        if isinstance(call.func, ast.Attribute) and call.func.attr == "Pool":
            return "Pool"
        if d is not None and d.split(".")[-1] in helpers:
            return d
        return None

    def verdict(call, names):
        """ok / (bad, why) / und"""
        p = call._parent
        ch = call
        while isinstance(p, (ast.IfExp, ast.NamedExpr)):
            p, ch = p._parent, p
        if isinstance(p, ast.withitem) and p.context_expr is ch:
            return "ok"
        if isinstance(p, ast.Call) and ch in p.args:
            d = dotted(p.func, names) or ""
            if d.split(".")[-1] in ("closing", "enter_context", "push"):
                return "ok"
            if isinstance(p.func, ast.Attribute) and p.func.attr in ("enter_context", "push"):
                return "ok"
        if isinstance(p, ast.Return):
            f = enclosing_fn(p)
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.name.startswith("_") and f.name not in helpers:
                helpers[f.name] = f
                return "helper"
            return "ok" if isinstance(f, ast.FunctionDef) and f.name in helpers else ("bad", "the open handle is returned")
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
            return variable(p, p.targets[0].id)
        if isinstance(p, ast.Attribute):
            return "bad", "the handle is used without being kept, so it cannot be closed"
        if isinstance(p, ast.Expr):
            return "bad", "the handle is dropped"
        if isinstance(p, ast.Subscript):
            return "bad", "the handle is used without being kept, so it cannot be closed"
        if isinstance(p, ast.Call):
            return "und"
        return "und"

    def block_of(s):
        par = s._parent
        for f in ("body", "orelse", "finalbody"):
            b = getattr(par, f, None)
            if isinstance(b, list) and s in b:
                return b, b.index(s)
        return None, None

    def closes(stmts, name):
        for s in stmts:
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("close", "terminate", "shutdown", "__exit__") and isinstance(
                        x.func.value, ast.Name) and x.func.value.id == name:
                    return True
        return False

    def variable(a, name):
        b, i = block_of(a)
        if b is None:
            return "und"
        fn = enclosing_fn(a)
        # inside a try with a finally that closes
        t = a._parent
        while t is not None and t is not fn:
            if isinstance(t, ast.Try) and closes(t.finalbody, name):
                return "ok"
            t = getattr(t, "_parent", None)
        for s in b[i + 1:]:
            if isinstance(s, ast.Try):
                if closes(s.finalbody, name):
                    return "ok"
                return "bad", "no finally block closes %s" % name
            if isinstance(s, (ast.With, ast.AsyncWith)) and any(
                    (isinstance(it.context_expr, ast.Name) and it.context_expr.id == name) or
                    (isinstance(it.context_expr, ast.Call) and any(isinstance(y, ast.Name) and y.id == name for y in it.context_expr.args)) for it in s.items):
                return "ok"
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Name) and s.value.id == name:
                f = enclosing_fn(s)
                if f.name not in helpers:
                    helpers[f.name] = f
                return "helper"
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and closes([s], name):
                return "ok"
            if any(isinstance(x, (ast.Call, ast.Subscript, ast.Raise, ast.Attribute, ast.BinOp)) for x in ast.walk(s)):
                # something that can raise happens while the handle is open and unprotected
                if isinstance(s, (ast.Assign, ast.Expr)) and not any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(s)) and not any(
                        isinstance(x, (ast.Call, ast.Raise)) for x in ast.walk(s)):
                    continue
                esc = [x for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and False]
                if kept_elsewhere(fn, name):
                    return "und"
                return "bad", "%s stays open if a statement before its close() raises" % name if closes(b[i + 1:], name) else "%s is never closed" % name
        if kept_elsewhere(fn, name):
            return "und"
        return "bad", "%s is never closed" % name

    def kept_elsewhere(fn, name):
        """the handle is stored in an object, yielded or handed to an exit stack"""
        for x in ast.walk(fn):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == name and not isinstance(x.targets[0], ast.Name):
                return True
            if isinstance(x, (ast.Yield, ast.YieldFrom)) and x.value is not None and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x.value)):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("enter_context", "push", "callback", "register") and any(
                    isinstance(y, ast.Name) and y.id == name for y in ast.walk(x)):
                return True
        return False

    def module(m):
        names = import_names(m)
        und = 0
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and live(n):
                d = is_open(n, names)
                if d is None or d == "path.open?":
                    continue
                c.count("resources opened")
                v = verdict(n, names)
                if isinstance(v, tuple):
                    raise Violation("%s: %s" % (enclosing(n), d.split(".")[-1]), "%s(): %s" % (d, v[1]), loc(n))
                und += v == "und"
        if und:
            raise Und("%d handles are passed on" % und)
        return "all resources closed"
    for _ in range(2):
        before = len(helpers)
        for m in mods:      # collect helpers that return handles first
            names = import_names(m)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and is_open(n, names) not in (None, "path.open?"):
                    verdict(n, names)
        c.counters.pop("resources opened", None)
        if len(helpers) == before:
            break
    for m in mods:
        c.ob("resources of " + m.name, module, m)


# =============================================================================================== C22
def c22(c):
    c.rule = ("path analysis with an option value different from every documented one: no path of the operation returns normally, and nothing is written before the rejection")
    W = c.w
    c.floor = 40
    I = W.I
    from ..catalogue import Scene, image_method
    OPT = mk("other", "option")
    vals = [("another string", OPT), ("an unknown word", const("nonsense")), ("an empty string", const(""))]
    numeric = [("a number", const(7))]

    def reject(label, make, what, ok_none=False):
        sc = make()
        r = execute(W, sc)
        if r.ok:
            if any(is_unknown(x) for x in r.st.pc):
                raise Und("%s: depends on an unresolved condition" % what)
            raise Violation(label, "%s is accepted and %s is returned" % (what, show(r.v, 3)[:80] if r.v is not None else "nothing"),
                            "")
        if not r.raised:
            raise Und("no path ends")
        for ev in r.events:
            if ev["kind"] in ("fs", "filewrite") and ev.get("op", "write") in ("write", "mkdir", "remove", "unlink", "rename"):
                raise Violation(label + ": effect", "%s is rejected only after a file-system effect" % what, ev.get("loc") or "")
        return "rejected: " + ", ".join(sorted({str(x[1]) for x in r.raised}))

    def is_unknown(cnd):
        return False

    def fn(dotted, build):
        def make(v):
            st = W.st()
            b = build(st, v)
            a, kw, ctx = (list(b) + [{}, None])[:3] if isinstance(b, tuple) else (b, {}, None)
            return Scene(st, W.fn(st, dotted), a, kw, ctx)
        return make

    def meth(name, build, variant="plain"):
        def make(v):
            mkm = image_method(W, variant, name, lambda W_, st: build(st, v))
            return mkm()
        return make
    X = lambda st: W.plain(st, "X", h, w_)
    targets = [
        ("demosaic mode", fn(P + "demosaic", lambda st, v: ([W.data(st)], {"option": v})), True),
        ("demosaic method mode", meth("demosaic", lambda st, v: [v]), True),
        ("congrid kind", fn(P + "congrid", lambda st, v: ([X(st), lst(W, st, 90, 80)], {"kind": v})), True),
        ("raw merge mode", fn(P + "merge_rawfiles_to_fits", lambda st, v: (
            [lst(W, st, "/in/a.raw", "/in/b.raw"), const("/out/s.fits"), h, w_], {"mode": v})), True),
        ("occulter finder method", fn(P + "find_occulter_position", lambda st, v: ([W.data(st)], {"method": v})), True),
        ("saved parameter", meth("save_param_as_fits", lambda st, v: [v, const("/out/a.fits")]), True),
        ("shown parameter", meth("show_pol_param", lambda st, v: [v]), True),
        ("saved parameter (demosaiced)", meth("save_param_as_fits", lambda st, v: [v, const("/out/a.fits")], "demosaiced-mean"), True),
    ]
    for label, make, strings in targets:
        for vn, v in vals:
            c.ob("%s: %s" % (label, vn), lambda make=make, v=v, label=label, vn=vn: reject(label, lambda: make(v), "%s %s" % (label, vn)))
    bad_inits = [("a number", lambda st: const(3)), ("None", lambda st: NONE), ("a dictionary", lambda st: I.new_dict(st, [(const(1), const(2))])),
                 ("a float", lambda st: const(tm.Fraction(5, 2)))]
    for cls, nm in ((IMG, "MicropolImage"), (BASE, "Image")):
        for vn, b in bad_inits:
            c.ob("%s initializer: %s" % (nm, vn), lambda cls=cls, b=b, nm=nm, vn=vn: reject(
                nm + " initializer", lambda: (lambda st: Scene(st, W.fn(st, cls), [b(st)]))(W.st()), "%s initialised from %s" % (nm, vn)))
    for op, nm in (("__add__", "+"), ("__sub__", "-"), ("__mul__", "*"), ("__truediv__", "/")):
        for vn, v in (("a string", const("abc")), ("None", NONE), ("another string", OPT)):
            def opm(op=op, v=v, nm=nm, vn=vn):
                sc = image_method(W, "plain", op, lambda W_, st: [v])()
                r = execute(W, sc)
                if r.ok and "NotImplemented" in show(r.v):
                    return "NotImplemented"
                if r.ok:
                    raise Violation("operator " + nm, "image %s %s is accepted" % (nm, vn), "")
                if not r.raised:
                    raise Und("no path ends")
                return "rejected"
            c.ob("image %s %s" % (nm, vn), opm)
