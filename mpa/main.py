"""python3-vt mpa/main.py <property> --tier quick|thorough"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)

from mpa.check import Check   # noqa: E402


def registry():
    from mpa.checks import alias, images, arrays, effects, files, kernels, calib, regions, frames, cwl, graphics, helpers, orient, levels, finder
    return {"C01": alias.c01, "C02": alias.c02, "C03": images.c03, "C04": images.c04, "C05": images.c05,
            "C06": arrays.c06, "C07": arrays.c07, "C09": arrays.c09, "C28": arrays.c28, "C29": arrays.c29,
            "C21": effects.c21, "C22": effects.c22, "C23": effects.c23, "C24": effects.c24, "C15": effects.c15,
            "C11": files.c11, "C12": files.c12, "C13": files.c13, "C14": files.c14, "C25": files.c25, "C08": kernels.c08, "C10": kernels.c10,
            "C16": calib.c16, "C17": calib.c17, "C18": calib.c18, "C19": calib.c19, "C20": calib.c20, "C31": calib.c31, "C26": regions.c26, "C27": regions.c27, "C30": regions.c30,
            "C32": frames.c32, "C33": cwl.c33, "C34": graphics.c34, "C35": helpers.c35, "C36": finder.c36, "C37": finder.c37, "C38": orient.c38, "C39": levels.c39}


def run(prop, tier):
    c = Check(prop, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    registry()[prop](c)
    return c.finish()


def undefined_names():
    """Global names the checker's own code uses without defining them (they would turn findings into internal errors)."""
    import builtins
    import dis
    import types
    bad = []

    def codes(c):
        yield c
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                yield from codes(k)
    registry()
    for name, m in sorted(sys.modules.items()):
        if not name.startswith("mpa.") or not getattr(m, "__file__", None):
            continue
        for c in codes(compile(open(m.__file__).read(), m.__file__, "exec")):
            for i in dis.get_instructions(c):
                if i.opname == "LOAD_GLOBAL" and i.argval not in m.__dict__ and not hasattr(builtins, i.argval):
                    bad.append("%s %s (line %d): %s" % (name, c.co_name, c.co_firstlineno, i.argval))
    return bad


def main(argv):
    tier = "quick"
    args = []
    it = iter(argv)
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif not a.startswith("--"):
            args.append(a)
    if "--selfcheck" in argv:
        from mpa.check import World
        bad = undefined_names()
        if bad:
            print("undefined names in the checker: " + "; ".join(bad))
            return 3
        w = World(None)
        print("analysed package: %d modules, digest %s; checks: %s" % (len(w.repo.modules), w.repo.digest[:12], " ".join(sorted(registry()))))
        return 0
    if args == ["all"]:
        args = sorted(registry())
    rc = 0
    for p in args:
        rc = max(rc, run(p, tier))
    return rc


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.exit(out[0] if out else 3)
