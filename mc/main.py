import base64, importlib, json, os, pickle, shutil, sys, traceback
from . import build as B
from .core import Ctx, FirstViolation, _Null


def main(argv):
    args = [a for a in argv if not a.startswith("--")]
    replay = None
    if "--replay" in argv:
        path = argv[argv.index("--replay") + 1]
        args.remove(path)
        d = json.load(open(path))
        replay = dict(section=d["section"], case=pickle.loads(base64.b64decode(d["pickled"])), path=path)
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    ctx = Ctx(pid, tier, int(os.environ.get("VERIF_SEED", "1") or 1), replay)
    top = B.build()
    ctx.scratch = top
    me = os.getpid()
    cwd = os.getcwd()
    try:
        sys.path.insert(0, top)
        so, se = sys.stdout, sys.stderr
        sys.stdout = _Null()
        if not os.environ.get("MC_DEBUG"):
            sys.stderr = _Null()
        import CifFile
        import CifFile.StarScan
        from CifFile.drel import drel_lex, drel_ast_yacc, py_from_ast, drel_runtime
        sys.stdout, sys.stderr = so, se
        assert CifFile.__file__.startswith(top), CifFile.__file__
        mod = importlib.import_module("checks." + pid.lower())
        try:
            mod.run(ctx)
        except FirstViolation:
            pass
        rc = ctx.finish()
    finally:
        if os.getpid() == me:
            os.chdir(cwd)
            shutil.rmtree(top, ignore_errors=True)
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except B.BuildError as e:
        print("BUILD-ERROR %s" % e)
        rc = 2
    sys.exit(rc)
