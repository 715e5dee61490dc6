"""Build PyCIFRW from /repo's current working tree into a private scratch folder.

Nothing is written under /repo: the sources are copied first, every generated
file is thrown away and regenerated from the .nw / .g / .c sources, exactly as
the repository's Makefiles do it.
"""
import os, shutil, subprocess, sys, sysconfig, tempfile

REPO = os.environ.get("MC_REPO", "/repo")
GEN = ["CifFile_module.py", "StarFile.py", "TypeContentsParser.py",
       "YappsStarParser_1_0.py", "YappsStarParser_1_1.py",
       "YappsStarParser_2_0.py", "YappsStarParser_STAR2.py",
       "drel/py_from_ast.py", "drel/drel_runtime.py"]
JUNK = ["drel/parsetab.py", "drel/parser.out"]


class BuildError(Exception):
    pass


def build(repo=REPO):
    top = tempfile.mkdtemp(prefix="mcbuild.")
    pkg = os.path.join(top, "CifFile")
    shutil.copytree(os.path.join(repo, "src"), pkg,
                    ignore=shutil.ignore_patterns("*.so", "*.g.bak", "__pycache__", "testfile"))
    for f in GEN + JUNK:
        p = os.path.join(pkg, f)
        if os.path.exists(p):
            os.remove(p)
    for f in os.listdir(pkg):
        if f.endswith(".g"):
            os.remove(os.path.join(pkg, f))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    env.pop("PYTHONPATH", None)
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    inc = sysconfig.get_paths()["include"]
    cmds = [
        ["make", "-s", "-B", "-C", pkg, "PYTHON=%s -W ignore" % sys.executable,
         "CifFile_module.py", "StarFile.py", "Parsers"],
        ["make", "-s", "-B", "-C", os.path.join(pkg, "drel"), "package"],
        ["gcc", "-shared", "-fPIC", "-O1", "-w", "-I" + inc, "-I" + os.path.join(pkg, "lib"),
         os.path.join(pkg, "lib/lex.yy.c"), os.path.join(pkg, "lib/py_star_scan.c"),
         "-o", os.path.join(pkg, "StarScan" + suffix)],
    ]
    procs = [subprocess.Popen(c, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
             for c in cmds]
    for c, p in zip(cmds, procs):
        out = p.communicate()[0]
        if p.returncode:
            shutil.rmtree(top, ignore_errors=True)
            raise BuildError("%s failed:\n%s" % (c[0], out.decode(errors="replace")[-3000:]))
    for f in GEN:
        p = os.path.join(pkg, f)
        if not os.path.exists(p) or not os.path.getsize(p):
            shutil.rmtree(top, ignore_errors=True)
            raise BuildError("not generated: " + f)
    return top
