"""Builds the Python package of /repo (Cython extensions included) into build/pyext-*/minorminer"""
import sysconfig
from core import *

VENV = "/opt/minorminer-venv"
SITE = VENV + "/lib/python3.12/site-packages"


def build_package():
    root = os.path.join(REPO, "minorminer")
    src = [f for f in tree(root, (".py", ".pyx", ".pxi", ".pxd", ".c", ".h", ".hpp"))
           if not f.endswith("_core.c") and os.path.basename(f) != "subgraph.pyx"]
    inc = tree(os.path.join(REPO, "include"), (".hpp", ".h"))
    key = digest(src + inc, "py5")

    def make(d):
        w = d + "/src"
        for f in src + inc:
            t = os.path.join(w, os.path.relpath(f, REPO))
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copy(f, t)
        ext = sysconfig.get_config_var("EXT_SUFFIX")
        py = ["-I" + sysconfig.get_path("include"), "-Iinclude", "-I.", "-Iminorminer"]
        cy = [VENV + "/bin/python", "-m", "cython", "-3"]

        def job(name, cplus):
            a = "minorminer/%s" % name
            c = a + (".cpp" if cplus else ".c")
            cmd = " ".join(cy + (["--cplus"] if cplus else []) + [a + ".pyx", "-o", c])
            cxx = ("g++ -std=c++17 -fno-rtti" if cplus else "gcc")
            more = "" if cplus else " minorminer/_extern/rpack/src/rpackcore.c -Iminorminer/_extern/rpack/include"
            cmd += " && %s -O1 -g1 -DNDEBUG -fPIC -shared -w -fno-strict-aliasing %s %s%s -o minorminer/%s%s" % (cxx, " ".join(py), c, more, name, ext)
            return subprocess.Popen(["bash", "-c", cmd], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

        jobs = [job("_minorminer", True), job("busclique", True), job("_extern/rpack/_core", False)]
        outs = [(p.communicate()[0], p.returncode) for p in jobs]
        for o, rc in outs:
            if rc:
                raise CheckError("python extension build failed:\n" + o[-4000:])
        os.makedirs(d + "/minorminer")
        for f in tree(w + "/minorminer", (".py", ".so")):
            t = os.path.join(d, os.path.relpath(f, w))
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copy(f, t)
        so = d + "/minorminer/busclique" + ext
        for i in range(NPROCMOD):
            p = d + "/proc%d/minorminer" % i
            os.makedirs(p)
            shutil.copy(so, p + "/busclique" + ext)
        shutil.rmtree(w)
    return build_dir("pyext", key, make)


NPROCMOD = 20
