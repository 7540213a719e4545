"""client of pyrun.py: one simulated Python process per worker"""
import json, os, select, subprocess
import pybuild
from core import VERIF, CheckError, build_dir, tree, digest

PY = "/usr/bin/python3"
KINDS = ("mono", "real", "new", "malloc", "py", "thread", "rand", "log", "pymono")


def build_preload():
    src = os.path.join(VERIF, "sim", "pysim.cpp")
    key = digest([src], "ps1")

    def make(d):
        p = subprocess.run(["g++", "-O1", "-g1", "-fPIC", "-shared", "-w", "-std=c++17", "-o", d + "/libpysim.so", src, "-ldl", "-lpthread"], capture_output=True, text=True)
        if p.returncode:
            raise CheckError("preload library: " + p.stderr[-3000:])
    return os.path.join(build_dir("pysim", key, make), "libpysim.so")


class PySim:
    def __init__(self):
        d = pybuild.build_package()
        env = dict(os.environ, LD_PRELOAD=build_preload(), PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   XDG_DATA_HOME="/nonexistent", HOME="/nonexistent")
        env.pop("VIRTUAL_ENV", None)
        self.p = subprocess.Popen(["setarch", "-R", PY, "-B", os.path.join(VERIF, "lib", "pyrun.py"), d, pybuild.SITE, os.path.join(VERIF, "lib")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, bufsize=0)
        self.buf = b""

    def close(self):
        self.p.stdin.close()
        self.p.wait(20)

    def run(self, case):
        b = json.dumps(case).encode()
        b = b"%08x" % len(b) + b
        while b:
            b = b[self.p.stdin.write(b):]
        limit = 10 * case.get("limit", 30) + 60
        while b"\n" not in self.buf:
            if not select.select([self.p.stdout], [], [], limit)[0]:
                raise CheckError("the Python simulator does not answer")
            b = os.read(self.p.stdout.fileno(), 1 << 20)
            if not b:
                raise CheckError("the Python simulator ended")
            self.buf += b
        line, self.buf = self.buf.split(b"\n", 1)
        r = json.loads(line)
        if "harness" in r:
            raise CheckError(r["harness"])
        return r
