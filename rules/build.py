"""Compile the analysis drivers against /repo's current headers and extract their IR.

Nothing is taken from an earlier run: every call compiles anew into a private directory.
"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("MDDS_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
IRX = os.path.join(BUILD, "irx")

FLAGS = ["-std=c++20", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-limit-debug-info", "-DNDEBUG",
         "-Xclang", "-mno-constructor-aliases", "-Wno-everything", "-I" + REPO + "/include", "-I" + REPO + "/_build/include"]


class Broken(Exception):
    """the analysis could not be carried out (error exit, neither pass nor violation)"""


def tools():
    """build the extractor and the polyhedral core when they are missing or older than their source"""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(ROOT, "tool", "irx.cpp")
    if not os.path.exists(IRX) or os.path.getmtime(IRX) < os.path.getmtime(src):
        cxx = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
        cxx = [x for x in cxx if not x.startswith("-std=") and x != "-fno-exceptions"]
        ld = subprocess.check_output(["llvm-config-18", "--ldflags", "--libs"], text=True).split()
        t = IRX + ".%d" % os.getpid()
        subprocess.check_call(["clang++-18", "-O2", "-std=c++20"] + cxx + [src, "-o", t] + ld)
        os.replace(t, IRX)
    so = os.path.join(BUILD, "libpolycore.so")
    src = os.path.join(ROOT, "tool", "polycore.cpp")
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        t = so + ".%d" % os.getpid()
        import sysconfig
        subprocess.check_call(["g++", "-O3", "-std=c++17", "-shared", "-fPIC", "-I" + sysconfig.get_paths()["include"], src, "-o", t])
        os.replace(t, so)


def config_header():
    """_build/include is made by configure; some headers may need it"""
    return


def compile_ir(name, defs, work, cfg=None, flags=()):
    """-> path of the extracted json of drivers/<name>.cpp"""
    tag = name + "".join("_" + d.replace("=", "") for d in defs)
    bc = os.path.join(work, tag + ".bc")
    js = os.path.join(work, tag + ".json")
    src = os.path.join(ROOT, "drivers", name + ".cpp")
    r = subprocess.run(["clang++-18"] + FLAGS + ["-D" + d for d in defs] + list(flags) + ["-emit-llvm", "-c", src, "-o", bc],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken("driver %s does not compile against the current headers:\n%s" % (tag, r.stdout[-3000:]))
    r = subprocess.run([IRX, bc, js, os.path.join(ROOT, "drivers", (cfg or name) + ".cfg")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken("extractor failed on %s: %s" % (tag, r.stdout[-2000:]))
    os.unlink(bc)
    return js


class Work:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="mddsverif.")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def all(self, jobs):
        """jobs: list of (name, defs, cfg, compiler flags)"""
        tools()
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda j: compile_ir(j[0], j[1], self.dir, j[2] if len(j) > 2 else None, j[3] if len(j) > 3 else ()), jobs))


if __name__ == "__main__":
    # development: build.py OUTDIR name [DEF..] -> OUTDIR/x.json
    tools()
    if len(sys.argv) > 2:
        print(compile_ir(sys.argv[2], sys.argv[3:], sys.argv[1]))
