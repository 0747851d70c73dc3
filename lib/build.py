"""Builds: the symbolic engine (cached by content), instrumented harnesses and the real replay programs (always from REPO)."""
import glob, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYM_REPO_DIR", "/repo")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CLANG, OPT, LINK, GXX = "/usr/bin/clang++-18", "/usr/bin/opt-18", "/usr/bin/llvm-link-18", "/usr/bin/g++"
REALFLAGS = "-include iterator -include limits -Wall -w -std=c++11 -O3 -ffast-math -fwrapv -march=native".split()
RT = ["poly", "fp", "explore", "hooks", "int"]


class BuildError(Exception):
    pass


def sh(cmd, env=None, timeout=600, cwd=None):
    e = dict(os.environ, LC_ALL="C.UTF-8")
    for k in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "CPPFLAGS", "MAKEFLAGS"):
        e.pop(k, None)
    if env:
        e.update(env)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=e, timeout=timeout, cwd=cwd)
    if r.returncode:
        raise BuildError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def par(jobs):
    """jobs: list of command lists, run in parallel"""
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(sh, *j) if isinstance(j, tuple) else ex.submit(sh, j) for j in jobs]:
            f.result()


def engine():
    files = sorted(glob.glob(V + "/engine/*"))
    h = hashlib.sha256()
    for f in files:
        h.update(os.path.basename(f).encode() + b"\0" + open(f, "rb").read())
    d = V + "/build/engine-" + h.hexdigest()[:16]
    if os.path.exists(d + "/ok"):
        return d
    tmp = d + ".%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    jobs = [["/usr/bin/g++", "-std=c++17", "-O2", "-w", "-I" + Z3 + "/include", "-c", V + "/engine/rt_%s.cpp" % f, "-o", tmp + "/rt_%s.o" % f] for f in RT]
    cf = sh(["llvm-config-18", "--cxxflags"]).split()
    jobs.append([CLANG, "-O1", "-w", "-shared", "-fPIC"] + cf + ["-fno-rtti", V + "/engine/SymPass.cpp", "-o", tmp + "/SymPass.so"])
    par(jobs)
    open(tmp + "/ok", "w").write("ok\n")
    for old in glob.glob(V + "/build/engine-*"):
        if old != tmp:
            shutil.rmtree(old, ignore_errors=True)
    if os.path.exists(d):
        shutil.rmtree(tmp, ignore_errors=True)
    else:
        os.rename(tmp, d)
    return d


def has_main(path):
    return re.search(r"\bmain\s*\(", open(path, errors="replace").read()) is not None


def sources():
    return sorted(glob.glob(REPO + "/src/*.cc"))


def libsources():
    return [f for f in sources() if not has_main(f)]


PYINC = "/usr/include/python3.12"


def python_dir(tmp, generated):
    if not generated:
        return REPO + "/python_extension"
    d = tmp + "/pygen"
    if not os.path.exists(d):
        os.makedirs(d + "/python_extension")
        os.symlink(REPO + "/src", d + "/src")
        sh(["swig", "-c++", "-o", "python_extension/crossprob.cc", "-python", "src/crossprob.i"], cwd=d)
    return d + "/python_extension"


class Harnesses:
    """instrumented programs built into a scratch directory; repository bitcode is shared between harnesses with equal flags"""

    def __init__(self, tmp):
        self.tmp, self.eng, self.bc = tmp, engine(), {}

    def cflags(self, key):
        intm, asan, ndebug = key
        f = "-std=c++11 -O1 -Xclang -disable-llvm-passes -gline-tables-only -ffast-math -fwrapv -ftrivial-auto-var-init=pattern -include iterator -include limits -w -emit-llvm -c".split()
        f += ["-I" + REPO + "/src", "-I" + V + "/engine", "-I" + V + "/harness"]
        if intm:
            f = ["-include", V + "/engine/strings_inline.h"] + f  # before any library header
        if asan:
            f.append("-fsanitize=address")
        if ndebug:
            f.append("-DNDEBUG")
        return f

    def python_dir(self, main):
        """the directory with the Python module and its wrapper: the committed one, or one generated from src/crossprob.i as `make python` does"""
        return python_dir(self.tmp, main == "pygen")

    def lib(self, key):
        if key in self.bc:
            return self.bc[key]
        d = self.tmp + "/bc-%d%d%d" % key
        os.makedirs(d, exist_ok=True)
        jobs, out = [], []
        for f in libsources():
            o = d + "/" + os.path.basename(f)[:-3] + ".bc"
            out.append(o)
            jobs.append([CLANG] + self.cflags(key) + [f, "-o", o])
        par(jobs)
        self.bc[key] = out
        return out

    def build(self, specs):
        """specs: list of (harness, int, asan, ndebug, main, rng); returns {spec: program}"""
        for s in specs:
            self.lib((s[1], s[2], s[3]))
        for m in sorted({s[4] for s in specs if s[4].startswith("py")}):
            self.python_dir(m)
        with ThreadPoolExecutor(8) as ex:
            fs = {s: ex.submit(self.one, s) for s in specs}
            return {s: f.result() for s, f in fs.items()}

    def one(self, s):
        h, intm, asan, ndebug, main, rng = s
        key = (intm, asan, ndebug)
        name = self.tmp + "/%s-%d%d%d-%s-%d" % (h, intm, asan, ndebug, main or "none", rng)
        bcs = list(self.lib(key))
        py = main.startswith("py")
        inc = ["-I" + PYINC] if py else []
        jobs = [[CLANG] + self.cflags(key) + inc + [V + "/harness/%s.cc" % h, "-o", name + ".h.bc"]]
        bcs.append(name + ".h.bc")
        if py:
            jobs.append([CLANG] + self.cflags(key) + inc + [self.python_dir(main) + "/crossprob.cc", "-o", name + ".m.bc"])
            bcs.append(name + ".m.bc")
        elif main:
            src, ren = {"cli": ("crossprob.cc", "crossprob_main"), "mc": ("crossprob_mc.cc", "crossprob_mc_main")}[main]
            jobs.append([CLANG] + self.cflags(key) + ["-Dmain=" + ren, REPO + "/src/" + src, "-o", name + ".m.bc"])
            bcs.append(name + ".m.bc")
        par(jobs)
        sh([LINK] + bcs + ["-o", name + ".bc"])
        env = {"SYM_COST": "1" if h == "h_cost" else "", "SYM_INT": str(intm), "SYM_STUB_RNG": str(rng), "SYM_REPO": REPO}
        if main == "pygen":
            env["SYM_REPO2"] = self.python_dir(main)
        sh([OPT, "-load-pass-plugin", self.eng + "/SymPass.so", "-passes=internalize,function(mem2reg),sym", "-internalize-public-api-list=sym_harness", name + ".bc", "-o", name + ".s.bc"], env)
        sa = ["-fsanitize=address"] if asan else []
        sh([CLANG, "-O1", "-w"] + sa + ["-c", name + ".s.bc", "-o", name + ".o"])
        sh([CLANG] + sa + [name + ".o"] + [self.eng + "/rt_%s.o" % r for r in RT] + ["-o", name, "-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib", "-lgmpxx", "-lgmp", "-lfftw3", "-lpthread"] + (["-lpython3.12"] if py else []))
        for x in (".bc", ".s.bc", ".o", ".h.bc", ".m.bc"):
            if os.path.exists(name + x):
                os.unlink(name + x)
        return name


class Real:
    """programs built from REPO with the compiler and flags of its Makefile; built on first use"""

    def __init__(self, tmp):
        self.tmp, self.done = tmp + "/real", {}

    def objs(self, variant):
        k = "objs-" + variant
        if k in self.done:
            return self.done[k]
        d = self.tmp + "/" + variant
        os.makedirs(d, exist_ok=True)
        fl = list(REALFLAGS) + (["-DNDEBUG"] if "ndebug" in variant else []) + (["-fsanitize=address", "-g"] if "asan" in variant else [])
        jobs, out = [], {}
        for f in sources():
            o = d + "/" + os.path.basename(f)[:-3] + ".o"
            out[os.path.basename(f)] = (o, has_main(f))
            jobs.append([GXX] + fl + ["-c", f, "-o", o])
        par(jobs)
        self.done[k] = (out, fl)
        return self.done[k]

    def link(self, variant, extra, name):
        objs, fl = self.objs(variant)
        p = self.tmp + "/" + variant + "/" + name
        sh([GXX] + extra + [o for o, m in objs.values() if not m] + ["-march=native", "-g"] + (["-fsanitize=address"] if "asan" in variant else []) + ["-lfftw3", "-o", p])
        return p

    def driver(self, variant="plain"):
        k = "driver-" + variant
        if k not in self.done:
            _, fl = self.objs(variant)
            o = self.tmp + "/" + variant + "/driver.o"
            sh([GXX] + fl + ["-I" + REPO + "/src", "-c", V + "/replay/driver.cc", "-o", o])
            self.done[k] = self.link(variant, [o], "driver")
        return self.done[k]

    def program(self, src, variant="plain"):
        k = src + "-" + variant
        if k not in self.done:
            objs, _ = self.objs(variant)
            self.done[k] = self.link(variant, [objs[src][0]], src[:-3])
        return self.done[k]

    def python(self, variant="plain"):
        """directory with the Python module and its extension, compiled as setup.py does; variant: plain, asan, gen (wrapper generated from src/crossprob.i)"""
        k = "python-" + variant
        if k not in self.done:
            d = self.tmp + "/" + k
            os.makedirs(d)
            src = python_dir(os.path.dirname(self.tmp), "gen" in variant)
            fl = "-DNDEBUG -g -O2 -Wall -w -fPIC -std=c++11 -ffast-math -march=native".split() + ["-I" + PYINC] + (["-fsanitize=address"] if "asan" in variant else [])
            jobs, objs = [], []
            for f in libsources() + [src + "/crossprob.cc"]:
                o = d + "/" + ("wrap" if f.startswith(src) else os.path.basename(f)[:-3]) + ".o"
                objs.append(o)
                jobs.append([GXX] + fl + ["-include", "iterator", "-include", "limits", "-c", f, "-o", o])
            par(jobs)
            sh([GXX, "-shared", "-march=native"] + objs + (["-fsanitize=address"] if "asan" in variant else []) + ["-lfftw3", "-o", d + "/_crossprob.so"])
            shutil.copy(src + "/crossprob.py", d)
            self.done[k] = d
        return self.done[k]

    def mc_shim(self):
        if "mcshim" not in self.done:
            objs, fl = self.objs("plain")
            d = self.tmp + "/mc"
            os.makedirs(d, exist_ok=True)
            shutil.copy(V + "/replay/mc/tinymt64.h", d)
            for f in glob.glob(REPO + "/src/*.hh"):
                shutil.copy(f, d)
            shutil.copy(REPO + "/src/crossprob_mc.cc", d)
            sh([GXX] + fl + ["-c", d + "/crossprob_mc.cc", "-o", d + "/mc.o"])
            self.done["mcshim"] = self.link("plain", [d + "/mc.o"], "crossprob_mc_shim")
        return self.done["mcshim"]
