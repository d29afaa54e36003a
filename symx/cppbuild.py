"""Compiles the C++ engine of the current /repo tree, symbolic and concrete, into a scratch directory."""
import os, re, sys, subprocess, sysconfig, tempfile, shutil, atexit, glob, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


def _nb():
    import nanobind
    return os.path.dirname(nanobind.__file__)


_TOK = re.compile(r"""//[^\n]*|/\*.*?\*/|^[ \t]*\#(?:[^\n]*\\\n)*[^\n]*|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])+'"""
                  r"""|(?<![\w.])(?P<f>(?:\d[\d']*\.\d*|\.\d+)(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+)(?![\w.])""", re.S | re.M)


def reals(text):
    """floating-point literals become values of the engine's number type: 0.5 -> double(0.5), and double is the symbolic type"""
    return _TOK.sub(lambda m: f"double({m.group('f')})" if m.group("f") else m.group(0), text)


class Build:
    """starts the compilations in the background; wait(kind) -> path of the shared object, or None"""

    def __init__(self, kinds=("sym", "con")):
        self.dir = tempfile.mkdtemp(prefix="symxcpp")
        self.owner = os.getpid()
        atexit.register(self.cleanup)
        nb = _nb()
        inc = ["-I" + sysconfig.get_paths()["include"], "-I" + os.path.join(nb, "include"), "-I" + os.path.join(nb, "ext", "robin_map", "include"), "-I" + HERE + "/cpp", "-I" + REPO, "-I" + REPO + "/uxsim/trafficpp"]
        base = ["g++", "-std=gnu++17", "-fPIC", "-fvisibility=hidden", "-fno-strict-aliasing", "-w", "-DNB_COMPACT_ASSERTIONS"]
        self.procs = {}
        self.log = {}

        def tree(name, f):
            """a copy of the engine's sources, rewritten by f"""
            src = os.path.join(self.dir, name, "uxsim", "trafficpp")
            shutil.copytree(os.path.join(REPO, "uxsim", "trafficpp"), src, ignore=shutil.ignore_patterns("*.so", "build"))
            for p in glob.glob(src + "/*.cpp") + glob.glob(src + "/*.h"):
                t = open(p).read()
                u = f(t, os.path.basename(p))
                if u != t:
                    open(p, "w").write(u)
            return ["-I" + os.path.join(self.dir, name), "-I" + src]

        lit = lambda t, b: t if b.startswith("bindings") else reals(t)

        def go(name, args, cc=base, first=()):
            f = open(os.path.join(self.dir, name + ".log"), "w")
            self.procs[name] = subprocess.Popen(list(cc) + list(first) + inc + args, stdout=f, stderr=f)
        go("nb", ["-O1", "-DNDEBUG", "-c", os.path.join(nb, "src", "nb_combined.cpp"), "-o", self.dir + "/nb.o"])
        if "sym" in kinds:
            go("sym", ["-O0", "-DSYMX", "-D_GLIBCXX_ASSERTIONS", "-c", HERE + "/cpp/module.cpp", "-o", self.dir + "/sym.o"], first=tree("symsrc", lit))
        if "con" in kinds:
            go("con", ["-O0", "-D_GLIBCXX_ASSERTIONS", "-c", HERE + "/cpp/module.cpp", "-o", self.dir + "/con.o"])
        omp = [k for k in kinds if k.startswith("omp")]
        if omp:
            # the engine with OpenMP, every memory access instrumented; `atomic` needs scalars: a critical section instead
            atom = lambda t, b: re.sub(r"#\s*pragma\s+omp\s+atomic\b.*", "#pragma omp critical (symx_atomic)", t)
            inc2 = {"ompsym": tree("ompsymsrc", lambda t, b: atom(lit(t, b), b)) if "ompsym" in omp else [], "ompcon": tree("ompsrc", atom)}
            cl = ["clang++"] + base[1:]
            go("rt", ["-O1", "-c", HERE + "/cpp/omp/omprt.cpp", "-o", self.dir + "/rt.o"], cl)
            for k in omp:
                go(k, ["-O0", "-DSYMXOMP"] + (["-DSYMX"] if k == "ompsym" else []) + ["-D_GLIBCXX_ASSERTIONS", "-fopenmp", "-femulated-tls", "-fsanitize=thread", "-c", HERE + "/cpp/module.cpp", "-o", self.dir + f"/{k}.o"], cl,
                   ["-I" + HERE + "/cpp/omp"] + inc2[k])
        self.done = {}

    def cleanup(self):
        if os.getpid() == self.owner:
            for p in self.procs.values():
                if p.poll() is None:
                    p.kill()
            shutil.rmtree(self.dir, ignore_errors=True)

    def publish(self):
        """link in the background and leave a marker for the worker processes"""
        import threading
        self.marks = [os.path.join(self.dir, k + ".done") for k in self.procs if k not in ("nb", "rt")]

        def run():
            for k in [k for k in self.procs if k not in ("nb", "rt")]:
                so = self.wait(k)
                with open(os.path.join(self.dir, k + ".tmp"), "w") as f:
                    f.write(so or ("!" + self.log.get(k, "")))
                os.rename(os.path.join(self.dir, k + ".tmp"), os.path.join(self.dir, k + ".done"))
        self.thread = threading.Thread(target=run, daemon=True)
        self.thread.start()
        os.environ["SYMX_CPP_DIR"] = self.dir

    def ready(self):
        return all(map(os.path.exists, self.marks))

    def wait(self, kind):
        if kind in self.done:
            return self.done[kind]
        out = None
        omp = kind.startswith("omp")
        if self.procs["nb"].wait() == 0 and (not omp or self.procs["rt"].wait() == 0) and self.procs[kind].wait() == 0:
            so = os.path.join(self.dir, kind, "uxsim_cpp.so")
            os.makedirs(os.path.dirname(so), exist_ok=True)
            r = subprocess.run(["g++", "-shared", "-o", so, self.dir + f"/{kind}.o", self.dir + "/nb.o"] + ([self.dir + "/rt.o", "-Wl,-Bsymbolic"] if omp else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                out = so
            else:
                self.log[kind] = r.stdout[-3000:]
        else:
            self.log[kind] = (open(os.path.join(self.dir, kind + ".log")).read() + open(os.path.join(self.dir, "nb.log")).read())[:3000]
        self.done[kind] = out
        return out


_own = None


def wait_dir(d, kind, timeout=400):
    """path of the shared object being built in directory d by the parent process (None: it does not compile)"""
    global _own
    import time
    if not d:
        _own = Build(kinds=(kind,))
        so = _own.wait(kind)
        if so is None:
            print(_own.log[kind], file=sys.stderr)
        return so
    m = os.path.join(d, kind + ".done")
    t0 = time.time()
    while not os.path.exists(m):
        if time.time() - t0 > timeout or not os.path.isdir(d):
            return None
        time.sleep(0.1)
    so = open(m).read()
    return None if so.startswith("!") else so
