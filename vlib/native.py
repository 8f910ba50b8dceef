"""Content-addressed build of the two C++ extensions of /repo's working tree.

Every translation unit is keyed by the hash of its own and all its (quoted-include) dependencies' text with comments and
blank lines removed, so the object of an unchanged unit is reused from /verif/build (made by setup_cmd, or by whichever
check runs first) and a changed unit is compiled.  Nothing is taken from /repo's own (possibly stale) build products.

The only difference to the repository's own build: the modules are linked with a definition of
std::chrono::system_clock::now() and rand()/srand() of our own (clockshim.cpp), so that the generators that seed
themselves from the clock can be reset for every generated case.
"""
import fcntl
import hashlib
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, "build", "native")
SITE = "/opt/venv/lib/python3.12/site-packages"
TORCH = SITE + "/torch"
EXT = ".cpython-312-x86_64-linux-gnu.so"

_TOK = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', re.S)


def strip_comments(text):
    """Remove comments, trailing space and empty lines."""
    text = _TOK.sub(lambda m: " " if m.group(0).startswith("/") else m.group(0), text)
    return "\n".join(x.rstrip() for x in text.split("\n") if x.strip())


class BuildError(RuntimeError):
    """The native build failed."""


class Tree:
    def __init__(self, repo):
        self.repo = repo
        self.text, self.deps = {}, {}
        self.incdirs = [repo + "/src/rpucuda", repo + "/src/aihwkit/extension/extension_src",
                        repo + "/src/aihwkit/extension/extension_src/ops"]

    def read(self, path):
        if path not in self.text:
            with open(path, encoding="utf-8", errors="replace") as f:
                self.text[path] = strip_comments(f.read())
        return self.text[path]

    def direct(self, path):
        if path not in self.deps:
            out = []
            for name in re.findall(r'^\s*#\s*include\s*["<]([^">]+)[">]', self.read(path), re.M):
                for d in [os.path.dirname(path)] + self.incdirs:
                    p = os.path.normpath(os.path.join(d, name))
                    if os.path.isfile(p):
                        out.append(p)
                        break
            self.deps[path] = out
        return self.deps[path]

    def closure(self, path):
        seen, todo = set(), [path]
        while todo:
            p = todo.pop()
            if p not in seen:
                seen.add(p)
                todo.extend(self.direct(p))
        return sorted(seen)

    def key(self, path, flags):
        h = hashlib.sha256(repr(flags).encode())
        h.update(os.path.relpath(path, self.repo).encode())
        for p in self.closure(path):
            h.update(os.path.relpath(p, self.repo).encode() + b"\0" + self.read(p).encode() + b"\0")
        return h.hexdigest()[:40]


def _ls(d, suffix=".cpp"):
    return [os.path.join(d, x) for x in sorted(os.listdir(d)) if x.endswith(suffix) and not x.endswith("_test.cpp")]


def _flags(repo):
    com = ["-DRPU_USE_OPENBLAS", "-DRPU_USE_WITH_TORCH", "-D_GLIBCXX_USE_CXX11_ABI=1", "-I/usr/include/python3.12",
           f"-I{SITE}/pybind11/include", f"-I{TORCH}/include", f"-I{TORCH}/include/torch/csrc/api/include",
           f"-isystem{repo}/src/rpucuda", f"-I{repo}/src/aihwkit/extension/extension_src",
           f"-I{repo}/src/aihwkit/extension/extension_src/ops", "-fopenmp", "-w", "-DNDEBUG", "-O3",
           "-ftree-vectorize", "-std=gnu++17", "-fPIC"]
    return com


def build(verbose=False):
    """Build what is needed; returns {module name: path of .so}."""
    os.makedirs(CACHE + "/obj", exist_ok=True)
    with open(CACHE + "/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(verbose)


def _build(verbose):
    tree = Tree(REPO)
    flags = _flags(REPO)
    shim = os.path.join(HERE, "vlib", "clockshim.cpp")
    mods = {
        "aihwkit.simulator.rpu_base": (
            [(p, ()) for p in _ls(REPO + "/src/rpucuda")]
            + [(p, ("-fvisibility=hidden", "-Drpu_base_EXPORTS")) for p in _ls(REPO + "/src/aihwkit/simulator/rpu_base_src")]
            + [(shim, ())],
            [f"-L{TORCH}/lib", f"-Wl,-rpath,{TORCH}/lib", "-ltorch_python", "/usr/lib/x86_64-linux-gnu/libopenblas.so"]),
        "aihwkit.extension.aihwkit_extension": (
            [(p, ()) for p in _ls(REPO + "/src/aihwkit/extension/extension_src/ops")]
            + [(p, ("-fvisibility=hidden",)) for p in _ls(REPO + "/src/aihwkit/extension/extension_src")],
            [f"-L{TORCH}/lib", f"-Wl,-rpath,{TORCH}/lib", "-ltorch_python", "-lc10", "-ltorch_cpu"]),
    }
    jobs, plan = {}, {}
    for mod, (units, libs) in mods.items():
        keys = []
        for path, extra in units:
            base = shim == path
            k = tree.key(path, (flags[:3] + flags[9:], extra, base))
            keys.append(k)
            obj = f"{CACHE}/obj/{k}.o"
            if not os.path.exists(obj):
                jobs[k] = (path, extra, obj)
        plan[mod] = (keys, libs)

    def cc(job):
        path, extra, obj = job
        tmp = f"{obj}.{os.getpid()}.tmp"
        r = subprocess.run(["g++", *flags, *extra, "-o", tmp, "-c", path], capture_output=True, text=True)
        if r.returncode != 0:
            return f"{path}: {r.stderr[-2000:]}"
        os.replace(tmp, obj)
        return None

    if jobs:
        # biggest units first
        order = sorted(jobs.values(), key=lambda j: -sum(os.path.getsize(p) for p in tree.closure(j[0])) - (10**7 if "rpu_base_src" in j[0] else 0))
        if verbose:
            print(f"native: compiling {len(order)} unit(s)", file=sys.stderr, flush=True)
        with ThreadPoolExecutor(8) as ex:
            bad = [x for x in ex.map(cc, order) if x]
        if bad:
            raise BuildError(bad[0])
    out = {}
    for mod, (keys, libs) in plan.items():
        k = hashlib.sha256(repr((keys, libs)).encode()).hexdigest()[:32]
        d = f"{CACHE}/so/{k}"
        so = f"{d}/{mod.rsplit('.', 1)[1]}{EXT}"
        if not os.path.exists(so):
            os.makedirs(d, exist_ok=True)
            r = subprocess.run(["g++", "-fPIC", "-fopenmp", "-shared", "-Wl,-Bsymbolic-functions", "-o", so + ".tmp",
                                *[f"{CACHE}/obj/{x}.o" for x in keys], *libs, "-s"], capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError(r.stderr[-2000:])
            os.replace(so + ".tmp", so)
        out[mod] = so
    return out


class Finder:
    """sys.meta_path finder that loads the extension modules from the built location."""

    def __init__(self, paths):
        self.paths = paths

    def find_spec(self, name, path=None, target=None):
        if name in self.paths:
            import importlib.util
            return importlib.util.spec_from_file_location(name, self.paths[name])
        return None


if __name__ == "__main__":
    print(build(verbose=True))
