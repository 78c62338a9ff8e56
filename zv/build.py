"""Instrumented builds of /repo's current working tree, outside /repo, cached by content."""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZV_REPO", "/repo")
CACHE = os.environ.get("ZV_CACHE", os.path.join(VERIF, ".build"))
SKIP = {"obj", "lib", "bin", "include", ".git"}
OS = "linux" + os.uname().release.split(".")[0]
SAN = ("-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined "
       "-fno-sanitize-recover=undefined -fno-sanitize=vptr -D_GLIBCXX_ASSERTIONS")
FLAGS = {"san": SAN, "plain": "-O1 -g1"}
LIBS = ["-lzmdpLifeSurvey", "-lzmdpExec", "-lzmdpSearch", "-lzmdpPomdpCore", "-lzmdpPomdpBounds",
        "-lzmdpPomdpParser", "-lzmdpBounds", "-lzmdpRaceTrack", "-lzmdpCommon", "-lm"]


class BuildError(Exception):
    pass


def src_files():
    out = []
    root = os.path.join(REPO, "src")
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in SKIP)
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.isfile(p):
                out.append((os.path.relpath(p, root), p))
    return [(r, p) for r, p in out if not r.startswith("tests/testTmp")]


def tree_hash(kind):
    h = hashlib.sha256()
    h.update((kind + FLAGS[kind]).encode())
    h.update(open(os.path.join(VERIF, "zv", "shim.c"), "rb").read())
    for r, p in src_files():
        h.update(r.encode() + b"\0")
        h.update(open(p, "rb").read())
        h.update(b"\0")
    return h.hexdigest()[:16]


def run(cmd, cwd, log):
    with open(log, "ab") as f:
        f.write((" ".join(cmd) + "\n").encode())
        f.flush()
        env = {k: v for k, v in os.environ.items() if k not in ("MAKEFLAGS", "MFLAGS", "TEST", "DEPEND", "NO_DEPEND")}
        env["LC_ALL"] = "C"
        rc = subprocess.call(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, env=env)
    if rc != 0:
        tail = open(log, "rb").read()[-3000:].decode("latin1")
        raise BuildError("build step failed (%s):\n%s" % (" ".join(cmd), tail))


class Tree:
    def __init__(self, top, kind):
        self.top = top
        self.kind = kind
        self.src = os.path.join(top, "tree", "src")
        self.bin = os.path.join(top, "tree", "bin", OS)
        self.lib = os.path.join(top, "tree", "lib", OS)
        self.inc = os.path.join(top, "tree", "include")

    def exe(self, name="zmdp"):
        return os.path.join(self.bin, name)

    def program(self, sub, name):
        """A program of the tree that the top-level build leaves out, built with its own makefile."""
        out = self.exe(name)
        with Lock(self.top):
            if not os.path.exists(out):
                mk = ["make", "-fMakefile", "CC=gcc -fcommon", "USER_CFLAGS=" + FLAGS[self.kind],
                      "LD=g++ " + os.path.join(self.top, "shim.o"), "-j4"]
                run(mk, os.path.join(self.src, sub), os.path.join(self.top, "program_%s.log" % name))
        if not os.path.exists(out):
            raise BuildError("no %s binary was built" % name)
        return out

    def probe(self, name):
        """Compile /verif/probes/<name>.cc against this tree's libraries."""
        src = os.path.join(VERIF, "probes", name + ".cc")
        h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
        out = os.path.join(self.top, "probe_%s_%s" % (name, h))
        if os.path.exists(out):
            return out
        with Lock(self.top):
            if os.path.exists(out):
                return out
            tmp = out + ".tmp"
            cmd = (["g++", "-fpermissive", "-w", "-I" + self.inc] + FLAGS[self.kind].split() +
                   ["-o", tmp, src, os.path.join(self.top, "shim.o"), "-L" + self.lib] +
                   ["-Wl,--start-group"] + LIBS + ["-Wl,--end-group"])
            run(cmd, self.top, os.path.join(self.top, "probe_%s.log" % name))
            os.rename(tmp, out)
        return out


class Lock:
    def __init__(self, path):
        self.path = path + ".lock"

    def __enter__(self):
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def ensure(kind="san"):
    top = os.path.join(CACHE, kind + "-" + tree_hash(kind))
    t = Tree(top, kind)
    done = os.path.join(top, "done")
    if os.path.exists(done):
        return t
    with Lock(top):
        if os.path.exists(done):
            return t
        shutil.rmtree(top, ignore_errors=True)
        # keep the cache small: drop older trees of the same kind
        if os.path.isdir(CACHE):
            old = sorted((os.path.getmtime(os.path.join(CACHE, d)), d) for d in os.listdir(CACHE)
                         if d.startswith(kind + "-") and os.path.isdir(os.path.join(CACHE, d)))
            for _, d in old[:-6]:
                shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        os.makedirs(top)
        for r, p in src_files():
            q = os.path.join(t.src, r)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copy2(p, q)
        log = os.path.join(top, "log")
        shim = os.path.join(top, "shim.o")
        run(["gcc", "-O1", "-g1", "-c", os.path.join(VERIF, "zv", "shim.c"), "-o", shim], top, log)
        mk = ["make", "-fMakefile", "CC=gcc -fcommon", "USER_CFLAGS=" + FLAGS[kind], "LD=g++ " + shim]
        run(mk + ["headerinstall"], t.src, log)
        run(mk + ["-j8", "libinstall"], t.src, log)
        run(mk + ["-j8", "bininstall"], t.src, log)
        if not os.path.exists(t.exe()):
            raise BuildError("no zmdp binary was built; see " + log)
        open(done, "w").write("ok\n")
    return t


if __name__ == "__main__":
    t0 = time.time()
    for k in sys.argv[1:] or ["san"]:
        print(k, ensure(k).top, "%.1fs" % (time.time() - t0))
