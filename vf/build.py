"""Builds, from /repo's current working tree: LLVM bitcode for symbolic
execution (every translation unit of the library, the tools when asked for, the
modelled environment and one harness) and native replay executables of the very
same sources."""
import glob, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
SYMEX = os.path.join(VERIF, "build", "symex")
TARGETS = {  # name: (clang target, big endian)
    "host": (None, 0, []),
    "uchar": (None, 0, ["-funsigned-char"]),
    "i386": ("i386-linux-gnu", 0, []),
    "be32": ("mips-linux-gnu", 1, []),
    "be32u": ("mips-linux-gnu", 1, ["-funsigned-char"]),
    "be64": ("mips64-linux-gnuabi64", 1, []),
}

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout

class Tree:
    """A scratch copy of /repo's src directory."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vf-")
        self.src = os.path.join(self.dir, "src")
        shutil.copytree(os.path.join(REPO, "src"), self.src,
                        ignore=shutil.ignore_patterns("*.o", "*.lo", ".libs", ".deps", "*.la", "*.a"))
        self.tmpl = os.path.join(self.src, "libiff", "ifftypes.h.in")
        t = os.path.join(self.src, "libiff", "ifftypes.h")
        if os.path.exists(self.tmpl) and os.path.exists(t):
            os.remove(t)
        self.mkinc(0); self.mkinc(1)
        self.cache = {}
        self.pool = ThreadPoolExecutor(8)

    def close(self):
        self.pool.shutdown(wait=True)
        shutil.rmtree(self.dir, ignore_errors=True)

    def incdir(self, big):
        d = os.path.join(self.dir, "inc-%d" % big)
        return d

    def mkinc(self, big):
        d = self.incdir(big)
        if os.path.exists(self.tmpl):
            os.makedirs(d)
            s = open(self.tmpl).read().replace("@IFF_BIG_ENDIAN@", str(big))
            open(os.path.join(d, "ifftypes.h"), "w").write(s)

    def sources(self, tool):
        l = sorted(glob.glob(os.path.join(self.src, "libiff", "*.c")))
        if tool:
            name, with_main = tool
            for f in sorted(glob.glob(os.path.join(self.src, name, "*.c"))):
                if os.path.basename(f) != "main.c" or with_main:
                    l.append(f)
        return l

    def flags(self, target, tool, defs):
        tgt, big, more = TARGETS[target]
        fl = ["-include", os.path.join(HARN, "envmap.h"), "-I", self.incdir(big), "-I", os.path.join(self.src, "libiff"), "-I", HARN]
        if tool:
            fl += ["-I", os.path.join(self.src, tool[0])]
            if tool[1]:
                fl += ["-DVF_TOOL_MAIN", "-DVF_WITH_GETOPT"]
        if tgt:
            fl += ["-target", tgt, "-DVF_NO_GETOPT", "-nostdlibinc", "-isystem", os.path.join(HARN, "stubinc")]
        return fl + more + ["-D%s" % d for d in defs]

    def envdefs(self, f):
        return ["-DVF_ENV_IMPL"] if f == os.path.join(HARN, "env.c") else []

    def _bc(self, f, target, tool, defs, tag):
        o = os.path.join(self.dir, "%s-%s-%s.bc" % (tag, os.path.basename(os.path.dirname(f)), os.path.basename(f)))
        libfl = self.flags(target, tool, defs)
        sh(["clang-18", "-std=gnu11", "-w", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-builtin", "-fno-stack-protector",
            "-U_FORTIFY_SOURCE", "-emit-llvm", "-c", f, "-o", o] + self.envdefs(f) + libfl)
        return o

    def bitcode(self, harness, defs, target="host", tool=None):
        """-> path of optimised, linked bitcode"""
        jobs = []
        key = ("lib", target, tool)
        if key not in self.cache:
            self.cache[key] = []
            tag = "L%d" % len(self.cache)
            jobs = [self.pool.submit(self._bc, f, target, tool, [], tag) for f in self.sources(tool)]
            self.cache[key] = jobs
            jobs.append(self.pool.submit(self._bc, os.path.join(HARN, "env.c"), target, tool, [], tag))
        n = len(self.cache)
        self.cache[("h", n)] = 1
        h = self._bc(os.path.join(HARN, harness), target, tool, defs, "H%d" % n)
        libs = [j.result() for j in self.cache[key]]
        out = os.path.join(self.dir, "prog%d.bc" % n)
        sh(["llvm-link-18", "-o", out + ".l"] + libs + [h])
        sh(["opt-18", "-passes=function(mem2reg,simplifycfg)", out + ".l", "-o", out])
        return out

    def native(self, harness, defs, tool=None, kind="asan"):
        """-> path of a native replay executable (kind: asan or msan)"""
        if kind == "asan":
            cc = ["gcc", "-fsanitize=address,undefined", "-fno-sanitize=shift", "-fno-sanitize-recover=all"]
        else:
            cc = ["clang-18", "-fsanitize=memory", "-DVF_MSAN"]
        key = ("nlib", tool, kind)
        fl = self.flags("host", tool, []) + ["-DVF_NATIVE", "-std=gnu11", "-w", "-g", "-O1", "-fno-builtin", "-fno-omit-frame-pointer"]
        def cobj(f, tag, extra):
            o = os.path.join(self.dir, "%s-%s-%s.o" % (tag, os.path.basename(os.path.dirname(f)), os.path.basename(f)))
            sh(cc + self.envdefs(f) + fl + ["-D%s" % d for d in extra] + ["-c", f, "-o", o])
            return o
        if key not in self.cache:
            tag = "N%d" % len(self.cache)
            fs = self.sources(tool) + [os.path.join(HARN, "env.c")]
            self.cache[key] = [self.pool.submit(cobj, f, tag, []) for f in fs]
        n = len(self.cache)
        self.cache[("hn", n)] = 1
        h = cobj(os.path.join(HARN, harness), "HN%d" % n, defs)
        out = os.path.join(self.dir, "native%d-%s" % (n, kind))
        sh(cc + [j.result() for j in self.cache[key]] + [h, "-o", out])
        return out
