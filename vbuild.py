"""Builds the code under test from /repo's current working tree, outside /repo.

Everything goes to /verif/.build/<content hash>/, so a changed tree is always
rebuilt and an unchanged one is built once."""
import concurrent.futures as cf
import glob, hashlib, os, re, shutil, subprocess, sys, time

REPO = os.environ.get("BWTC_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, ".build")

FLAVOURS = {
    # assertions on, as in the project's own test build
    "plain": dict(cxx="g++", cc="gcc", flags=["-O2", "-g1"], link=[]),
    "asan": dict(cxx="g++", cc="gcc",
                 flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                        "-fno-sanitize=alignment", "-fno-sanitize-recover=all"],
                 link=["-fsanitize=address,undefined"]),
    # assertions off, as in the project's Release build
    "release": dict(cxx="g++", cc="gcc", flags=["-O3", "-fomit-frame-pointer", "-DNDEBUG"], link=[]),
    # counts executed basic blocks and block moves (the suite supplies the counter)
    "cov": dict(cxx="g++", cc="gcc", flags=["-O1", "-g1", "-fsanitize-coverage=trace-pc"],
                link=["-Wl,--wrap=memmove", "-Wl,--wrap=memcpy", "-Wl,--wrap=memset", "-Wl,--wrap=memcmp"]),
    "msan": dict(cxx="clang++", cc="clang",
                 flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fsanitize-memory-track-origins=1"],
                 link=["-fsanitize=memory"]),
}
WARN = ["-w"]


class BuildError(Exception):
    pass


def sources():
    """(library sources, program sources) of the working tree."""
    lib, mains = [], []
    for d in ("", "preprocessors", "bwtransforms", "probmodels"):
        for ext in ("cpp", "cc", "c"):
            for f in sorted(glob.glob(os.path.join(REPO, d, "*." + ext))):
                txt = open(f, errors="replace").read()
                if d == "" and re.search(r"^\s*int\s+main\s*\(", txt, re.M):
                    mains.append(f)
                else:
                    lib.append(f)
    return lib, mains


def tree_hash(extra=()):
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in (".git", "_build", "test", "build", "bin")]
        for f in fs:
            if f.rsplit(".", 1)[-1] in ("c", "cc", "cpp", "cxx", "h", "hh", "hpp", "hxx", "inl"):
                files.append(os.path.join(root, f))
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:16]


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])


def prune(keep=6):
    try:
        ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD)), key=os.path.getmtime, reverse=True)
    except FileNotFoundError:
        return
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)


class Builder:
    def __init__(self, jobs=8):
        self.jobs = jobs
        self.dir = os.path.join(BUILD, tree_hash([FLAVOURS]))
        os.makedirs(self.dir, exist_ok=True)
        os.utime(self.dir)
        prune()
        self.pool = cf.ThreadPoolExecutor(jobs)

    def _obj(self, src, flavour, defs=()):
        fl = FLAVOURS[flavour]
        rel = os.path.relpath(src, REPO).replace("/", "__")
        o = os.path.join(self.dir, flavour, rel + ".o")
        if os.path.exists(o):
            return o
        os.makedirs(os.path.dirname(o), exist_ok=True)
        tmp = o + ".%d.tmp" % os.getpid()
        if src.endswith(".c"):
            cmd = [fl["cc"], "-std=gnu17"] + fl["flags"] + WARN + list(defs)
        else:
            cmd = [fl["cxx"], "-std=gnu++17"] + fl["flags"] + WARN + list(defs)
        run(cmd + ["-I" + REPO, "-c", src, "-o", tmp])
        os.rename(tmp, o)
        return o

    def lib(self, flavour):
        lib, _ = sources()
        return list(self.pool.map(lambda s: self._obj(s, flavour), lib))

    def prepare(self, flavours, programs=()):
        """Compile everything needed in parallel."""
        lib, mains = sources()
        jobs = [(s, f) for f in flavours for s in lib]
        jobs += [(s, f) for f in programs for s in mains]
        # biggest first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        list(self.pool.map(lambda j: self._obj(*j), jobs))

    def program(self, name, flavour):
        """One of the project's programs (compress, uncompress, ...)."""
        out = os.path.join(self.dir, flavour, "bin", name)
        if os.path.exists(out):
            return out
        _, mains = sources()
        src = [m for m in mains if os.path.basename(m).rsplit(".", 1)[0] == name]
        if not src:
            raise BuildError("no program " + name)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        objs = self.lib(flavour) + [self._obj(src[0], flavour)]
        tmp = out + ".%d.tmp" % os.getpid()
        run([FLAVOURS[flavour]["cxx"], "-o", tmp] + objs + FLAVOURS[flavour]["link"] + ["-lboost_program_options"])
        os.rename(tmp, out)
        return out

    def ref(self, cov=False):
        """The version of record (ref/) as a shared object; with cov it counts its work as flavour cov does."""
        h = hashlib.sha256()
        src = []
        for root, _, fs in os.walk(os.path.join(HERE, "ref")):
            for f in sorted(fs):
                h.update(open(os.path.join(root, f), "rb").read())
                if f.rsplit(".", 1)[-1] in ("cpp", "c"):
                    src.append(os.path.join(root, f))
        d = os.path.join(BUILD, "ref-" + h.hexdigest()[:16])
        out = os.path.join(d, "ref-cov.so" if cov else "ref.so")
        if os.path.exists(out):
            os.utime(d)
            return out
        os.makedirs(d, exist_ok=True)

        def comp(f):
            o = os.path.join(d, os.path.basename(f) + ".%d.%d.o" % (cov, os.getpid()))
            run((["gcc", "-std=gnu17"] if f.endswith(".c") else ["g++", "-std=gnu++17"]) +
                (["-O1", "-fsanitize-coverage=trace-pc", "-DREF_COV"] if cov else ["-O2"]) + ["-w", "-fPIC", "-fvisibility=hidden", "-I" + os.path.join(HERE, "ref", "src"), "-c", f, "-o", o])
            return o
        objs = list(self.pool.map(comp, sorted(src)))
        tmp = out + ".%d.tmp" % os.getpid()
        run(["g++", "-shared", "-Wl,-Bsymbolic", "-o", tmp] + objs + (FLAVOURS["cov"]["link"] if cov else []))
        for o in objs:
            os.unlink(o)
        os.rename(tmp, out)
        return out

    def suite(self, name, flavour, defs=(), lib=True):
        """A harness suite: harness/<name>.cpp + pbt.cpp + the library."""
        fl = FLAVOURS[flavour]
        hh = hashlib.sha256()
        for f in sorted(glob.glob(os.path.join(HARNESS, "*"))):
            if f.endswith(".hpp") or os.path.basename(f) in (name + ".cpp", "pbt.cpp"):
                hh.update(open(f, "rb").read())
        hh.update(repr(defs).encode())
        out = os.path.join(self.dir, flavour, "suite_%s_%s" % (name, hh.hexdigest()[:12]))
        if os.path.exists(out):
            return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        hobjs = []

        def comp(f):
            o = out + "_" + f + ".%d.o" % os.getpid()
            run([fl["cxx"], "-std=gnu++17"] + fl["flags"] + WARN + list(defs) +
                ["-I" + REPO, "-I" + HARNESS, "-c", os.path.join(HARNESS, f + ".cpp"), "-o", o])
            return o
        futs = [self.pool.submit(comp, f) for f in (name, "pbt")]
        libs = self.lib(flavour) if lib else []
        hobjs = [f.result() for f in futs]
        tmp = out + ".%d.tmp" % os.getpid()
        run([fl["cxx"], "-o", tmp] + hobjs + libs + fl["link"] + ["-ldl", "-lpthread"])
        for o in hobjs:
            os.unlink(o)
        os.rename(tmp, out)
        return out
