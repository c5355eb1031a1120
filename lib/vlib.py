"""Build and run machinery shared by every check (see /verif/DESIGN.md)."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++-18"
JOBS = min(8, os.cpu_count() or 8)

# The dialect of /opt/vp/build.sh (C++17, <array> force-included, asserts on).
COMMON = ["-std=c++17", "-include", "array", "-UNDEBUG"]
UBSAN = ["-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,"
         "unreachable,return,bounds,bool"]
BCFLAGS = COMMON + UBSAN + [
    "-fsanitize-trap=all", "-O1", "-gline-tables-only", "-fno-exceptions",
    "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-slp-vectorize", "-fno-vectorize",
    "-fno-unroll-loops", "-fno-threadsafe-statics", "-fno-pic", "-emit-llvm", "-c", "-w"]
NATFLAGS = COMMON + ["-O1", "-g1", "-w", "-c", "-DSYM_NATIVE", "-fno-omit-frame-pointer"]
NATSAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,null,function",
          "-fno-sanitize-recover=all"]


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def _files(*pats):
    out = []
    for p in pats:
        out += glob.glob(p, recursive=True)
    return sorted(f for f in out if os.path.isfile(f))


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fd:
            h.update(fd.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def repo_sources():
    return _files(REPO + "/include/**/*", REPO + "/src/**/*")


def cached(path, maker):
    """maker(tmp) creates tmp; the result is renamed to path."""
    if os.path.exists(path):
        os.utime(path)
        return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=".tmp", dir=os.path.dirname(path))
    t = os.path.join(tmp, os.path.basename(path))
    try:
        maker(t)
        try:
            os.rename(t, path)
        except OSError:
            if not os.path.exists(path):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return path


def engine():
    src = _files(VERIF + "/engine/*")
    p = os.path.join(BUILD, "engine-" + digest(src), "symex")
    return cached(p, lambda t: sh(["bash", VERIF + "/engine/build.sh", t]))


def gen():
    protos = _files(REPO + "/include/ygopen/proto/*.proto")
    d = os.path.join(BUILD, "gen-" + digest(protos + [VERIF + "/lib/protoeq.py"], "lite"))

    def mk(t):
        os.makedirs(t)
        sh(["protoc", "--proto_path=" + REPO + "/include/ygopen/proto", "--cpp_out=lite:" + t] + protos)
        sh([sys.executable, VERIF + "/lib/protoeq.py", t + "/proto_eq.h"] + protos)
    return cached(d, mk)


class Tree:
    """Everything compiled from the current working tree of /repo."""

    def __init__(self):
        self.gen = gen()
        self.inc = ["-I" + REPO + "/include", "-I" + self.gen]
        self.src = repo_sources()
        self.key = digest(self.src + _files(VERIF + "/rt/*"), " ".join(BCFLAGS + NATFLAGS + NATSAN))
        self.dir = os.path.join(BUILD, "tree-" + self.key)
        self.pool = cf.ThreadPoolExecutor(JOBS)

    def _cc(self, src, out, flags):
        return cached(out, lambda t: sh([CXX] + flags + self.inc + ["-I" + VERIF + "/rt", src, "-o", t]))

    def _units(self):
        us = []
        for f in sorted(glob.glob(self.gen + "/*.pb.cc")):
            us.append(("pb-" + os.path.basename(f)[:-6], f))
        for f in _files(REPO + "/src/**/*.cpp"):
            us.append(("src-" + os.path.relpath(f, REPO).replace("/", "_")[:-4], f))
        return us

    def base_bc(self):
        """Futures for the bitcode of the repo and the stand-ins."""
        fs = []
        gendir = os.path.join(BUILD, "genobj-" + os.path.basename(self.gen) +
                              digest([], " ".join(BCFLAGS + NATFLAGS + NATSAN)))
        for n, f in self._units():
            d = gendir if n.startswith("pb-") else self.dir
            fs.append(self.pool.submit(self._cc, f, d + "/" + n + ".bc", BCFLAGS))
        for n in ("rt_pb", "rt_std"):
            fs.append(self.pool.submit(
                self._cc, VERIF + "/rt/" + n + ".cpp", self.dir + "/" + n + ".bc",
                BCFLAGS + ["-fno-access-control"] + (["-fno-builtin", "-fno-sanitize=all"] if n == "rt_std" else [])))
        return fs

    def base_native(self):
        fs = []
        gendir = os.path.join(BUILD, "genobj-" + os.path.basename(self.gen) +
                              digest([], " ".join(BCFLAGS + NATFLAGS + NATSAN)))
        for n, f in self._units():
            if n.startswith("pb-"):
                fs.append(self.pool.submit(self._cc, f, gendir + "/" + n + ".o", NATFLAGS))
            else:
                fs.append(self.pool.submit(self._cc, f, self.dir + "/" + n + ".o", NATFLAGS + NATSAN))
        fs.append(self.pool.submit(self._cc, VERIF + "/rt/native_rt.cpp", self.dir + "/native_rt.o", NATFLAGS))
        return fs

    def harness(self, name):
        """(bitcode module, future of the native program) for harness/<name>.cpp"""
        src = VERIF + "/harness/" + name + ".cpp"
        hk = digest(_files(VERIF + "/harness/*"))
        hd = os.path.join(self.dir, name + "-" + hk)
        base = self.base_bc()
        pre = ["-include", VERIF + "/rt/prelude.h"]
        hf = self.pool.submit(self._cc, src, hd + "/h.bc", BCFLAGS + pre)
        nbase = self.base_native()
        nf = self.pool.submit(self._cc, src, hd + "/h.o", NATFLAGS + NATSAN + pre)
        bcs = [f.result() for f in base]

        def link(t):
            sh(["llvm-link-18", hf.result()] + bcs + ["-o", t + ".l"])
            ents = self._entries(src)
            sh(["opt-18", "-passes=function(loweratomic),internalize,globaldce",
                "-internalize-public-api-list=" + ",".join(ents), t + ".l", "-o", t])
        mod = cached(hd + "/mod.bc", link)

        def native():
            objs = [f.result() for f in nbase] + [nf.result()]
            return cached(hd + "/native", lambda t: sh(
                [CXX] + NATSAN + objs + ["-o", t, "-lprotobuf-lite", "-lpthread"]))
        return mod, cf.ThreadPoolExecutor(1).submit(native)

    @staticmethod
    def _entries(src):
        import re
        return re.findall(r"^HARNESS\((\w+)\)", open(src).read(), re.M)


ASAN_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:redzone=512:max_redzone=2048:abort_on_error=0:"
                "detect_stack_use_after_return=1:allocator_may_return_null=0:max_malloc_fill_size=65536:malloc_fill_byte=190",
                UBSAN_OPTIONS="print_stacktrace=1")


def run_tag(run):
    return run["entry"] + "".join("-%s%d" % kv for kv in sorted(run.get("params", {}).items()))


def run_engine(sym, mod, run, outdir, seed, budget):
    tag = run_tag(run)
    out, tr = os.path.join(outdir, tag + ".json"), os.path.join(outdir, tag + ".traces")
    cmd = [sym, mod, "--entry", run["entry"], "--out", out, "--traces", tr, "--seed", str(seed),
           "--timeout", str(budget), "--repo", REPO, "--max-traces", str(run.get("traces", 24))]
    for k, v in run.get("params", {}).items():
        cmd += ["--param", "%s=%d" % (k, v)]
    if run.get("dump"):
        os.makedirs(run["dump"], exist_ok=True)
        cmd += ["--dump", run["dump"]]
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=budget + 60)
        code, log = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        code, log = 2, "engine did not stop in time"
    res = {"tag": tag, "run": run, "code": code, "log": log, "wall": time.time() - t,
           "traces": tr, "data": None}
    if code in (0, 1, 2) and os.path.exists(out):
        try:
            res["data"] = json.load(open(out))
        except ValueError as e:
            res["log"] += "\nbad json: %s" % e
    return res


def native_params(run):
    return ["%s=%d" % kv for kv in sorted(run.get("params", {}).items())]


def validate_traces(native, res):
    if not os.path.exists(res["traces"]) or os.path.getsize(res["traces"]) == 0:
        return 0, 0, ""
    r = subprocess.run([native, "batch", res["run"]["entry"], res["traces"]] + native_params(res["run"]),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ASAN_ENV)
    w = r.stdout.split()
    if len(w) != 4:
        return 0, 1, (r.stdout + r.stderr)[-3000:]
    return int(w[1]), int(w[3]), r.stderr[-3000:]


HANG = 124


def replay(native, entry, params, infile):
    """Exit code and output of the real code on those inputs; HANG if it does not end (or eats all memory)."""
    env = dict(ASAN_ENV, ASAN_OPTIONS=ASAN_ENV["ASAN_OPTIONS"] + ":hard_rss_limit_mb=3000")
    try:
        r = subprocess.run([native, "replay", entry, infile] + params, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, env=env, timeout=20)
    except subprocess.TimeoutExpired:
        return HANG, "does not end"
    return r.returncode, r.stdout[-4000:]
