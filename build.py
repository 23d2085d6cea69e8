#!/usr/bin/env python3
"""Builds the simulators from /repo's current working tree (content-hash cache in /verif/build)."""
import glob, hashlib, os, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DSIM_REPO", "/repo")
B = os.path.join(V, "build")
RT = ["rt", "mem", "net", "libs"]
INC = ["-I%s/sim/stub" % V] + ["-I%s/%s" % (REPO, d) for d in
      ("core/include", "pull/include", "push/include", "util/include", "core/src", "pull/src", "push/src")]
SUT = ["g++", "-std=c++11", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS", "-DHAVE_ZLIB",
       "-DCIVETWEB_CXX_DLL_IMPORTS", "-DCIVETWEB_DLL_IMPORTS", "-fno-pie", "-Wno-tsan", "-w"] + INC
HAR = ["g++", "-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS", "-DHAVE_ZLIB",
       "-DCIVETWEB_CXX_DLL_IMPORTS", "-DCIVETWEB_DLL_IMPORTS", "-fno-pie", "-Wno-tsan", "-Wall", "-Wno-unused-function"] + INC + ["-I%s/sim" % V]
RTC = ["g++", "-std=c++17", "-O2", "-g1", "-fno-pie", "-fno-builtin-malloc", "-fno-builtin-calloc", "-w", "-I%s/sim" % V]
WRAPS = ("curl_global_init curl_global_cleanup curl_easy_init curl_easy_cleanup curl_easy_reset curl_easy_setopt "
         "curl_easy_perform curl_easy_getinfo curl_slist_append curl_slist_free_all deflateInit2_ deflate deflateEnd").split()
REDEF = sum((["--redefine-sym", "%s=dsim_%s" % (f, f)] for f in ("memcpy", "memmove", "memset", "memcmp")), [])

def rd(p):
    with open(p, "rb") as f: return f.read()
def tree_hash(files):
    h = hashlib.sha256()
    for f in sorted(files): h.update(f.encode() + b"\0" + hashlib.sha256(rd(f)).digest())
    return h.hexdigest()

def compile_one(job):
    obj, src, cmd, redef = job
    if os.path.exists(obj): return None
    tmp = obj + ".%d.tmp.o" % os.getpid()
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: return "compiling %s failed:\n%s" % (src, r.stdout[-4000:])
    if redef:
        r = subprocess.run(["objcopy"] + REDEF + [tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: return "objcopy %s: %s" % (src, r.stdout)
    os.rename(tmp, obj)
    return None

def build(kind):
    """kind: core | net.  Returns the path of the simulator binary."""
    os.makedirs(B + "/obj", exist_ok=True)
    parts = ["core"] if kind == "core" else ["core", "pull", "push"]
    rh, sut = [], []
    for p in ("core", "pull", "push", "util"):
        for ext in ("h", "hpp", "ipp", "inc"): rh += glob.glob("%s/%s/**/*.%s" % (REPO, p, ext), recursive=True)
    rh = [f for f in rh if "/tests/" not in f and "/benchmarks/" not in f]
    for p in parts: sut += glob.glob("%s/%s/src/**/*.cc" % (REPO, p), recursive=True)
    vh = glob.glob(V + "/sim/**/*.h", recursive=True)
    hs_r, hs_v = tree_hash(rh), tree_hash(vh)
    jobs = []
    def add(src, cmd, redef, hh):
        k = hashlib.sha256((" ".join(cmd) + src + hh).encode() + rd(src)).hexdigest()[:24]
        o = "%s/obj/%s-%s.o" % (B, os.path.basename(src)[:-3], k)
        jobs.append((o, src, cmd, redef))
    for s in sorted(sut): add(s, SUT, True, hs_r)
    har = ["h/driver"] + (["h/core_%s" % os.path.basename(f)[5:-3] for f in sorted(glob.glob(V + "/sim/h/core_*.cc"))])
    if kind != "core": har += ["h/" + os.path.basename(f)[:-3] for f in sorted(glob.glob(V + "/sim/h/net_*.cc"))]
    for s in har:
        f = "%s/sim/%s.cc" % (V, s)
        if s == "h/driver": add(f, [c for c in HAR if c != "-fsanitize=thread"] + (["-DDSIM_CURL"] if kind != "core" else []), False, hs_v)
        else: add(f, HAR, True, hs_v + hs_r)
    for s in RT:
        if s == "libs" and kind == "core": continue
        add("%s/sim/rt/%s.cc" % (V, s), RTC, False, hs_v)
    link = ["g++", "-no-pie", "-rdynamic"]
    libs = ["-ldl", "-lpthread", "-lz"]
    if kind != "core":
        link += ["-Wl,--wrap=" + w for w in WRAPS]
        libs = ["-lcurl", "-lcivetweb", "-lcivetweb-cpp"] + libs
    lk = hashlib.sha256((" ".join(link + libs) + "".join(j[0] for j in jobs)).encode()).hexdigest()[:24]
    exe = "%s/dsim-%s-%s" % (B, kind, lk)
    if os.path.exists(exe): os.utime(exe); return exe
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs: raise RuntimeError("\n".join(errs))
    tmp = exe + ".%d" % os.getpid()
    r = subprocess.run(link + ["-o", tmp] + [j[0] for j in jobs] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise RuntimeError("link failed:\n" + r.stdout[-4000:])
    os.rename(tmp, exe)
    # keep the cache small
    exes = sorted(glob.glob(B + "/dsim-*"), key=os.path.getmtime)
    for f in exes[:-6]:
        if f != exe: os.unlink(f)
    objs = sorted(glob.glob(B + "/obj/*.o"), key=os.path.getmtime)
    keep = set(j[0] for j in jobs)
    for f in objs[:-800]:
        if f not in keep: os.unlink(f)
    return exe

if __name__ == "__main__":
    for k in sys.argv[1:] or ["core", "net"]: print(build(k))
