"""Builds the library from /repo's working tree, in /verif/build (ignored by git), with content-addressed objects."""
import concurrent.futures, glob, hashlib, os, re, shutil, subprocess, sys

REPO = os.environ.get("MMG_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SRC = os.path.join(REPO, "src")
NPROC = os.cpu_count() or 4

VARIANTS = {  # cflags common to C and C++, then link flags
    "plain": (["-O1", "-g"], []),
    "asan": (["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"], ["-fsanitize=address"]),
    "dbg": (["-O0", "-g"], []),
    "cov": (["-O0", "-g", "--coverage"], ["--coverage"]),
}


def sh(cmd, **kw):
    return subprocess.run(cmd, check=False, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def write(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def gen_includes():
    inc = os.path.join(BUILD, "inc")
    com = os.path.join(inc, "mmg", "common")
    os.makedirs(com, exist_ok=True)
    for m in ("mmg2d", "mmgs", "mmg3d"):
        link = os.path.join(inc, "mmg", m)
        if not os.path.islink(link):
            os.symlink(os.path.join(SRC, m), link)
    have = set()
    for h in glob.glob(os.path.join(SRC, "common", "*.h")) + glob.glob(os.path.join(SRC, "common", "*.hpp")):
        link = os.path.join(com, os.path.basename(h))
        have.add(link)
        if not os.path.lexists(link):
            os.symlink(h, link)
    # generated headers, from their templates
    ver = open(os.path.join(SRC, "common", "mmgversion.h.in")).read()
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()

    def cmvar(n, d):
        m = re.search(r"SET\s*\(\s*" + n + r"\s+\"?([^\")]*)\"?\s*\)", cm, re.I)
        return m.group(1) if m else d
    vals = {"CMAKE_RELEASE_VERSION_MAJOR": cmvar("CMAKE_RELEASE_VERSION_MAJOR", "5"), "CMAKE_RELEASE_VERSION_MINOR": cmvar("CMAKE_RELEASE_VERSION_MINOR", "8"),
            "CMAKE_RELEASE_VERSION_PATCH": cmvar("CMAKE_RELEASE_VERSION_PATCH", "0"), "CMAKE_RELEASE_DATE": cmvar("CMAKE_RELEASE_DATE", "unknown")}
    vals["CMAKE_RELEASE_VERSION"] = "%s.%s.%s" % (vals["CMAKE_RELEASE_VERSION_MAJOR"], vals["CMAKE_RELEASE_VERSION_MINOR"], vals["CMAKE_RELEASE_VERSION_PATCH"])
    ver = re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), "0"), ver)
    write(os.path.join(com, "mmgversion.h"), ver)
    write(os.path.join(com, "git_log_mmg.h"), '#ifndef _GIT_LOG_MMG_H\n#define _GIT_LOG_MMG_H\n#define MMG_GIT_BRANCH "verif"\n#define MMG_GIT_COMMIT "verif"\n#define MMG_GIT_DATE "verif"\n#endif\n')
    d = open(os.path.join(SRC, "common", "mmgcmakedefines.h.in")).read()
    v = {"DEF_POSIX": "#define MMG_POSIX", "DEF_GNU": "#define MMG_GNU", "DEF_MMG5_INT": "#define MMG5_int int32_t",
         "DEF_MMG5_INTMAX": "#define MMG5_INTMAX INT_MAX", "DEF_MMG5_PRId": "#define MMG5_PRId PRId32",
         "DEF_MMG_SWPBIN": "#define MMG5_SWAPBIN(x) MMG5_swapbin(x)", "DEF_MMG_ABS": "#define MMG5_abs(x) abs(x)"}
    d = re.sub(r"@(\w+)@", lambda m: v.get(m.group(1), ""), d)
    d = re.sub(r"#cmakedefine01\s+(\w+)", r"#define \1 0", d)
    d = re.sub(r"#cmakedefine\s+(\w+)", r"/* undef */ //\1", d)
    write(os.path.join(com, "mmgcmakedefines.h"), d)
    for f in glob.glob(os.path.join(com, "*")):
        if os.path.islink(f) and f not in have:
            os.unlink(f)
    return [os.path.join(BUILD, "inc"), com, os.path.join(SRC, "common"), os.path.join(SRC, "mmg3d"), os.path.join(SRC, "mmgs"), os.path.join(SRC, "mmg2d"), "/usr/include/scotch"]


def headers_hash():
    h = hashlib.sha256()
    fs = sorted(glob.glob(os.path.join(SRC, "*", "*.h")) + glob.glob(os.path.join(SRC, "*", "*.hpp")) + glob.glob(os.path.join(SRC, "*", "*.in")))
    for f in fs:
        h.update(os.path.relpath(f, SRC).encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()


VTKLIBS = ["IOParallel", "IOParallelXML", "IOGeometry", "IOImage", "ImagingCore", "IOLegacy", "IOXML", "IOXMLParser", "IOCore",
           "CommonExecutionModel", "CommonDataModel", "CommonTransforms", "CommonMath", "kissfft", "CommonCore", "sys"]


def vtk_link():
    out = []
    for n in VTKLIBS:
        c = glob.glob("/usr/lib/x86_64-linux-gnu/libvtk%s-9*.so" % n) or sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libvtk%s-9*.so*" % n))
        if c:
            out.append(c[0])
    return out


def objects(variant, vtk=False, mains=False):
    """Returns (objects, includes, defines, link flags); raises RuntimeError when /repo does not compile."""
    cfl, lfl = VARIANTS[variant]
    incs = gen_includes()
    defs = ["-DUSE_SCOTCH"] + (["-DUSE_VTK"] if vtk else [])
    srcs = []
    for m in ("common", "mmg2d", "mmgs", "mmg3d"):
        for f in sorted(glob.glob(os.path.join(SRC, m, "*.c"))):
            b = os.path.basename(f)
            if b in ("mmg2d.c", "mmgs.c", "mmg3d.c"):
                continue
            if b == "apptools.c":
                continue
            srcs.append(f)
        srcs += [f for f in sorted(glob.glob(os.path.join(SRC, m, "*.cpp"))) if vtk or m != "common"]
    if mains:
        srcs += [os.path.join(SRC, "common", "apptools.c"), os.path.join(SRC, "mmg2d", "mmg2d.c"), os.path.join(SRC, "mmgs", "mmgs.c"), os.path.join(SRC, "mmg3d", "mmg3d.c")]
    hh = headers_hash()
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)

    def one(f):
        cpp = f.endswith(".cpp")
        cmd = (["g++", "-std=c++17", "-w"] if cpp else ["gcc", "-std=gnu99", "-w"]) + cfl + defs
        if cpp and vtk:
            for d in sorted(glob.glob("/usr/include/vtk-9*")) + ["/usr/include/jsoncpp"]:
                cmd += ["-isystem", d]
            cmd += ["-Dkiss_fft_scalar=double"]
        cmd += ["-I" + i for i in incs]
        k = hashlib.sha256((" ".join(cmd) + hh + f).encode() + open(f, "rb").read()).hexdigest()[:24]
        o = os.path.join(odir, "%s.%s.o" % (os.path.basename(f), k))
        if not os.path.exists(o):
            t = o + ".%d.tmp.o" % os.getpid()
            r = sh(cmd + ["-c", f, "-o", t])
            if r.returncode != 0:
                raise RuntimeError("cannot compile %s\n%s" % (f, r.stdout[:1500]))
            os.replace(t, o)
        return o
    # largest first
    order = sorted(srcs, key=lambda f: -os.path.getsize(f) * (6 if f.endswith(".cpp") else 1))
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        res = dict(zip(order, ex.map(one, order)))
    link = lfl + (vtk_link() if vtk else []) + ["-L/usr/lib/x86_64-linux-gnu", "-lscotch", "-lscotcherrexit", "-lz", "-lm", "-lrt", "-lpthread", "-ldl"]
    return [res[f] for f in srcs], ["-I" + i for i in incs], defs, link, cfl


def harness(name, variant="plain", vtk=False, extra_cflags=(), extra_link=()):
    """Builds /verif/harness/<name>.cpp against the library; returns the path of the executable."""
    src = os.path.join(VERIF, "harness", name + ".cpp")
    cfl, _ = VARIANTS[variant]
    incs = ["-I" + i for i in gen_includes()]
    defs = ["-DUSE_SCOTCH"] + (["-DUSE_VTK"] if vtk else [])
    h = hashlib.sha256()
    for f in [src] + sorted(glob.glob(os.path.join(VERIF, "lib", "*"))):
        h.update(open(f, "rb").read())
    h.update(headers_hash().encode())
    base = [c for c in cfl if c != "--coverage"]
    cmd = ["g++", "-std=c++17", "-w"] + base + defs + incs + ["-I" + os.path.join(VERIF, "lib")] + list(extra_cflags)
    h.update(" ".join(cmd).encode())
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    ho = os.path.join(odir, "h_%s.%s.o" % (name, h.hexdigest()[:24]))
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        def hc():
            if not os.path.exists(ho):
                t = ho + ".%d.tmp.o" % os.getpid()
                r = sh(cmd + ["-c", src, "-o", t])
                if r.returncode != 0:
                    raise RuntimeError("cannot compile the harness %s\n%s" % (name, r.stdout[:4000]))
                os.replace(t, ho)
        fut = ex.submit(hc)
        objs, _, _, link, _ = objects(variant, vtk)
        fut.result()
    exe = os.path.join(BUILD, "exe", "%s.%s%s" % (name, variant, ".vtk" if vtk else ""))
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    t = exe + ".%d.tmp" % os.getpid()
    r = sh(["g++", "-o", t, ho] + objs + list(extra_link) + link)
    if r.returncode != 0:
        raise RuntimeError("cannot link %s\n%s" % (name, r.stdout[-4000:]))
    os.replace(t, exe)
    return exe


def cli(variant="plain", vtk=False):
    """Builds the three command line programs; returns {name: path}."""
    objs, _, _, link, _ = objects(variant, vtk, mains=True)
    pre = lambda o: os.path.basename(o).split(".")[0]
    mains = {"mmg2d": None, "mmgs": None, "mmg3d": None}
    rest = []
    for o in objs:
        b = pre(o)
        if b in mains:
            mains[b] = o
        else:
            rest.append(o)
    out = {}
    for n, o in mains.items():
        exe = os.path.join(BUILD, "exe", "cli_%s.%s%s" % (n, variant, ".vtk" if vtk else ""))
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        t = exe + ".%d.tmp" % os.getpid()
        r = sh(["g++", "-o", t, o] + rest + link)
        if r.returncode != 0:
            raise RuntimeError("cannot link %s\n%s" % (n, r.stdout[-4000:]))
        os.replace(t, exe)
        out[n] = exe
    return out


if __name__ == "__main__":
    import time
    t = time.time()
    if len(sys.argv) > 1 and sys.argv[1] == "cli":
        print(cli(*(sys.argv[2:])))
    elif len(sys.argv) > 1:
        print(harness(sys.argv[1], *(sys.argv[2:3] or ["plain"])))
    print("%.1fs" % (time.time() - t))
