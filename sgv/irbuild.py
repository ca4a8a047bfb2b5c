"""Compile the current /repo source tree to LLVM IR (nothing is executed).

Every run enumerates the modules from /repo itself (Makefile OBJS lists and the
module lists of the two shipped configurations), generates the two automatic
files the real Makefile would generate, and lowers each translation unit with
clang -O0 + mem2reg.  Results are cached under /var/tmp keyed by a hash of every
source byte and flag, so that several checks of one tree share one lowering.
"""
import os, re, sys, glob, hashlib, subprocess, shutil, tempfile, json
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("SGV_REPO", "/repo")

BASE_PRE = ["main/MemoryMan", "utility/ParManipulator", "utility/Spectral",
            "utility/boundary", "utility/output", "utility/evolve",
            "utility/NumberChecker", "utility/checkpoint"]
BASE_POST = ["utility/Coordinates", "utility/numerics", "main/main"]
MAIN_MODS = ["physics/ADMvars", "physics/ModeComputer", "utility/s2kit",
             "utility/GridIterators", "utility/LinAlg", "physics/Poisson3",
             "physics/Poisson2", "physics/Poisson", "physics/BSSN",
             "physics/Z4secondO", "physics/SingleBH", "physics/TestID",
             "physics/TestDerivs", "physics/ConvTest", "physics/ScalarWave",
             "physics/ScalarOnKerr", "physics/ScalarOnKerr/DV_CircSchwSource"]
ALT_MODS = ["physics/ModeComputer", "physics/ADMvars", "utility/s2kit",
            "physics/testwave", "physics/ScalarOnKerr",
            "physics/ScalarOnKerr/DV_CircSchwSource2",
            "physics/PN_CircularOrbit_GWs", "utility/NumericUtils"]
CFLAGS = ["-DNONICOFUNCS", "-DTEMPLATES", "-DZIBLINSOLVERS", "-DUMFPACK", "-DSUITESPARSEQR",
          "-DLAPACK", "-DCBLAS", "-DFFTW3", "-DGSL", "-I/usr/include/suitesparse"]

L6 = ["-DLEVEL6_Pragmas", "-DTOPLEVEL_Pragmas"]
L234 = ["-DLEVEL2_Pragmas", "-DLEVEL3_Pragmas", "-DLEVEL4_Pragmas"]
PROFILES = {
    # as shipped, but lowered without outlining the OpenMP regions
    "seq":  L6,
    # every pragma level (both sides of the #ifdef LEVEL6_Pragmas code)
    "omp6": ["-fopenmp"] + L6 + L234,
    "omp4": ["-fopenmp"] + L234,
    "omp5": ["-fopenmp", "-DLEVEL6_Pragmas"],
}


class BuildError(Exception):
    pass


STUB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stub")


def libname(p):
    return os.path.basename(p)


def config(which, repo=REPO):
    mods = MAIN_MODS if which == "main" else ALT_MODS
    post = [m for m in BASE_POST
            if not (m == "utility/numerics" and "utility/NumericUtils" in mods)]
    allm = BASE_PRE + mods + post
    return [m for m in allm if os.path.isdir(os.path.join(repo, "src", m))]


def module_sources(mod, repo=REPO):
    """sources named by OBJS in the module Makefile"""
    d = os.path.join(repo, "src", mod)
    mk = os.path.join(d, "Makefile")
    txt = open(mk, errors="replace").read() if os.path.exists(mk) else ""
    txt = re.sub(r"\\\n", " ", txt)
    txt = re.sub(r"(?m)#.*$", "", txt)
    name = libname(mod)
    out = []
    for m in re.finditer(r"(?m)^\s*OBJS\s*[:+]?=\s*(.*)$", txt):
        for w in m.group(1).split():
            w = w.replace("$(NAME)", name)
            if w.endswith(".o"):
                out.append(w[:-2])
    res = []
    for o in out:
        for ext in (".c", ".cpp", ".cc"):
            p = os.path.join(d, o + ext)
            if os.path.exists(p):
                res.append(p)
                break
    return res


def tree_hash(repo=REPO, extra=""):
    h = hashlib.sha256(extra.encode())
    for root, dirs, files in os.walk(os.path.join(repo, "src")):
        dirs.sort()
        for f in sorted(files):
            if f.startswith("sgrid_automatic_"):
                continue
            if f.endswith((".c", ".h", ".cpp", ".hpp")) or f == "Makefile":
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, repo).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    for f in ("irbuild.py",):
        with open(os.path.join(os.path.dirname(__file__), f), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


CACHE_ROOT = "/var/tmp/sgv-cache"


def build(which="main", profile="seq", opt="always-inline,mem2reg", repo=REPO, debug=True):
    """returns list of (module, source, llfile)"""
    key = tree_hash(repo, repo + which + profile + opt + str(debug))
    out = os.path.join(CACHE_ROOT, key)
    man = os.path.join(out, "manifest.json")
    if os.path.exists(man):
        try:
            return json.load(open(man))
        except ValueError:
            pass
    os.makedirs(CACHE_ROOT, exist_ok=True)
    prune_cache()
    tmp = tempfile.mkdtemp(prefix="b-", dir=CACHE_ROOT)
    mods = config(which, repo)
    # generated headers, in an include directory of our own
    gen = os.path.join(tmp, "gen")
    os.makedirs(gen)
    with open(os.path.join(gen, "sgrid_automatic_include.h"), "w") as f:
        f.write("/* generated */\n")
        for m in mods:
            f.write('#include "%s/src/%s/sgrid_%s.h"\n' % (repo, m, libname(m)))
    with open(os.path.join(gen, "sgrid_automatic_initialize.c"), "w") as f:
        for m in mods:
            f.write("int sgrid_%s();\n" % libname(m))
        for m in mods:
            f.write("sgrid_%s();\n" % libname(m))
    jobs = []
    for m in mods:
        srcs = module_sources(m, repo)
        if not srcs:
            raise BuildError("module %s lists no sources" % m)
        for s in srcs:
            ll = os.path.join(tmp, m.replace("/", "_") + "__" + os.path.basename(s) + ".ll")
            jobs.append((m, s, ll))

    def one(j):
        m, s, ll = j
        cc = ["clang++"] if s.endswith((".cpp", ".cc")) else ["clang"]
        cmd = cc + ["-S", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone",
                    "-fno-discard-value-names", "-w",
                    "-Wno-implicit-function-declaration", "-Wno-implicit-int", "-Wno-return-type", "-Wno-return-mismatch",
                    "-Wno-int-conversion", "-Wno-incompatible-function-pointer-types",
                    "-idirafter", STUB] + (["-g"] if debug else []) + \
            CFLAGS + PROFILES[profile] + \
            ["-I" + gen, "-I" + os.path.join(repo, "src/main/main"), s, "-o", ll]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            return (s, p.stderr[:400])
        if opt:
            mark_inline(ll)
            p = subprocess.run(["opt-18" if shutil.which("opt-18") else "/usr/lib/llvm-18/bin/opt",
                                "-S", "-passes=" + opt, ll, "-o", ll + "2"],
                               capture_output=True, text=True)
            if p.returncode != 0:
                return (s, p.stderr[:400])
            os.replace(ll + "2", ll)
        return None
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        shutil.rmtree(tmp, ignore_errors=True)
        raise BuildError("cannot lower: " + "; ".join("%s: %s" % e for e in errs[:3]))
    res = [(m, s, os.path.join(out, os.path.basename(ll))) for m, s, ll in jobs]
    json.dump(res, open(os.path.join(tmp, "manifest.json"), "w"))
    try:
        os.rename(tmp, out)
    except OSError:
        if not os.path.exists(man):
            raise
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def mark_inline(ll):
    """file-local helpers are analysed inside their callers"""
    out = []
    with open(ll) as f:
        for line in f:
            if line.startswith("attributes #"):
                line = line.replace(" noinline", "").replace(" optnone", "")
            elif line.startswith("define internal") and line.rstrip().endswith("{"):
                if ".omp_outlined(" not in line and "_GLOBAL__" not in line \
                        and "__cxx_global" not in line:
                    m = re.match(r"(define .*\)(?: unnamed_addr| local_unnamed_addr)?)( #\d+.*)$", line.rstrip("\n"))
                    if m:
                        line = m.group(1) + " alwaysinline" + m.group(2) + "\n"
            out.append(line)
    with open(ll, "w") as f:
        f.writelines(out)


def linked(which, pick, entries, keep, passes, repo=REPO):
    """one module made of the chosen translation units in which everything the
    entry functions call (but the functions kept opaque) is inlined.
    pick(path) -> bool; keep(name) -> bool.  Returns the text file."""
    units = [(m, s, ll) for m, s, ll in build(which, "seq", repo=repo) if pick(s)]
    kept = []
    for m, u, ll in units:
        with open(ll) as fi:
            for line in fi:
                if line.startswith("define "):
                    nm = re.search(r"@\"?([\w.$]+)\"?\(", line)
                    if nm and keep(nm.group(1)[6:] if nm.group(1).startswith("SGRID_") else nm.group(1)):
                        kept.append(nm.group(1))
    tag = hashlib.sha256(repr((3, sorted(u[1] for u in units), sorted(entries), passes, sorted(kept))).encode()).hexdigest()[:12]
    d = os.path.dirname(units[0][2])
    out = os.path.join(d, "linked-%s.ll" % tag)
    if os.path.exists(out):
        return out
    tmp = tempfile.mkdtemp(prefix="l-", dir=d)
    try:
        fs = []
        for m, s, ll in units:
            o = os.path.join(tmp, os.path.basename(ll))
            with open(ll) as fi, open(o, "w") as fo:
                for line in fi:
                    if line.startswith("define ") and line.rstrip().endswith("{"):
                        nm = re.search(r"@\"?([\w.$]+)\"?\(", line)
                        nm = nm.group(1) if nm else ""
                        b = nm[6:] if nm.startswith("SGRID_") else nm
                        w = " noinline" if keep(b) else " alwaysinline"
                        if w.strip() not in line:
                            line = re.sub(r"(\))((?: unnamed_addr| local_unnamed_addr)?)( #\d+.*)$", lambda m: m.group(1) + m.group(2) + w + m.group(3), line.rstrip("\n"), count=0) + "\n"
                    fo.write(line)
            fs.append(o)
        a = os.path.join(tmp, "all.ll"); b = os.path.join(tmp, "in.ll")
        tool = lambda n: n + "-18" if shutil.which(n + "-18") else n
        for cmd in ([tool("llvm-link"), "-S", "-o", a] + fs,
                    [tool("opt"), "-S", "-passes=internalize,always-inline,globaldce," + passes,
                     "-internalize-public-api-list=" + ",".join(list(entries) + ["SGRID_" + e for e in entries]), a, "-o", b]):
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode != 0:
                raise BuildError("cannot link for analysis: " + p.stderr[:300])
        os.replace(b, out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def lower_text(ctext, incdirs, which="main", passes="always-inline,mem2reg,simplifycfg", repo=REPO):
    """lower a piece of C written by the analysis against the headers of the tree"""
    units = build(which, "seq", repo=repo)
    gen = os.path.join(os.path.dirname(units[0][2]), "gen")
    h = hashlib.sha256((ctext + passes).encode()).hexdigest()[:16]
    d = os.path.dirname(units[0][2])
    out = os.path.join(d, "text-%s.ll" % h)
    if os.path.exists(out):
        return out
    tmp = tempfile.mkdtemp(prefix="t-", dir=d)
    try:
        c = os.path.join(tmp, "ref.c"); ll = os.path.join(tmp, "ref.ll"); l2 = os.path.join(tmp, "ref2.ll")
        with open(c, "w") as f:
            f.write(ctext)
        cmd = ["clang", "-S", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-w",
               "-Wno-implicit-function-declaration", "-Wno-int-conversion", "-idirafter", STUB, "-g"] + CFLAGS + PROFILES["seq"] + \
              ["-I" + gen, "-I" + os.path.join(repo, "src/main/main")] + ["-I" + i for i in incdirs] + [c, "-o", ll]
        for cm in (cmd, ["opt-18" if shutil.which("opt-18") else "opt", "-S", "-passes=" + passes, ll, "-o", l2]):
            if cm is not cmd:
                mark_inline(ll)
            p = subprocess.run(cm, capture_output=True, text=True)
            if p.returncode != 0:
                raise BuildError("cannot lower the reference: " + p.stderr[:600])
        os.replace(l2, out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def prune_cache(keep=12):
    try:
        ents = [os.path.join(CACHE_ROOT, e) for e in os.listdir(CACHE_ROOT)]
        ents = [e for e in ents if os.path.isdir(e)]
        ents.sort(key=os.path.getmtime, reverse=True)
        for e in ents[keep:]:
            if e.startswith(CACHE_ROOT + "/"):
                shutil.rmtree(e, ignore_errors=True)
    except OSError:
        pass


if __name__ == "__main__":
    import time
    t = time.time()
    r = build(sys.argv[1] if len(sys.argv) > 1 else "main", sys.argv[2] if len(sys.argv) > 2 else "seq")
    print(len(r), "units", time.time() - t, "s", os.path.dirname(r[0][2]))
