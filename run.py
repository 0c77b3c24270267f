#!/usr/bin/env python3
"""Driver: builds the library from /repo's current tree, runs the generated-input
search for one property, writes evidence, reports.

  run.py check C01 [--tier quick|thorough]
  run.py replay C01 FILE
  run.py build VARIANT
"""
import sys, os, json, subprocess, time, fcntl, re, shutil, hashlib, glob, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
H = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
from checks import CHECKS, VARIANTS  # noqa

MKL = "/opt/vp/venv"


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    return p.returncode, p.stdout


def cmake_env():
    e = dict(os.environ)
    for k in ("MKLROOT", "CONDA_PREFIX", "CFLAGS", "CXXFLAGS", "LDFLAGS"):
        e.pop(k, None)
    return e


def build_lib(variant):
    v = VARIANTS[variant]
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    lib = os.path.join(d, "lib")
    if not os.path.exists(os.path.join(lib, "build.ninja")):
        cmd = ["cmake", "-S", REPO, "-B", lib, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
               "-DCMAKE_C_COMPILER=" + v.get("cc", "clang"), "-DCMAKE_CXX_COMPILER=" + v.get("cxx", "clang++"),
               "-DCMAKE_C_COMPILER_WORKS=1", "-DCMAKE_CXX_COMPILER_WORKS=1",
               "-DOSQP_ALGEBRA_BACKEND=" + v["backend"], "-DOSQP_BUILD_UNITTESTS=OFF", "-DOSQP_BUILD_DEMO_EXE=OFF",
               "-DOSQP_BUILD_SHARED_LIB=OFF", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
               "-DCMAKE_EXPORT_COMPILE_COMMANDS=OFF",
               "-DCMAKE_C_FLAGS=" + v["cflags"], "-DOSQP_CUSTOM_MEMORY=" + os.path.join(H, "vmem.h")]
        if v["backend"] == "mkl":
            cmd += ["-DMKL_ROOT=" + MKL, "-DCMAKE_PREFIX_PATH=" + MKL]
        else:
            cmd += ["-DFETCHCONTENT_SOURCE_DIR_QDLDL=" + os.path.join(VERIF, "third_party", "qdldl")]
        cmd += v.get("cmake", [])
        rc, out = sh(cmd, env=cmake_env())
        if rc:
            raise BuildError("cmake failed for %s:\n%s" % (variant, out[-4000:]))
    rc, out = sh(["ninja", "-C", lib, "osqpstatic"], env=cmake_env())
    if rc:
        raise BuildError("library build failed for %s:\n%s" % (variant, out[-6000:]))
    a = glob.glob(os.path.join(lib, "out", "libosqp*.a"))
    if not a:
        raise BuildError("no static library built")
    return lib, a[0]


def build_harness(variant, srcs, fuzz=False):
    """Returns the path of the harness binary with the given property sources."""
    v = VARIANTS[variant]
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        lib, a = build_lib(variant)
        name = "vh_" + hashlib.md5(" ".join(srcs).encode()).hexdigest()[:8] + ("_fuzz" if fuzz else "")
        inc = ["-I" + H, "-I" + os.path.join(REPO, "include", "public"), "-I" + os.path.join(REPO, "include", "private"),
               "-I" + os.path.join(lib, "include", "public")]
        if v["backend"] == "mkl":
            inc += ["-I" + os.path.join(REPO, "algebra", "mkl"), "-I" + os.path.join(MKL, "include")]
        else:
            inc += ["-I" + os.path.join(REPO, "algebra", "builtin"), "-I" + os.path.join(VERIF, "third_party", "qdldl", "include"), "-I" + os.path.join(lib, "_deps", "qdldl-build", "include")]
        inc += ["-I" + os.path.join(REPO, "algebra", "_common")]
        wraps = ["clock_gettime"]
        libs = []
        common = ["engine.cpp", "model.cpp", "checks.cpp", "hist.cpp", "warm.cpp", "env.c", "peek.cpp"]
        if v["backend"] == "mkl":
            common.append("mkltouch.cpp")
            wraps += ["MKL_malloc", "MKL_calloc", "MKL_free", "MKL_realloc", "mkl_sparse_d_create_csc", "mkl_sparse_destroy", "PARDISO"]
            libs += ["-L" + MKL + "/lib", "-l:libmkl_rt.so.2", "-Wl,-rpath," + MKL + "/lib"]
        libs += ["-lm", "-lpthread", "-ldl"]
        ldw = "-Wl," + ",".join("--wrap=" + w for w in wraps)
        base = v["cflags"] + " " + v.get("hflags", "") + " -DOSQP_VARIANT_" + variant.upper() + (" -DWRAP_MKL" if v["backend"] == "mkl" else "")
        base = re.sub(r"-fsanitize-coverage=\S+|-fsanitize=fuzzer-no-link", "", base)
        od = os.path.join(d, "obj" + ("_fuzz" if fuzz else ""))
        os.makedirs(od, exist_ok=True)

        def gen(peek):
            n = ["ninja_required_version = 1.5",
                 "rule cxx\n  command = %s -std=c++17 %s %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % (v.get("cxx", "clang++"), base + (" -DFUZZ_TARGET" if fuzz else ""), " ".join(inc)),
                 "rule cc\n  command = %s %s %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % (v.get("cc", "clang"), base, " ".join(inc)),
                 "rule link\n  command = %s %s%s $in -o $out %s %s" % (v.get("cxx", "clang++"), v["cflags"], " -fsanitize=fuzzer" if fuzz else "", ldw, " ".join(libs))]
            objs = []
            for s in common + list(srcs):
                if s == "peek.cpp" and not peek:
                    s = "peek_stub.cpp"
                o = os.path.join(od, s + ".o")
                n.append("build %s: %s %s" % (o, "cc" if s.endswith(".c") else "cxx", os.path.join(H, s)))
                objs.append(o)
            out = os.path.join(d, name)
            n.append("build %s: link %s %s" % (out, " ".join(objs), a))
            f = os.path.join(d, name + (".fuzz" if fuzz else "") + ".ninja")
            with open(f, "w") as fh:
                fh.write("\n".join(n) + "\n")
            return out, f
        out, f = gen(True)
        rc, log = sh(["ninja", "-C", d, "-f", f])
        if rc and re.search(r"FAILED: \S*peek\.cpp\.o", log):
            out, f = gen(False)
            rc, log = sh(["ninja", "-C", d, "-f", f])
        if rc:
            raise BuildError("harness build failed for %s:\n%s" % (variant, log[-6000:]))
        return out


def build_shims(names):
    """The other library variants as shared objects; a variant that does not build is left out."""
    out = os.path.join(BUILD, "shims")
    os.makedirs(out, exist_ok=True)
    missing = []
    for name in names:
        v = VARIANTS[name]
        d = os.path.join(BUILD, name)
        os.makedirs(d, exist_ok=True)
        so = os.path.join(out, "shim-%s.so" % name)
        with open(os.path.join(d, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            try:
                lib, a = build_lib(name)
                inc = ["-I" + H, "-I" + os.path.join(REPO, "include", "public"), "-I" + os.path.join(REPO, "include", "private"), "-I" + os.path.join(lib, "include", "public")]
                n = ["ninja_required_version = 1.5", "rule so\n  command = %s -fPIC -shared %s %s -MMD -MF $out.d $in %s -Wl,--exclude-libs,ALL -Wl,-Bsymbolic -lm -o $out\n  depfile = $out.d\n  deps = gcc" % (v.get("cc", "clang"), v["cflags"], " ".join(inc), a),
                     "build %s: so %s | %s" % (so, os.path.join(H, "shim.c"), a)]
                f = os.path.join(d, "shim.ninja")
                open(f, "w").write("\n".join(n) + "\n")
                rc, log = sh(["ninja", "-C", d, "-f", f])
                if rc:
                    raise BuildError(log[-3000:])
            except BuildError as e:
                missing.append(name)
                if os.path.exists(so):
                    os.unlink(so)
                if os.environ.get("VH_SHOW"):
                    print(e)
    return out, missing


class Codegen:
    """What a part that compiles generated code needs: the sources the build provides for embedding, the neutral
    interface over them, a compiler, a cache for what does not depend on the problem, and a scratch directory."""

    def __init__(self, variant):
        v = VARIANTS[variant]
        d = os.path.join(BUILD, variant)
        with open(os.path.join(d, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            lib = os.path.join(d, "lib")
            rc, out = sh(["ninja", "-C", lib, "copy_codegen_files"], env=cmake_env())
            if rc:
                raise BuildError("the sources for generated code were not prepared:\n" + out[-3000:])
            src = os.path.join(lib, "codegen_src")
            h = hashlib.md5()
            for f in sorted(glob.glob(os.path.join(src, "**", "*"), recursive=True)) + [os.path.join(H, x) for x in ("cgshim.c", "cgshim.h", "shim.h")]:
                if os.path.isfile(f):
                    h.update(f.encode() + b"\0" + open(f, "rb").read())
            cache = os.path.join(d, "emb", h.hexdigest()[:12])
            for old in glob.glob(os.path.join(d, "emb", "*")):
                if old != cache:
                    shutil.rmtree(old, ignore_errors=True)
            os.makedirs(cache, exist_ok=True)
        # a sanitized program is loaded into the sanitized harness: its compiler and runtime have to be the harness's
        cc = (v.get("cc", "clang") + " " + v["cflags"]) if "-fsanitize" in v["cflags"] else "gcc -O1 -ffp-contract=off"
        self.tmp = tempfile.mkdtemp(prefix="cg-", dir=d)
        self.env = {"VH_CG_SRC": src, "VH_CG_SHIM": H, "VH_CG_CACHE": cache, "VH_CG_HASH": h.hexdigest(), "VH_CG_CC": cc, "VH_CG_TMP": self.tmp}

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def known_findings(prop):
    """known_findings.txt: lines `known: property=<id> key=<key> :: text`; `fixed:` lines suppress nothing."""
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", ln.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r


def run_env(extra=None):
    e = dict(os.environ)
    e.update(MKL_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_CBWR="COMPATIBLE", MKL_THREADING_LAYER="SEQUENTIAL", MKL_INTERFACE_LAYER="ILP64", LC_ALL="C",
             ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0:print_legend=0:symbolize=1",
             UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98", MSAN_OPTIONS="exitcode=96")
    e["ASAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""
    if extra:
        e.update(extra)
    return e


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[prop]
    known = known_findings(prop)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    ev = {"evaluations": 0, "distinct_nontrivial": 0, "nontriv": 0, "disc": 0, "rules": [], "samples": [], "labels": {}, "unrepro": 0, "corpus": 0}
    viol, kseen, notes = [], set(), []
    for part in spec["parts"]:
        if os.environ.get("VH_VARIANT"):   # for experiments: the same parts on another library variant
            part = dict(part, variant=os.environ["VH_VARIANT"])
        if part.get("tiers") and tier not in part["tiers"]:
            continue
        if "py" in part:   # a python-driven part
            mod = __import__("parts." + part["py"], fromlist=["run"])
            r = mod.run(prop, tier, seed, part, sys.modules[__name__])
            ev["evaluations"] += r["evaluations"]
            ev["distinct_nontrivial"] += r["distinct_nontrivial"]
            ev["rules"] += r["rules"]
            ev["samples"] += r["samples"]
            for k, n in r.get("labels", {}).items():
                ev["labels"][k] = ev["labels"].get(k, 0) + n
            for f in r["failures"]:
                if f["key"] in known:
                    kseen.add(f["key"])
                else:
                    viol.append(f)
            continue
        try:
            exe = build_harness(part["variant"], part["src"])
        except BuildError as e:
            # a part that calls internal functions directly is left out when those have been given another
            # signature or name (the library itself builds); the other parts decide then
            # and so is a part on a secondary library variant (another backend or precision) that does not build
            secondary = not part["variant"].startswith("mkl") or part.get("secondary")
            if not part.get("optional") or (not str(e).startswith("harness build failed") and not secondary):
                raise
            print("note: %s/%s left out, it does not compile against this tree" % (part["variant"], part["src"]))
            ev["labels"]["left-out"] = ev["labels"].get("left-out", 0) + 1
            continue
        penv = dict(part.get("env") or {})
        if part.get("shims"):
            penv["VH_SHIMS"], miss = build_shims(part["shims"])
            for x in miss:
                print("note: library variant %s left out, it does not build from this tree" % x)
                ev["labels"]["left-out:" + x] = 1
        cg = None
        if part.get("codegen"):
            cg = Codegen(part["variant"])
            penv.update(cg.env)
        rdir = os.path.join(VERIF, "replays") if part["variant"] == spec["parts"][0].get("variant") else os.path.join(VERIF, "replays", part["variant"])
        os.makedirs(rdir, exist_ok=True)
        cases = part["cases"][0 if tier == "quick" else 1]
        wallcap = part.get("wall", (45, 400))[0 if tier == "quick" else 1]
        out = os.path.join(BUILD, "result-%s-%d.json" % (prop, os.getpid()))
        cmd = [exe, "--prop", part.get("prop", prop), "--seed", str(seed), "--cases", str(cases), "--wall", str(wallcap), "--out", out, "--replaydir", rdir, "--workers", str(part.get("workers", os.cpu_count() or 4)), "--cpu", str(part.get("cpu", 60))]
        if part.get("sub"):
            cmd += ["--sub", part["sub"]]
        for k in known:
            cmd += ["--known", k]
        for c in sorted(glob.glob(os.path.join(VERIF, "corpus", prop, part["variant"], "*.bin"))):
            cmd += ["--corpus", c]
        try:
            p = subprocess.run(cmd, env=run_env(penv), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        finally:
            if cg:
                cg.close()
        sys.stdout.write(p.stdout)
        if p.returncode not in (0, 1) or not os.path.exists(out):
            print("harness error rc=%d" % p.returncode)
            return 3
        r = json.load(open(out), strict=False)
        os.unlink(out)
        ev["evaluations"] += r["evaluations"] + r["corpus"]
        ev["distinct_nontrivial"] += r["distinct_nontrivial"]
        ev["disc"] += r["discarded"]
        ev["unrepro"] += r["unreproduced"]
        ev["corpus"] += r["corpus"]
        ev["rules"] += r["rules"]
        ev["samples"] += r["samples"]
        for k, n in r["labels"].items():
            ev["labels"][k] = ev["labels"].get(k, 0) + n
            if k.startswith("known-finding:"):
                kseen.add(k[len("known-finding:"):])
        kseen.update(r["known_seen"])
        for f in r["failures"]:
            viol.append(f)
        if viol:
            break
    wall_s = time.time() - t0
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"],
                "coverage": {"evaluations": ev["evaluations"], "distinct_nontrivial": ev["distinct_nontrivial"],
                             "rule": "; ".join(ev["rules"]), "samples": ev["samples"][:8],
                             "discarded": ev["disc"], "labels": ev["labels"], "not_reproduced": ev["unrepro"], "corpus_replayed": ev["corpus"]},
                "assumptions": spec.get("assumptions", []), "wall_s": round(wall_s, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
    for k, txt in known.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, txt))
    for f in viol:
        print("VIOLATION property=%s replay=%s" % (prop, f.get("replay", "")))
    print("%s %s: %d evaluations, %d distinct non-trivial, %d discarded, %.1fs, %d violation(s)" % (prop, tier, ev["evaluations"], ev["distinct_nontrivial"], ev["disc"], wall_s, len(viol)))
    return 1 if viol else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    try:
        if a[0] == "check":
            tier = os.environ.get("VERIF_TIER", "quick")
            if "--tier" in a:
                tier = a[a.index("--tier") + 1]
            return check(a[1], tier)
        if a[0] == "setup":   # nothing has to be prepared: every check builds what it needs
            os.makedirs(BUILD, exist_ok=True)
            return 0
        if a[0] == "build":
            print(build_lib(a[1]))
            return 0
        if a[0] == "exe":
            part = CHECKS[a[1]]["parts"][int(a[2]) if len(a) > 2 else 0]
            print(build_harness(part["variant"], part["src"]))
            return 0
        if a[0] == "replay":
            where = os.path.basename(os.path.dirname(os.path.abspath(a[2])))
            hp = [p for p in CHECKS[a[1]]["parts"] if p.get("variant") == where] or CHECKS[a[1]]["parts"]
            for part in hp:
                if "py" in part:
                    mod = __import__("parts." + part["py"], fromlist=["run"])
                    if a[2].endswith(".json"):
                        return mod.replay(a[2], sys.modules[__name__])
                    continue
                exe = build_harness(part["variant"], part["src"])
                cmd = [exe, "--prop", part.get("prop", a[1]), "--replay", a[2]]
                if part.get("sub"):
                    cmd += ["--sub", part["sub"]]
                penv = dict(part.get("env") or {})
                if part.get("shims"):
                    penv["VH_SHIMS"] = build_shims(part["shims"])[0]
                cg = Codegen(part["variant"]) if part.get("codegen") else None
                try:
                    if cg:
                        penv.update(cg.env)
                    return subprocess.run(cmd, env=run_env(penv)).returncode
                finally:
                    if cg:
                        cg.close()
    except BuildError as e:
        print("BUILD ERROR:", e)
        return 3
    return 2


if __name__ == "__main__":
    sys.exit(main())
