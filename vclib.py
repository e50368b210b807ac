#!/usr/bin/env python3
"""Build and run contract checks: mechanical extraction of LLVM IR from /repo, verification with
irv, replay of counterexamples on a native build of the same IR, evidence."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VC_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
JOBS = 8
CXX = "clang++"
OPT = ["-O1", "-g0", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off",
       "-fno-strict-aliasing", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fPIC"]
STD = ["-std=gnu++17", "-DNDEBUG", "-DNOMINMAX=1", "-DBOOST_SYSTEM_NO_LIB", "-DBOOST_URL_NO_LIB"]
EXPORTS = {
    "platform/roughpy/platform/roughpy_platform_export.h": "ROUGHPY_PLATFORM",
    "scalars/roughpy_scalars_export.h": "ROUGHPY_SCALARS",
    "intervals/roughpy_intervals_export.h": "ROUGHPY_INTERVALS",
    "algebra/roughpy_algebra_export.h": "ROUGHPY_ALGEBRA",
    "streams/roughpy_streams_export.h": "ROUGHPY_STREAMS",
    "vendored/libalgebra_lite/libalgebra_lite_export.h": "LIBALGEBRA_LITE",
}
PCH = """#include <range/v3/all.hpp>
#include <eigen3/Eigen/Core>
#include <filesystem>
#include <regex>
#include <functional>
#include <map>
#include <unordered_map>
#include <set>
#include <mutex>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <random>
#include <numeric>
#include <algorithm>
#include <optional>
#include <boost/multiprecision/gmp.hpp>
#include <boost/multiprecision/gmp.hpp>
#include <cereal/cereal.hpp>
#include <cereal/access.hpp>
#include <cereal/specialize.hpp>
#include <cereal/types/base_class.hpp>
#include <cereal/types/optional.hpp>
#include <cereal/types/polymorphic.hpp>
#include <cereal/types/string.hpp>
#include <cereal/types/utility.hpp>
#include <cereal/types/vector.hpp>
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/archives/xml.hpp>
#include <libalgebra_lite/dense_vector.h>
#include <libalgebra_lite/sparse_vector.h>
#include <libalgebra_lite/basis.h>
#include <libalgebra_lite/algebra.h>
#include <libalgebra_lite/free_tensor.h>
#include <libalgebra_lite/lie.h>
#include <libalgebra_lite/shuffle_tensor.h>
#include <libalgebra_lite/maps.h>
#include <libalgebra_lite/polynomial.h>
"""
# component -> (globs, excluded basenames regex, defines, private include dirs, uses the common pch)
COMPONENTS = {
    "lal": (["vendored/libalgebra_lite/*.cpp", "vendored/libalgebra_lite/*/*.cpp"], r"^test_|^rational", ["-DLibalgebra_lite_EXPORTS"], [], False),
    "intervals": (["intervals/src/*.cpp"], r"^test_", ["-DRPY_COMPILING_INTERVALS", "-DRoughPy_Intervals_EXPORTS"], ["intervals/src", "intervals/include/roughpy/intervals"], True),
    "platform": (["platform/src/alloc.cpp", "platform/src/errors.cpp", "platform/src/polymorphic_ref_counted.cpp", "platform/src/configuration.cpp"], r"^test_", ["-DRPY_COMPILING_PLATFORM", "-DRoughPy_Platform_EXPORTS"], ["platform/src", "platform/include/roughpy/platform"], True),
    "generics": (["platform/src/generics/*.cpp", "platform/src/generics/builtin_types/*.cpp", "platform/src/generics/multiprecision_types/*.cpp", "platform/src/generics/polynomial_type/*.cpp"], r"^test_|^float_(arith|comp|conv|num)|multiprecision_types/float_type|polynomial_types?\.cpp", ["-DRPY_COMPILING_PLATFORM", "-DRoughPy_Platform_EXPORTS"], ["platform/src", "platform/include/roughpy/platform"], True),
    "devices": (["platform/src/devices/*.cpp", "platform/src/devices/host/*.cpp"], r"^test_", ["-DRPY_COMPILING_PLATFORM", "-DRoughPy_Platform_EXPORTS"], ["platform/src", "platform/include/roughpy/platform"], True),
    "device": (["platform/src/device/*.cpp"], r"^test_", ["-DRPY_COMPILING_PLATFORM", "-DRoughPy_Platform_EXPORTS"], ["platform/src", "platform/include/roughpy/platform"], True),
    "scalars": (["scalars/src/*.cpp", "scalars/src/scalar/*.cpp", "scalars/src/random/*.cpp", "scalars/src/types/*/*.cpp"], r"^test_", ["-DRPY_COMPILING_SCALARS", "-DRoughPy_Scalars_EXPORTS"], ["scalars/src", "scalars/include/roughpy/scalars"], True),
    "algebra": (["algebra/src/*.cpp", "algebra/src/libalgebra_lite_internal/*.cpp"], r"^test_|_bundle|tensor_fixture", ["-DRPY_COMPILING_ALGEBRA", "-DRoughPy_Algebra_EXPORTS"], ["algebra/src", "algebra/include/roughpy/algebra"], True),
    "streams": (["streams/src/*.cpp", "streams/src/schema/*.cpp", "streams/src/*/*.cpp"], r"^test_|sound_file|csv_data|external_data|_testing", ["-DRPY_COMPILING_STREAMS", "-DRoughPy_Streams_EXPORTS"], ["streams/src", "streams/include/roughpy/streams"], True),
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def fhash(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


class BuildError(Exception):
    pass


def gen_headers():
    gen = os.path.join(BUILD, "gen")
    for rel, macro in EXPORTS.items():
        p = os.path.join(gen, rel)
        body = ("#pragma once\n#define %s_EXPORT\n#define %s_NO_EXPORT\n#define %s_DEPRECATED\n#define %s_DEPRECATED_EXPORT\n#define %s_DEPRECATED_NO_EXPORT\n"
                % ((macro,) * 5))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p).read() != body:
            open(p, "w").write(body)
    p = os.path.join(gen, "vc_pch.h")
    if not os.path.exists(p) or open(p).read() != PCH:
        open(p, "w").write(PCH)
    return gen


def includes(private=()):
    gen = os.path.join(BUILD, "gen")
    inc = []
    for d in private:
        inc += ["-I" + os.path.join(REPO, d)]
    for d in ("streams", "algebra", "intervals", "scalars", "platform", "core"):
        inc += ["-I%s/%s/include" % (REPO, d), "-I%s/%s" % (gen, d)]
    inc += ["-I%s/vendored" % REPO, "-I%s/vendored/libalgebra_lite" % gen, "-isystem", "/usr/include/eigen3", "-isystem", "/opt/vp/cmake/include"]
    return inc


_header_hash = None


def header_hash():
    """Hash of every header any extracted translation unit can include from /repo."""
    global _header_hash
    if _header_hash is None:
        h = hashlib.sha256()
        for root in ("core", "platform", "scalars", "intervals", "algebra", "streams", "vendored/libalgebra_lite"):
            for dp, dn, fn in sorted(os.walk(os.path.join(REPO, root))):
                dn.sort()
                for f in sorted(fn):
                    if f.endswith((".h", ".hpp", ".inl", ".hh", ".inc", ".ipp")):
                        p = os.path.join(dp, f)
                        h.update(p.encode())
                        h.update(open(p, "rb").read())
        _header_hash = h.hexdigest()
    return _header_hash


def ensure_engine():
    os.makedirs(BUILD, exist_ok=True)
    src = [os.path.join(VERIF, "engine", f) for f in ("irv.cpp", "exec.inc", "builtins.inc", "poly.h")]
    key = sha(*[fhash(s) for s in src])
    exe = os.path.join(BUILD, "irv-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = sh([CXX, "-O2", "-std=c++17", "-w", "-I/usr/lib/llvm-18/include", src[0], "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3", "-lgmpxx", "-lgmp"])
        if r.returncode:
            raise BuildError("engine: " + r.stderr[-2000:])
        os.rename(tmp, exe)
    rtsrc = os.path.join(VERIF, "engine", "rt.cpp")
    rt = os.path.join(BUILD, "rt-%s.bc" % sha(fhash(rtsrc)))
    if not os.path.exists(rt):
        r = sh([CXX] + OPT + ["-std=gnu++17", "-emit-llvm", "-c", rtsrc, "-o", rt + ".tmp"])
        if r.returncode:
            raise BuildError("rt: " + r.stderr[-2000:])
        os.rename(rt + ".tmp", rt)
    nsrc = os.path.join(VERIF, "engine", "native.cpp")
    nobj = os.path.join(BUILD, "native-%s.o" % sha(fhash(nsrc)))
    if not os.path.exists(nobj):
        r = sh([CXX, "-O1", "-std=gnu++17", "-fPIC", "-c", nsrc, "-o", nobj + ".tmp"])
        if r.returncode:
            raise BuildError("native: " + r.stderr[-2000:])
        os.rename(nobj + ".tmp", nobj)
    return exe, rt, nobj


_pch = None


def PCH_FLAGS():
    """the build's own precompiled header list (plus third-party headers), compiled once"""
    global _pch
    if _pch is None:
        src = os.path.join(gen_headers(), "vc_pch.h")
        out = os.path.join(BUILD, "vc-%s.pch" % sha(PCH, header_hash(), " ".join(OPT + STD)))
        _pch = ["-include", src]
        if os.path.exists(out):
            _pch = ["-include-pch", out]
        else:
            r = sh([CXX] + OPT + STD + includes() + ["-Xclang", "-fpch-instantiate-templates", "-x", "c++-header", src, "-o", out + ".tmp%d" % os.getpid()])
            if r.returncode == 0:
                os.rename(out + ".tmp%d" % os.getpid(), out)
                _pch = ["-include-pch", out]
    return _pch


def tu_list(spec):
    """spec: list of 'component' or 'component:regex' (regex on basename)."""
    out = []
    for s in spec:
        name, _, rx = s.partition(":")
        globs, excl, defs, priv, pch = COMPONENTS[name]
        seen = set()
        for g in globs:
            for f in sorted(glob.glob(os.path.join(REPO, g))):
                b = os.path.basename(f)
                if f in seen or re.search(excl, b) or re.search(excl, f) or (rx and not re.search(rx, b)):
                    continue
                seen.add(f)
                flags = STD + defs + includes(priv) + (PCH_FLAGS() if pch else [])
                out.append((f, flags))
    return out


def compile_tu(job):
    src, flags = job
    os.makedirs(os.path.join(BUILD, "bc"), exist_ok=True)
    key = sha(fhash(src), src, header_hash(), " ".join(flags), " ".join(OPT))
    out = os.path.join(BUILD, "bc", os.path.basename(src) + "-" + key + ".bc")
    if os.path.exists(out):
        os.utime(out)
        return out, None
    tmp = out + ".tmp%d" % os.getpid()
    r = sh([CXX] + OPT + flags + ["-emit-llvm", "-c", src, "-o", tmp])
    if r.returncode:
        return None, "%s: %s" % (src, r.stderr[-1500:])
    obj = out[:-3] + ".o"
    r = sh([CXX, "-O1", "-fPIC", "-w", "-ffunction-sections", "-fdata-sections", "-c", "-x", "ir", tmp, "-o", obj + ".tmp%d" % os.getpid()])
    if r.returncode:
        return None, "%s: %s" % (src, r.stderr[-1500:])
    os.rename(obj + ".tmp%d" % os.getpid(), obj)
    os.rename(tmp, out)
    return out, None


META = re.compile(r'VC_CONTRACT\(\s*(\w+)\s*,\s*(\w+)\s*,\s*(\w+)\s*,\s*"((?:[^"\\]|\\.)*)"\s*\)')


def parse_harness(path):
    txt = open(path).read()
    srcs = re.search(r"^//\s*SOURCES:\s*(.*)$", txt, re.M)
    cons = {}
    for m in META.finditer(txt):
        cons[m.group(1)] = {"mode": m.group(2), "claim": m.group(3), "text": m.group(4), "file": os.path.relpath(path, VERIF)}
    opts = {}
    for m in re.finditer(r"^//\s*OPT\s+(\w+):\s*(.*)$", txt, re.M):
        opts[m.group(1)] = m.group(2).split()
    for c, o in opts.items():
        if c in cons:
            cons[c]["opts"] = o
    for tag, conv in (("SHARDS", int), ("BUDGET", int)):
        for m in re.finditer(r"^//\s*%s\s+(\w+):\s*(\d+)" % tag, txt, re.M):
            if m.group(1) in cons:
                cons[m.group(1)][tag.lower()] = conv(m.group(2))
    for m in re.finditer(r"^//\s*(THOROUGH|NONATIVE):\s*(.*)$", txt, re.M):
        for c in m.group(2).split():
            if c in cons:
                if m.group(1) == "THOROUGH":
                    cons[c]["thorough"] = True
                else:
                    cons[c]["native"] = False
    return (srcs.group(1).split() if srcs else []), cons


def build_harness(name):
    """returns (irv bitcode, native exe, contracts)"""
    gen_headers()
    path = os.path.join(VERIF, "harness", name + ".cpp")
    spec, cons = parse_harness(path)
    jobs = tu_list(spec)
    hflags = STD + ["-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "harness")] + includes(["algebra/src", "streams/src", "intervals/src", "scalars/src", "platform/src"]) + PCH_FLAGS()
    hdr = sha(*[fhash(f) for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))) + [os.path.join(VERIF, "engine", "vc.h")]])
    jobs.append((path, hflags + ["-DVC_HDR=" + hdr]))
    jobs.sort(key=lambda j: 0 if re.search(r"lite_context\.cpp|harness/", j[0]) else (1 if re.search(r"streams/|algebra/|serial|_array", j[0]) else 2))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        eng = ex.submit(ensure_engine)
        res = list(ex.map(compile_tu, jobs))
        exe, rt, nobj = eng.result()
    errs = [e for _, e in res if e]
    if errs:
        raise BuildError("\n".join(errs))
    bcs = [b for b, _ in res]
    key = sha(*(bcs + [rt, nobj]))
    lk = os.path.join(BUILD, "%s-%s.bc" % (name, key))
    nat = os.path.join(BUILD, "%s-%s.exe" % (name, key))
    if not os.path.exists(lk):
        r = sh(["llvm-link-18", "-o", lk + ".all"] + bcs + [rt])
        if r.returncode:
            raise BuildError("link: " + r.stderr[-2000:])
        api = ",".join("vc_main_" + c for c in cons) 
        r = sh(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=" + api, lk + ".all", "-o", lk + ".tmp"])
        if r.returncode:
            raise BuildError("opt: " + r.stderr[-2000:])
        os.remove(lk + ".all")
        os.rename(lk + ".tmp", lk)
    if not os.path.exists(nat):
        objs = [b[:-3] + ".o" for b in bcs]
        base = [CXX] + objs + [nobj, "-o", nat + ".tmp", "-Wl,--export-dynamic-symbol=vc_main_*", "-Wl,--gc-sections", "-Wl,--no-demangle", "-lgmp", "-ldl", "-lpthread", "-lm"]
        r = sh(base)
        if r.returncode:
            und = sorted(set(re.findall(r"undefined reference to `([^']+)'", r.stderr)))
            if not und:
                raise BuildError("native link: " + r.stderr[-2000:])
            # symbols of libraries the contracts never reach: calling one ends the native run
            with open(nat + ".s", "w") as f:
                f.write(".text\n" + "".join(".globl %s\n%s:\n jmp __vc_missing\n" % (u, u) for u in und) + ".section .note.GNU-stack,\"\",@progbits\n")
            r = sh(base + [nat + ".s"])
            os.remove(nat + ".s")
            if r.returncode:
                raise BuildError("native link: " + r.stderr[-2000:])
        os.rename(nat + ".tmp", nat)
    return lk, nat, cons


def run_irv(bc, contract, meta, budget, shard=None):
    exe, _, _ = ensure_engine()
    cmd = [exe, bc, "--entry", "vc_main_" + contract, "--budget", str(budget), "--seed", os.environ.get("VERIF_SEED", "1")]
    if meta["mode"] == "real":
        cmd.append("--real")
    cmd += meta.get("opts", [])
    if shard:
        cmd += ["--shard", "%d/%d" % shard]
    t = time.time()
    try:
        r = subprocess.run(["bash", "-c", "ulimit -v 12000000; exec \"$@\"", "x"] + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=budget + 120)
        line = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""
        d = json.loads(line)
        d["stderr"] = r.stderr[-800:]
    except subprocess.TimeoutExpired:
        d = {"crash": "verifier timed out"}
    except Exception as e:
        d = {"crash": "verifier ended abnormally (%s): %s" % (e, r.stderr[-400:] if "r" in dir() else "")}
    d["wall"] = time.time() - t
    return d


def native_replay(nat, contract, inputs, valgrind=False):
    with tempfile.NamedTemporaryFile("w", suffix=".in", delete=False) as f:
        for n, v in inputs:
            f.write("%s\t%s\n" % (n, v))
    try:
        cmd = [nat, contract, "replay", f.name]
        if valgrind:
            cmd = ["valgrind", "-q", "--error-exitcode=3", "--leak-check=no"] + cmd
        try:
            r = sh(cmd, timeout=180)
        except subprocess.TimeoutExpired:
            return "fail", "timeout (180 s)"
        if r.returncode == 3:
            return "fail", (r.stdout[-3000:] + r.stderr[-2000:])
        if r.returncode == 5:
            return "unsupported", r.stdout[-500:]
        if r.returncode == 4:
            return "assumption", r.stdout[-500:]
        if r.returncode == 0:
            return "pass", r.stdout[-500:]
        return "fail", "exit %d\n%s%s" % (r.returncode, r.stdout[-2000:], r.stderr[-2000:])
    finally:
        os.unlink(f.name)


def native_random(nat, contract, seed, count, secs):
    try:
        r = sh([nat, contract, "random", str(seed), str(count), str(secs)], timeout=secs + 90)
    except subprocess.TimeoutExpired:
        return "none", "random search timed out", []
    if r.returncode == 0:
        return "pass", r.stdout.strip(), []
    if r.returncode == 5:
        return "none", "a library outside the extraction was called", []
    ins = [tuple(l.split("\t")[1:3]) for l in r.stdout.splitlines() if l.startswith("INPUT\t")]
    return "fail", r.stdout[-3000:] + r.stderr[-500:], ins
