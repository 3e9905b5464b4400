"""Build freud from /repo's working tree against the simulator.

Reads the source lists from /repo/freud/CMakeLists.txt, compiles every file with
clang's -fsanitize=thread instrumentation (whose runtime is rt/simrt.cc here) and
with include/simtbb.h in place of oneTBB, and lays out an importable package in
<build>/pkg/freud. Nothing is written under /repo.
"""

import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
PY = "/opt/venv/bin/python"
SITE = "/opt/venv/lib/python3.12/site-packages"

# The sources that need voro++ are built with a stand-in for it (include/voro++), as the submodule is empty here.
# Those that need Eigen (empty here, too): built with the system's, when there is one.
EIGEN = "/usr/include/eigen3/Eigen"


def first(*cands):
    for c in cands:
        p = c if os.path.isabs(c) else shutil.which(c)
        if p and os.path.exists(p):
            return p
    raise SystemExit(f"missing tool: {cands}")


def cmake_targets():
    text = open(os.path.join(REPO, "freud/CMakeLists.txt")).read()
    text = re.sub(r"#.*", "", text)
    targets = {}
    for kind, body in re.findall(r"(add_library|nanobind_add_module)\s*\(([^)]*)\)", text):
        words = body.split()
        name = words[0]
        srcs = [w for w in words[1:] if w.endswith(".cc") and not w.startswith("$")]
        targets[name] = srcs
    return targets


TBB_HEADERS = """blocked_range blocked_range2d blocked_range3d blocked_rangeNd cache_aligned_allocator
collaborative_call_once combinable concurrent_hash_map concurrent_lru_cache concurrent_map
concurrent_priority_queue concurrent_queue concurrent_set concurrent_unordered_map
concurrent_unordered_set concurrent_vector enumerable_thread_specific global_control info memory_pool
mutex null_mutex null_rw_mutex parallel_for parallel_for_each parallel_invoke parallel_pipeline
parallel_reduce parallel_scan parallel_sort partitioner profiling queuing_mutex queuing_rw_mutex rw_mutex
scalable_allocator spin_mutex spin_rw_mutex task task_arena task_group task_scheduler_observer
tbb_allocator tick_count version tbb""".split()


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def nanobind_headers(dst):
    """nanobind's headers, in which allocations of its noexcept type casters are not failed: that is not freud's code."""
    src = os.path.join(SITE, "nanobind/include/nanobind")
    guard = "\n    sim_nofail_guard sim_guard;\n"
    edits = {
        "stl/shared_ptr.h": ["shared_from_python(T *ptr, handle h) noexcept {", "PyObject *o) noexcept {"],
        "stl/detail/nb_list.h": ["bool from_python(handle src, uint32_t flags, cleanup_list *cleanup) noexcept {"],
    }
    for d, _, fs in os.walk(src):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), src)
            text = open(os.path.join(d, f), encoding="utf-8").read()
            if rel in edits:
                for e in edits[rel]:
                    if e not in text:
                        raise SystemExit(f"nanobind: {rel} has no {e!r}")
                    text = text.replace(e, e + guard)
                text = "#include <simrt.h>\n" + text
            write_if_changed(os.path.join(dst, "nanobind", rel), text)


def build(quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(quiet)


def _build(quiet):
    cxx = first("/usr/bin/clang++-18", "/usr/lib/llvm-18/bin/clang++", "/usr/bin/clang++")
    objcopy = first("/usr/bin/objcopy", "/usr/bin/llvm-objcopy-18")
    ninja = first("/usr/bin/ninja", "ninja")
    ar = first("/usr/bin/ar", "/usr/bin/llvm-ar-18")
    inc = os.path.join(BUILD, "include")
    for h in TBB_HEADERS:
        for d in ("tbb", "oneapi/tbb"):
            write_if_changed(os.path.join(inc, d, h + ".h"), '#include "simtbb.h"\n')
    write_if_changed(os.path.join(inc, "oneapi/tbb.h"), '#include "simtbb.h"\n')
    nanobind_headers(os.path.join(BUILD, "nbinclude"))
    ext = os.path.join(BUILD, "extern")
    os.makedirs(os.path.join(ext, "Eigen"), exist_ok=True)
    if not os.path.exists(EIGEN):
        raise SystemExit("missing: " + EIGEN)
    if not os.path.islink(os.path.join(ext, "Eigen", "Eigen")):
        os.symlink(EIGEN, os.path.join(ext, "Eigen", "Eigen"))
    t = cmake_targets()
    dirs = "box cluster density diffraction environment locality order parallel pmft util".split()
    incs = " ".join(f"-I{REPO}/freud/{d}" for d in dirs)
    common = (
        f"-I{inc} -I{HERE}/include -I{HERE}/rt {incs} -isystem {ext} -isystem {REPO}/extern -O1 -gline-tables-only "
        "-DNDEBUG -std=gnu++17 -fPIC -w"
    )
    tsan = "-fsanitize=thread -femulated-tls -mllvm -tsan-instrument-func-entry-exit=0"
    pyinc = "/usr/include/python3.12"
    nb = (
        f"-DPy_LIMITED_API=0x030C0000 -DNB_COMPACT_ASSERTIONS -I{pyinc} -I{BUILD}/nbinclude "
        f"-isystem {SITE}/nanobind/ext/robin_map/include -fvisibility=hidden -fno-strict-aliasing"
    )
    pkg = os.path.join(BUILD, "pkg", "freud")
    os.makedirs(pkg, exist_ok=True)
    out = []
    out.append("ninja_required_version = 1.5")
    out.append(f"builddir = {BUILD}")
    out.append(
        "rule cc\n"
        f"  command = {cxx} -MD -MF $out.d $flags -c $in -o $out.tmp.o && "
        f"{objcopy} --redefine-syms={HERE}/rt/redefine.syms $out.tmp.o $out && rm -f $out.tmp.o\n"
        "  depfile = $out.d\n  deps = gcc"
    )
    out.append(f"rule ccplain\n  command = {cxx} -MD -MF $out.d $flags -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    out.append(f"rule rt\n  command = {cxx} -std=gnu++17 -O2 -g -fPIC -shared -Wall -o $out $in -ldl -lpthread")
    out.append(f"rule ar\n  command = rm -f $out && {ar} rcs $out $in")
    out.append(f"rule link\n  command = {cxx} -shared -o $out $in $libs")
    rt = os.path.join(BUILD, "libsimrt.so")
    out.append(f"build {rt}: rt {HERE}/rt/simrt.cc | {HERE}/rt/simrt.h")
    objs = {}

    def compile_(src, flags, rule="cc", tag=""):
        key = hashlib.sha1((src + tag).encode()).hexdigest()[:6]
        obj = os.path.join(BUILD, "obj", os.path.basename(src) + "." + key + ".o")
        if obj not in objs:
            extra = f" | {HERE}/rt/redefine.syms" if rule == "cc" else ""
            out.append(f"build {obj}: {rule} {src}{extra}\n  flags = {flags}")
            objs[obj] = 1
        return obj

    nbsrc = f"{SITE}/nanobind/src/nb_combined.cpp"
    # (the files that take longest first)
    slow = lambda s: not s.endswith(("MatchEnv.cc", "StaticStructureFactorDirect.cc"))
    core = [compile_(f"{REPO}/freud/{s}", f"{common} {tsan}") for s in sorted(t.pop("freud"), key=slow)]
    nbobj = compile_(nbsrc, f"-DNB_BUILD {common} {nb}", "ccplain")
    lib = os.path.join(BUILD, "libfreudsim.a")
    out.append(f"build {lib}: ar {' '.join(core)}")
    sos = []
    for name, srcs in sorted(t.items()):
        o = [compile_(f"{REPO}/freud/{s}", f"-D{name}_EXPORTS {common} {tsan} {nb}", tag=name) for s in srcs]
        so = os.path.join(pkg, f"{name}.abi3.so")
        out.append(
            f"build {so}: link {' '.join(o)} | {lib} {nbobj} {rt}\n"
            f"  libs = {lib} {nbobj} -L{BUILD} -lsimrt -Wl,-rpath,{BUILD}"
        )
        sos.append(so)
    out.append("default " + " ".join(sos))
    write_if_changed(os.path.join(BUILD, "build.ninja"), "\n".join(out) + "\n")
    r = subprocess.run(
        [ninja, "-C", BUILD, "-j", str(os.cpu_count() or 8)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True
    )
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-8000:])
        raise SystemExit("simulator build of /repo failed")
    if not quiet:
        print(r.stdout[-500:])
    src = os.path.join(REPO, "freud")
    keep = set()
    for f in sorted(os.listdir(src)):
        if f.endswith(".py"):
            keep.add(f)
            text = open(os.path.join(src, f), encoding="utf-8").read()
            write_if_changed(os.path.join(pkg, f), text)
    for f in os.listdir(pkg):
        if f.endswith(".py") and f not in keep:
            os.unlink(os.path.join(pkg, f))
    return pkg


if __name__ == "__main__":
    build(quiet=False)
