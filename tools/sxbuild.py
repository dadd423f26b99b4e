"""Builds the real code of /repo (current working tree) under the symbolic-execution pass.

Objects are cached by content: an object is reused only when its source, every header of /repo or /verif it read, the
compiler flags and the pass are byte-identical to those it was compiled from."""
import hashlib, json, os, subprocess, sys, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
B = os.environ.get("SX_BUILD", os.path.join(VERIF, "build"))
DEPS = "/opt/vp/deps"
JOBS = int(os.environ.get("SX_JOBS", "8"))
CXX = "clang++"


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])
    return r.stdout


class BuildError(Exception):
    pass


_hc = {}


def fhash(p):
    try:
        st = os.stat(p)
        k = (p, st.st_mtime_ns, st.st_size)
        if k not in _hc:
            with open(p, "rb") as f:
                _hc[k] = hashlib.sha256(f.read()).hexdigest()
        return _hc[k]
    except OSError:
        return "missing"


def hstr(s):
    return hashlib.sha256(s.encode()).hexdigest()[:24]


def ensure_engine():
    src = os.path.join(VERIF, "engine")
    h = hstr(fhash(src + "/SxPass.cpp") + fhash(src + "/runtime.cpp") + fhash(src + "/exports.map") + "4")
    d = os.path.join(B, "engine-" + h)
    so, rt = d + "/SxPass.so", d + "/libsxrt.so"
    if not (os.path.exists(so) and os.path.exists(rt)):
        t = d + ".tmp%d" % os.getpid()
        os.makedirs(t, exist_ok=True)
        fl = sh(["llvm-config-18", "--cxxflags"]).replace("-fno-exceptions", "").split()
        with ThreadPoolExecutor(2) as ex:
            a = ex.submit(sh, [CXX, "-std=c++17", "-O1", "-fPIC", "-shared", "-fno-rtti"] + fl + [src + "/SxPass.cpp", "-o", t + "/SxPass.so"])
            b = ex.submit(sh, [CXX, "-std=c++17", "-O2", "-fPIC", "-shared", "-Wl,--version-script=" + src + "/exports.map", src + "/runtime.cpp",
                                "-lz3", "-o", t + "/libsxrt.so"])
            a.result(), b.result()
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return so, rt


def ensure_parser():
    """the ANTLR parser, generated from /repo's grammar"""
    g = os.path.join(REPO, "parser_library/src/parsing/grammar")
    files = sorted(os.listdir(g))
    h = hstr("".join(f + fhash(os.path.join(g, f)) for f in files))
    d = os.path.join(B, "gen-" + h)
    if not os.path.exists(d):
        t = d + ".tmp%d" % os.getpid()
        shutil.copytree(g, t + "/g")
        os.makedirs(t + "/out", exist_ok=True)
        jar = DEPS + "/antlr4cpp/tool/target/antlr4-4.7.2-complete.jar"
        sh(["java", "-jar", jar, "-Werror", "-Dlanguage=Cpp", "-lib", t + "/g/", "-o", t + "/out//", "-package",
            "hlasm_plugin::parser_library::parsing", "hlasmparser.g4"], cwd=t + "/g")
        # file names in comments/serialized data do not depend on the directory; the export header is cmake's
        with open(t + "/out/parser_library_export.h", "w") as f:
            f.write("#pragma once\n#define PARSER_LIBRARY_EXPORT\n#define PARSER_LIBRARY_NO_EXPORT\n")
        # antlr writes the source path into the first line: make it independent of the temporary directory
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return d + "/out"


def base_flags(gen):
    return ["-std=c++17", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-pie", "-w", "-DNDEBUG",
            "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS", "-DANTLR4CPP_STATIC=1", "-DPARSER_LIBRARY_STATIC_DEFINE=1",
            "-include", VERIF + "/engine/prelude.h", "-include", DEPS + "/antlr4cpp/runtime/Cpp/runtime/antlr4_compat.h",
            "-I" + REPO + "/language_server/src", "-I" + DEPS + "/asio/asio/include", "-I" + REPO + "/parser_library/include",
            "-I" + REPO + "/parser_library/src", "-I" + gen, "-I" + REPO + "/utils/include",
            "-isystem", "/usr/include/antlr4-runtime", "-isystem", DEPS + "/json/include", "-I" + VERIF + "/engine", "-I" + VERIF + "/stubs"]


def compile_tu(src, flags, so, extra=()):
    """returns the object's path; compiles when no cached object fits"""
    fl = list(flags) + list(extra)
    if os.path.basename(src) == "feature_workspace_folders.cpp":
        fl += ["-include", REPO + "/parser_library/src/config/pgm_conf.h"]  # nlohmann/json 3.11 needs it complete
    key = hstr(src + "\0" + "\0".join(fl) + fhash(so))
    d = os.path.join(B, "obj", key)
    o, meta = d + "/o.o", d + "/deps.json"
    if os.path.exists(o) and os.path.exists(meta):
        try:
            deps = json.load(open(meta))
            if all(fhash(p) == h for p, h in deps.items()):
                return o, False
        except ValueError:
            pass
    os.makedirs(d, exist_ok=True)
    t = d + "/t%d" % os.getpid()
    if os.path.basename(src) in ("instruction.cpp", "hlasmparser.cpp"):
        # huge tables: optimising them takes minutes
        fl = ["-O0" if x == "-O1" else x for x in fl]
    sh([CXX] + fl + (["-fpass-plugin=" + so] if so else []) + ["-MMD", "-MF", t + ".d", "-c", src, "-o", t + ".o"])
    txt = open(t + ".d").read().replace("\\\n", " ")
    files = [f for f in txt.split(":", 1)[1].split()]
    os.rename(t + ".o", o)
    json.dump({f: fhash(f) for f in files}, open(t + ".j", "w"))
    os.rename(t + ".j", meta)
    os.remove(t + ".d")
    return o, True


def sources(which):
    r = []
    roots = {"parser": ["parser_library/src"], "server": ["language_server/src"], "utils": ["utils/src"]}[which]
    for root in roots:
        top = os.path.join(REPO, root)
        for dp, dn, fn in os.walk(top):
            for f in fn:
                if f.endswith(".cpp"):
                    r.append(os.path.join(dp, f))
    if which == "server":
        skip = ("main.cpp", "tcp_handler.cpp", "emscripten_server_streams.cpp", "emscripten_main.cpp", "native_server_streams.cpp")
        r = [f for f in r if os.path.basename(f) not in skip]
    return sorted(r)


def build_lib(which, only=None, log=None):
    """compile (a subset of) a component; returns list of objects"""
    so, rt = ensure_engine()
    gen = ensure_parser()
    fl = base_flags(gen)
    srcs = sources(which)
    if which == "parser":
        srcs.append(gen + "/hlasmparser.cpp")
    if only is not None:
        srcs = [s for s in srcs if any(s.endswith("/" + x) for x in only)]
    # big ones first
    srcs.sort(key=lambda s: -os.path.getsize(s))
    n = 0
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda s: compile_tu(s, fl, so), srcs))
    return [o for o, _ in res], sum(1 for _, c in res if c)


LDFLAGS = ["-no-pie", "-fuse-ld=lld", "-Wl,-z,norelro"]


def _link(name, key, args, rt):
    h = hstr(key + fhash(rt))
    d = os.path.join(B, "bin")
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, name + "-" + h)
    if not os.path.exists(exe):
        for f in os.listdir(d):
            if f.startswith(name + "-"):
                os.remove(os.path.join(d, f))
        t = exe + ".t%d" % os.getpid()
        sh([CXX] + LDFLAGS + args(t) + [rt, "-Wl,-rpath," + os.path.dirname(rt), "-l:libantlr4-runtime.so", "-lpthread", "-o", t])
        os.rename(t, exe)
    return exe


def link(name, objs, rt):
    return _link(name, "\0".join(o + fhash(o) for o in objs), lambda t: objs, rt)


def link_archive(name, objs, lib, rt):
    """lib is searched like an archive; returns executable and the members used"""
    key = "ar" + "\0".join(o + fhash(o) for o in objs + lib)
    why = os.path.join(B, "why-%s.txt" % name)
    exe = _link(name, key, lambda t: objs + ["-Wl,--start-lib"] + lib + ["-Wl,--end-lib", "-Wl,--why-extract=" + why], rt)
    used = set()
    if os.path.exists(why):
        for l in open(why):
            c = l.rstrip("\n").split("\t")
            if len(c) >= 2:
                used.add(c[1])
    return exe, used


if __name__ == "__main__":
    import time
    t = time.time()
    for w in sys.argv[1:] or ["parser", "server"]:
        o, n = build_lib(w)
        print(w, len(o), "objects,", n, "compiled,", round(time.time() - t, 1), "s")
