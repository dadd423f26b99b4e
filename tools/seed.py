#!/usr/bin/env python3
"""Development aid: plant a bug in a scratch clone (/tmp/s/repo, with a build of its own), confirm it and run the checks on it.
   seed.py make ID PROP "needs" "breaks" DEMO.cpp   (the change is the clone's current git diff)
   seed.py test ID... [--checks P01,P02]            build, stable tests, demo with and without the change, the property's check"""
import json, os, subprocess, sys, shutil
S, R, V = "/tmp/s", "/tmp/s/repo", "/verif"
DEMO = '''#!/bin/bash
# Run in the repository after its build: exit 0 when the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O0 -w -DNDEBUG -DANTLR4CPP_STATIC=1 -DPARSER_LIBRARY_STATIC_DEFINE=1 \\
  -include /opt/vp/deps/antlr4cpp/runtime/Cpp/runtime/antlr4_compat.h -I"$r/language_server/src" -I"$r/parser_library/include" -I"$r/parser_library/src" \\
  -I"$r/_build/generated_parser" -I"$r/_build/generated_parser/export" -I/opt/vp/deps/antlr4cpp/runtime/Cpp/runtime/src -I"$r/utils/include" \\
  -isystem /usr/include/antlr4-runtime -isystem /opt/vp/deps/json/include "$d/demo.cpp" -o "$t/demo" \\
  "$r/_build/bin/liblanguage_server_no_uri.a" "$r/_build/bin/libparser_library.a" /usr/lib/x86_64-linux-gnu/libantlr4-runtime.so \\
  "$r/_build/bin/libhlasm_utils.a" -lpthread || exit 3
cd "$t"
timeout 120 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def build():
    r = sh("bash %s/build.sh" % S)
    if r.returncode:
        print(r.stdout[-3000:])
    return r.returncode == 0


def tests():
    sh("bash %s/test.sh %s/out.json" % (S, S))
    o = json.load(open(S + "/out.json"))
    st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(st - set(o["passed"]))


def demo(i):
    r = sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd=R)
    return r.returncode, r.stdout[-400:].strip()


def check(p):
    r = sh("SX_REPO=%s SX_BUILD=%s/sxb python3 %s/tools/check.py %s quick" % (R, S, V, p))
    return r.returncode, "\n".join(r.stdout.strip().splitlines()[-4:])[-1200:]


a = sys.argv[1:]
if a[0] == "make":
    i, prop, needs, breaks, cpp = a[1:6]
    d = "%s/seeded/%s" % (V, i)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.run("git diff", shell=True, cwd=R, stdout=subprocess.PIPE, text=True).stdout)
    open(d + "/demo.sh", "w").write(DEMO)
    if os.path.abspath(cpp) != d + "/demo.cpp":
        shutil.copy(cpp, d + "/demo.cpp")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    sh("git checkout -- .", cwd=R)
elif a[0] == "test":
    ids = [x for x in a[1:] if not x.startswith("--")]
    if ids == ["all"]:
        ids = sorted(os.listdir(V + "/seeded"))
    checks = [x[9:].split(",") for x in a if x.startswith("--checks=")]
    only = "--only-check" in a
    sh("git checkout -- .", cwd=R)
    if not only:
        build()
        for i in ids:
            print(i, "clean demo:", demo(i), flush=True)
    for i in ids:
        m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
        r = sh("git apply %s/seeded/%s/patch.diff" % (V, i), cwd=R)
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stdout)
            continue
        try:
            if not only:
                if not build():
                    print(i, "DOES NOT BUILD")
                    continue
                print(i, "broken tests:", tests(), "demo:", demo(i), flush=True)
            if "--no-check" in a:
                continue
            for p in checks[0] if checks else [m["property"]]:
                rc, t = check(p)
                print(i, p, {0: "MISSED", 1: "caught", 2: "NO ANSWER"}.get(rc, rc), "\n   ", t, flush=True)
        finally:
            sh("git checkout -- .", cwd=R)
