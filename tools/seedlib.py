"""Creates and verifies planted bugs: seedlib.make(id, prop, edits, needs, breaks, demo) with edits a list of
(file, old, new). Verified in a scratch copy (/tmp/sc/repo, built by /tmp/sc/build.sh and tested by /tmp/sc/test.sh)."""
import json, os, subprocess, sys
SC = "/tmp/sc/repo"
SEEDED = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")

HEAD_SH = '''#!/bin/bash
# Run with the repository as the working directory, after it was built.
here=$(cd "$(dirname "$0")" && pwd) || exit 99
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
'''
LIB = HEAD_SH + '''g++ -std=c++14 -g -w -Ilib/include -I_build/lib/include "$here/demo.cpp" _build/output/libvfcd.a -o "$tmp/demo" || exit 99
timeout 120 "$tmp/demo"
'''
SAN = HEAD_SH + '''g++ -std=c++14 -g -w -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -Ilib/include -I_build/lib/include -isystem /opt/vp/deps/include \\
	"$here/demo.cpp" lib/src/*.cpp -o "$tmp/demo" || exit 99
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$tmp/demo"
'''
TSAN = HEAD_SH + '''g++ -std=c++14 -g -O1 -w -pthread -fsanitize=thread -Ilib/include -I_build/lib/include -isystem /opt/vp/deps/include \\
	"$here/demo.cpp" lib/src/*.cpp -o "$tmp/demo" || exit 99
TSAN_OPTIONS=halt_on_error=1:exitcode=66 timeout 120 setarch -R "$tmp/demo" || TSAN_OPTIONS=halt_on_error=1:exitcode=66 timeout 120 "$tmp/demo"
'''
TOOLCPP = HEAD_SH + '''g++ -std=c++14 -g -w -Ilib/include -Itool -I_build/lib/include -isystem /opt/vp/deps/include "$here/demo.cpp" \\
	tool/Base64.cpp tool/ConfigFile.cpp tool/Path.cpp tool/ResultFile.cpp _build/output/libvfcd.a -o "$tmp/demo" || exit 99
timeout 120 "$tmp/demo"
'''
PY = HEAD_SH + '''timeout 200 python3 "$here/demo.py" "$PWD/_build/output/vfc" "$tmp"
'''

CPP_PRE = r'''
#include <VFC/Converter.h>
#include <VFC/VertexFormat.h>
#include <VFC/VertexValue.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <string>
#include <vector>
using namespace vfc;
#define CHECK(x) do { if (!(x)) { std::fprintf(stderr, "demo.cpp:%d: %s\n", __LINE__, #x); std::exit(1); } } while (0)
static void quiet(const char*) {}
'''
PY_PRE = '''import base64, json, os, struct, subprocess, sys
vfc, tmp = sys.argv[1:3]
def run(args=(), stdin=None, cwd=None):
    p = subprocess.run([vfc] + list(args), input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd or tmp, timeout=60)
    return p.returncode, p.stdout, p.stderr
def b64(b):
    return "base64:" + base64.b64encode(b).decode()
def check(ok, what):
    if not ok:
        sys.exit("demo: " + what)
'''


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def build_ok():
    return sh(["bash", "/tmp/sc/build.sh"]).returncode == 0


def tests():
    sh(["bash", "/tmp/sc/test.sh", "/tmp/sc/o.json"])
    d = json.load(open("/tmp/sc/o.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(stable - set(d["passed"]))


def make(id, prop, edits, needs, breaks, script, demo, keep=True):
    d = os.path.join(SEEDED, id)
    if os.path.exists(d + "/meta.json") and "--force" not in sys.argv and id not in sys.argv:
        return
    os.makedirs(d, exist_ok=True)
    name = "demo.py" if script is PY else "demo.cpp"
    open(d + "/" + name, "w").write((PY_PRE if script is PY else CPP_PRE) + demo)
    open(d + "/demo.sh", "w").write(script)
    os.chmod(d + "/demo.sh", 0o755)
    sh(["git", "checkout", "-q", "--", "."], cwd=SC)
    sh(["git", "fetch", "-q", "/repo"], cwd=SC)
    sh(["git", "reset", "-q", "--hard", "FETCH_HEAD"], cwd=SC)
    try:
        assert build_ok()
        r = sh(["bash", d + "/demo.sh"], cwd=SC)
        if r.returncode:
            print(id, "REJECTED: demo fails on the unchanged tree:", r.returncode, r.stdout.decode(errors="replace")[-600:])
            return
        for f, old, new in edits:
            s = open(SC + "/" + f).read()
            if s.count(old) != 1:
                print(id, "REJECTED: text found %d times in %s: %s" % (s.count(old), f, old[:80]))
                return
            open(SC + "/" + f, "w").write(s.replace(old, new))
        if not build_ok():
            print(id, "REJECTED: doesn't build", sh(["bash", "/tmp/sc/build.sh"]).stdout.decode()[-800:])
            return
        missing = tests()
        if missing:
            print(id, "REJECTED: tests fail:", missing[:4])
            return
        r = sh(["bash", d + "/demo.sh"], cwd=SC)
        if r.returncode in (0, 99):
            print(id, "REJECTED: demo exits %d with the change" % r.returncode, r.stdout.decode(errors="replace")[-600:])
            return
        diff = subprocess.run(["git", "diff"], cwd=SC, stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(diff)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
        print(id, "ok", r.returncode, r.stdout.decode(errors="replace").strip()[:150].replace("\n", " | "))
    finally:
        sh(["git", "checkout", "-q", "--", "."], cwd=SC)
        if not os.path.exists(d + "/meta.json"):
            sh(["rm", "-r", os.path.abspath(d)])
